//! C18: Merkle trees over files and data, proofs and their verification.
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::merkle_tree::*;
use rand::{seq::SliceRandom, Rng};
use rs_merkle::{algorithms::Sha256, MerkleTree};
use util::*;

type Tree = (Vec<[u8; 32]>, MerkleTree<Sha256>, [u8; 32]);
fn hs(v: &[[u8; 32]]) -> J {
    J::A(v.iter().map(|x| hexj(x)).collect())
}
fn tree_fields(t: &Option<Tree>) -> Vec<(&'static str, J)> {
    match t {
        Some(t) => vec![("ok", J::B(true)), ("leaves", hs(&t.0)), ("root", hexj(&t.2))],
        None => vec![("ok", J::B(false)), ("leaves", J::A(vec![])), ("root", s(""))],
    }
}
fn verify(t: &Tree, proved: &[usize], root: [u8; 32], at: &[usize], leaves: &Vec<[u8; 32]>) -> J {
    let ok = catch(|| {
        let p = generate_merkle_proof(proved, &t.1);
        verify_merkle_proof(p, root, at, leaves)
    })
    .is_some();
    J::O(vec![("f", s("verify")), ("proved", ns(proved)), ("root", hexj(&root)), ("at", ns(at)), ("leaves", hs(leaves)), ("ok", J::B(ok))])
}
fn subset(mask: usize, n: usize) -> Vec<usize> {
    (0..n).filter(|i| mask >> i & 1 == 1).collect()
}
fn pick<R: Rng>(r: &mut R, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    v.shuffle(r);
    v.truncate(k.min(n).max(1));
    v.sort();
    v
}
/// honest and altered presentations of a proof
fn attacks<R: Rng>(r: &mut R, e: &mut Vec<J>, t: &Tree, proved: &[usize]) {
    attacks_at(r, e, t, proved, 40)
}
fn attacks_at<R: Rng>(r: &mut R, e: &mut Vec<J>, t: &Tree, proved: &[usize], some: usize) {
    let cnt = t.0.len();
    e.push(verify(t, proved, t.2, proved, &t.0));
    // another root: one bit, another tree's
    let mut root = t.2;
    root[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
    e.push(verify(t, proved, root, proved, &t.0));
    e.push(verify(t, proved, t.0[0], proved, &t.0));
    // another leaf value at each proved position
    for &i in proved.iter().take(some) {
        let mut lv = t.0.clone();
        lv[i][r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
        e.push(verify(t, proved, t.2, proved, &lv));
        if cnt > 1 {
            let j = (i + r.gen_range(1..cnt)) % cnt;
            let mut lv = t.0.clone();
            lv.swap(i, j);
            e.push(verify(t, proved, t.2, proved, &lv));
        }
    }
    // other positions
    for _ in 0..4 {
        let k = proved.len().min(cnt);
        let other = pick(r, cnt, k);
        e.push(verify(t, proved, t.2, &other, &t.0));
    }
    if proved.len() > 1 {
        e.push(verify(t, proved, t.2, &proved[1..], &t.0));
        e.push(verify(t, proved, t.2, &proved[..proved.len() - 1], &t.0));
    }
    // all of the above at once: shifted positions with the values moved along
    if cnt > 1 && *proved.last().unwrap() + 1 < cnt {
        let other: Vec<usize> = proved.iter().map(|i| i + 1).collect();
        let mut lv = t.0.clone();
        for &i in proved {
            lv[i + 1] = t.0[i];
        }
        e.push(verify(t, proved, t.2, &other, &lv));
    }
}
fn main() {
    let mut o = Out::new();
    let mut r = rng(18);
    // every proved set against every presented set, small trees
    for cnt in 1..=q(5usize, 7) {
        o.note(format!("all proofs over {} leaves", cnt));
        let vals: Vec<Vec<u8>> = (0..cnt).map(|i| vec![i as u8; 1 + i]).collect();
        let t = catch(|| generate_merkle_tree_from_data(&vals));
        let mut f = vec![("f", s("data")), ("vals", J::A(vals.iter().map(|x| hexj(x)).collect()))];
        f.extend(tree_fields(&t));
        let mut e = vec![J::O(f)];
        if let Some(t) = &t {
            for a in 1..1 << cnt {
                for b in 1..1 << cnt {
                    e.push(verify(t, &subset(a, cnt), t.2, &subset(b, cnt), &t.0));
                }
                attacks(&mut r, &mut e, t, &subset(a, cnt));
            }
        }
        o.session(&format!("all proofs over {} leaves", cnt), e);
    }
    for cnt in [6usize, 7, 8, 9, 11, 16, 17, 31, 32, 33, 63, 65, 100, 127, 128, 200, 256, 257, 2060, 5000] {
        o.note(format!("{} leaves as data", cnt));
        let vals: Vec<Vec<u8>> = (0..cnt).map(|i| { let mut v = rand_bytes(&mut r, [32usize, 1, 33, 64, 100][cnt % 5]); v.extend((i as u32).to_le_bytes()); v }).collect();
        let t = catch(|| generate_merkle_tree_from_data(&vals));
        let mut f = vec![("f", s("data")), ("vals", J::A(vals.iter().map(|x| hexj(x)).collect()))];
        f.extend(tree_fields(&t));
        let mut e = vec![J::O(f)];
        if let Some(t) = &t {
            let big = cnt > 60;
            for k in [1, 2, 3, 10, cnt / 2, cnt] {
                if cnt > 1000 && k > 2 {
                    continue;
                }
                if big && k > 12 && !thorough() {
                    let set = pick(&mut r, cnt, k + 1);
                    attacks_at(&mut r, &mut e, t, &set, 2);
                    continue;
                }
                let set = pick(&mut r, cnt, k);
                attacks(&mut r, &mut e, t, &set);
            }
            for set in [vec![0], vec![cnt - 1], vec![0, cnt - 1], vec![cnt - 2, cnt - 1]] {
                attacks(&mut r, &mut e, t, &set);
            }
        }
        o.session(&format!("{} leaves as data", cnt), e);
    }
    // several trees at the same time, all of the same shape or of different ones
    o.note("several trees at the same time");
    for b in 0..q(8u64, 40) {
        o.together(8, |i| {
            let mut r = rng(1800 + 100 * b + i as u64);
            let cnt = if b % 2 == 0 { 20 + b as usize } else { r.gen_range(2..40) };
            let ll = if b % 4 < 2 { 64 } else { r.gen_range(32..200) };
            let d = rand_bytes(&mut r, cnt * ll);
            let p = format!("{}/m", scratch());
            put(&p, &d).unwrap();
            let mut res = vec![];
            for rep in 0..4 {
                let t = catch(|| generate_merkle_tree_from_file(&p, cnt * ll, ll));
                let mut f = vec![("f", s("file")), ("d", hexj(&d)), ("len", n(cnt * ll)), ("ll", n(ll))];
                f.extend(tree_fields(&t));
                let mut e = vec![J::O(f)];
                let vals: Vec<Vec<u8>> = d.chunks(ll).map(|x| x.to_vec()).collect();
                let same = catch(|| generate_merkle_tree_from_data(&vals));
                let mut f = vec![("f", s("same"))];
                f.extend(tree_fields(&same));
                if let Some(t) = &t {
                    e.push(J::O(f));
                    let set = pick(&mut r, cnt, 1 + rep);
                    attacks(&mut r, &mut e, t, &set);
                }
                res.push((format!("{} leaves of {}", cnt, ll), e));
            }
            res
        });
    }
    // files: leaf and data lengths, one changed byte anywhere
    let shapes: Vec<(usize, usize)> = vec![
        (1, 1), (2, 1), (3, 1), (5, 1), (8, 2), (9, 3), (32, 32), (64, 32), (96, 32), (320, 32), (63 * 4, 63), (63 * 10, 63 * 2), (1024, 64), (1000, 100), (17 * 33, 33), (4096, 512), (3000, 1000),
        (100, 30), (101, 100), (65, 64), (5, 10), (33, 2), (3 * 4096, 4096), (20000, 5000), (70000, 35000), (140000, 70000), (66000, 66), (63 * 64 * 20, 63 * 64),
        // many bytes, many leaves
        (1_300_000, 65_000), (5_000_000, 500_000), (2_200_000, 1_100_000), (9000, 1), (5000 * 3, 3), (70_000, 10),
    ];
    for (len, ll) in shapes {
        for more in [0usize, 1, 2 * ll] {
            let name = format!("a file of {} bytes, {} covered, leaves of {}", len + more, len, ll);
            o.note(&name);
            let p = format!("{}/m", scratch());
            let whole = len % ll == 0;
            let big = len > 1_000_000 || len / ll > 4000;
            if !whole && more > 0 || big && more > 1 {
                continue;
            }
            let d = some_bytes(&mut r, len + more, if more == 1 { 1 } else { 0 });
            put(&p, &d).unwrap();
            let t = catch(|| generate_merkle_tree_from_file(&p, len, ll));
            let mut f = vec![("f", s("file")), ("d", hexj(&d)), ("len", n(len)), ("ll", n(ll))];
            f.extend(tree_fields(&t));
            let mut e = vec![J::O(f)];
            let t = match t { Some(t) => t, None => { o.session(&name, e); continue } };
            if whole {
                let vals: Vec<Vec<u8>> = d[..len].chunks(ll).map(|x| x.to_vec()).collect();
                let same = catch(|| generate_merkle_tree_from_data(&vals));
                let mut f = vec![("f", s("same"))];
                f.extend(tree_fields(&same));
                e.push(J::O(f));
                let k = 1 + t.0.len() / 3;
                let set = pick(&mut r, t.0.len(), k);
                // equal leaves would make other positions indistinguishable
                if more != 1 && ll >= 32 && t.0.len() < 300 {
                    attacks(&mut r, &mut e, &t, &set);
                }
            }
            let mut at: Vec<usize> = vec![0, len - 1, len / 2, (len - 1) / ll * ll];
            for _ in 0..if big { 2 } else { q(12, 100) } {
                at.push(r.gen_range(0..len));
            }
            if len <= 40 { at = (0..len).collect() }
            for i in at {
                let mut d2 = d.clone();
                d2[i] ^= 1 << r.gen_range(0..8);
                put(&p, &d2).unwrap();
                let t2 = catch(|| generate_merkle_tree_from_file(&p, len, ll));
                let mut f = vec![("f", s("differ")), ("at", n(i))];
                f.extend(tree_fields(&t2));
                e.push(J::O(f));
            }
            std::fs::remove_file(&p).unwrap();
            o.session(&name, e);
        }
    }
    o.done();
}
