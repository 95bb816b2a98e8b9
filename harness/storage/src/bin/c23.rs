//! C23: challenge rounds over a sealed file, as enumerated by MC_Round (SCENARIOS), and longer drawn ones.
#[path = "../../../common/seal_util.rs"]
mod seal_util;
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::{common::blake3_hash, merkle_tree::*, postorage::*, prover::*, verifier::*};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use rug::Integer;
use seal_util::*;
use std::fs::read;
use util::*;

fn file(p: &str) -> J {
    s(read(p).map(|x| hex(&x)).unwrap_or_default())
}
struct Act {
    a: String,
    b: usize,
    q: Vec<usize>,
    m: String,
    v: String,
}
/// the scenario file is written by the specification; its form is fixed
fn scenario(line: &str) -> Vec<Act> {
    let get = |o: &str, k: &str| -> String {
        let i = o.find(&format!("\"{}\":", k)).expect("field") + k.len() + 3;
        o[i..].trim_start_matches('"').split(|c| c == '"' || c == ',' || c == '}').next().unwrap().to_string()
    };
    line.split("},")
        .map(|o| {
            let i = o.find("\"q\":[").unwrap() + 5;
            let q = o[i..].split(']').next().unwrap().split(',').filter_map(|x| x.parse().ok()).collect();
            Act { a: get(o, "a"), b: get(o, "b").parse().unwrap(), q, m: get(o, "m"), v: get(o, "v") }
        })
        .collect()
}
struct Side {
    c: Conf,
    p: PosPara,
    org: String,
    sea: String,
    pubd: String,
}
type Tree = rs_merkle::MerkleTree<rs_merkle::algorithms::Sha256>;
struct Held {
    tree: Option<Tree>,    // the prover's
    leaves: Vec<[u8; 32]>, // the prover's
    root: [u8; 32],        // the verifier's
}
impl Side {
    fn seal(&self, commit: bool, h: &mut Held) -> J {
        let p = &self.p;
        let x = catch(|| {
            copy_and_pad(&self.org, &self.sea, p.data_l, p.unit_l);
            let (_, iv) = prepare_params(p.unit_pl);
            let key: Integer = self.c.key();
            // by this process, or by another one, which leaves the sealed blocks only
            let ids = if self.c.data % 3 == 1 {
                assert!(seal_by_another(p, &self.sea, &key, &iv));
                std::fs::read(&self.sea).unwrap().chunks(p.block_pl).map(|b| blake3::hash(b).as_bytes().to_vec()).collect()
            } else {
                seal(p, &self.sea, &key, &iv).0
            };
            save_data(&self.pubd, &key, &iv);
            let (leaves, tree, root) = generate_merkle_tree_from_data(&ids);
            (ids, iv, leaves, tree, root)
        });
        let ok = x.is_some();
        let (mut ids, mut iv, mut root) = (vec![], vec![], [0; 32]);
        if let Some(x) = x {
            ids = x.0;
            iv = x.1;
            root = x.4;
            h.leaves = x.2;
            h.tree = Some(x.3);
            if commit {
                h.root = x.4;
            }
        }
        J::O(vec![
            ("f", s("seal")), ("ok", J::B(ok)), ("commit", J::B(commit)), ("ids", J::A(ids.iter().map(|x| hexj(x)).collect())), ("iv", hexj(&iv)), ("root", hexj(&root)),
            ("sea", file(&self.sea)),
        ])
    }
    fn flip(&self, block: usize, r: &mut StdRng) {
        let mut d = read(&self.sea).unwrap();
        // anywhere in the block, but so that a sealed unit stays below the key
        let at = r.gen_range(0..self.c.nu) * self.c.pl + r.gen_range(0..self.c.pl - 1);
        d[block * self.p.block_pl + at] ^= 1 << r.gen_range(0..8);
        put(&self.sea, d).unwrap();
    }
    /// one round over the positions q
    fn round(&self, q: &[usize], how: usize, m: &str, v: &str, h: &Held, r: &mut StdRng) -> J {
        let p = &self.p;
        let q = q.to_vec();
        let nonce = r.gen::<u8>();
        // the prover: the hash first, then the blocks and the path
        let resp = catch(|| {
            let mut data = vec![nonce];
            let (mut bs, mut ids, mut deps) = (vec![], vec![], vec![]);
            for &i in &q {
                let (b, id, d) = single_unseal_prepare(&self.sea, i, p);
                for u in &b {
                    data.extend(u);
                }
                bs.push(b);
                ids.push(id);
                deps.push(d);
            }
            (blake3_hash(&data), bs, ids, deps)
        });
        let proof = catch(|| generate_merkle_proof(&q, h.tree.as_ref().unwrap()));
        let answered = resp.is_some();
        let (hash, bs, ids, deps) = resp.unwrap_or_default();
        // the verifier: identifiers of the blocks it was sent, under the root it holds
        let member = catch(|| {
            let sent: Vec<Vec<u8>> = bs.iter().map(|b| blake3_hash(&b.concat())).collect();
            let (l, _, _) = generate_merkle_tree_from_data(&sent);
            let mut leaves = h.leaves.clone();
            for (k, &i) in q.iter().enumerate() {
                leaves[i] = l[k];
            }
            verify_merkle_proof(proof.unwrap(), h.root, &q, &leaves)
        })
        .is_some();
        // and whether they are the original
        let verifies = catch(|| {
            let (key, iv) = load_data(&self.pubd);
            let out = match how {
                0 => batch_unseal(p, &q, &mut bs.clone(), &ids, &deps, &key, &iv),
                1 => batch_unseal_parallel(p, &q, &bs, &ids, &deps, &key, &iv, 3),
                _ => return batch_unseal_and_verify(p, &self.org, &q, &bs, &ids, &deps, &key, &iv),
            };
            for (k, &i) in q.iter().enumerate() {
                batch_verify(&self.org, i, &out[k], p.block_l, p.unit_l);
            }
        })
        .is_some();
        J::O(vec![
            ("f", s("round")), ("how", n(how)), ("q", J::A(q.iter().map(|&x| n(x)).collect())), ("ok", J::B(answered)), ("nonce", hexj(&[nonce])), ("hash", hexj(&hash)),
            ("member", J::B(member)), ("verifies", J::B(verifies)), ("m", s(m)), ("v", s(v)), ("sea", file(&self.sea)),
        ])
    }
}
fn side(c: Conf) -> (Side, Vec<J>) {
    let d = dir();
    let p = c.params();
    let mut f = vec![("f", s("begin"))];
    f.extend(c.fields());
    (Side { p, org: format!("{}/o", d), sea: format!("{}/s", d), pubd: format!("{}/p", d), c }, vec![J::O(f)])
}
fn conf(nb: usize, k: usize, base: &[Conf], r: &mut StdRng) -> Conf {
    let mut c = base[r.gen_range(0..base.len())].clone();
    c.nb = nb;
    c.nu = [1, 2, 3, 1][k % 4];
    c.pl = [64, 64, 64, 64, 64, 64, 128, 64, 64, 256][k % 10];
    c.rounds = [1, 1, 2][k % 3];
    c.vr = [1, 2, 1, 3][k % 4];
    c.small_key = false;
    c.data = [0, 0, 1, 2, 3, 4][k % 6];
    c
}
fn life(k: usize, line: &str, base: &[Conf], r: &mut StdRng) -> (String, Vec<J>) {
    let sc = scenario(line);
    let (l, mut e) = side(conf(4, k, base, r));
    let name = format!("{}: {}", l.c.name(), sc.iter().map(|a| format!("{} {}{}", a.a, a.b, if a.a == "round" { format!(" {:?}", a.q) } else { String::new() })).collect::<Vec<_>>().join(", "));
    let one = l.c.bytes(r);
    let mut two = one.clone();
    // another original: different in every block
    for b in 0..4 {
        let at = b * l.p.block_l + r.gen_range(0..l.p.block_l);
        two[at] ^= 1 << r.gen_range(0..8);
    }
    let mut origin = |d: &Vec<u8>, e: &mut Vec<J>| { put(&l.org, d).unwrap(); e.push(J::O(vec![("f", s("origin")), ("org", hexj(d))])) };
    origin(&one, &mut e);
    let mut h = Held { tree: None, leaves: vec![], root: [0; 32] };
    let mut backup = vec![];
    let mut altered = false;
    for a in &sc {
        match a.a.as_str() {
            "new" => origin([&one, &two][a.b - 1], &mut e),
            "seal" => { e.push(l.seal(a.b == 1, &mut h)); altered = false; }
            "alter" => {
                if !altered {
                    backup = read(&l.sea).unwrap();
                    altered = true;
                }
                l.flip(a.b, r)
            }
            "repair" => { put(&l.sea, &backup).unwrap(); altered = false; }
            _ => e.push(l.round(&a.q, a.b, &a.m, &a.v, &h, r)),
        }
    }
    (name, e)
}
fn main() {
    if work() {
        return;
    }
    let mut o = Out::new();
    let mut r = rng(23);
    let text = std::fs::read_to_string(std::env::var("SCENARIOS").expect("SCENARIOS")).unwrap();
    let mut all: Vec<&str> = text.lines().collect();
    all.sort();
    all.shuffle(&mut r);
    all.truncate(q(700, 100000));
    let base = confs(1000);
    let held = || Held { tree: None, leaves: vec![], root: [0; 32] };
    for (k, line) in all.iter().enumerate() {
        o.note(line);
        let (name, e) = life(k, line, &base, &mut r);
        o.session(&name, e);
    }
    o.note("rounds of several files at the same time");
    for b in 0..q(8u64, 60) {
        o.together(6, |i| {
            let mut r = rng(2300 + 100 * b + i as u64);
            let k = b as usize * 3 + if b % 2 == 0 { 0 } else { i };
            (0..3).map(|_| life(k, all[r.gen_range(0..all.len())], &base, &mut r)).collect()
        });
    }
    // longer: many rounds with drawn positions over more blocks, with alterations in between
    for k in 0..q(14, 100) {
        let nb = if k == 3 { 310 } else { [7, 12, 23, 10, 33][k % 5] };
        let mut c = conf(nb, k, &base, &mut r);
        if nb > 100 {
            (c.ml, c.nu, c.pl, c.rounds, c.vr) = (0, 1, 64, 1, 1);
        }
        let (l, mut e) = side(c);
        o.note(format!("drawn rounds: {}", l.c.name()));
        let d = l.c.bytes(&mut r);
        put(&l.org, &d).unwrap();
        e.push(J::O(vec![("f", s("origin")), ("org", hexj(&d))]));
        let mut h = held();
        e.push(l.seal(true, &mut h));
        for i in 0..6 {
            let cnt = [1, 3, nb, nb / 2][(i + k) % 4];
            let q = catch(|| create_challenges(cnt, (0, nb))).unwrap_or_default();
            if i == 2 || i == 4 {
                let b = r.gen_range(0..nb);
                l.flip(b, &mut r);
            }
            if q.iter().all(|&x| x < nb) {
                e.push(l.round(&q, (i + k) % 3, "", "", &h, &mut r));
            }
        }
        o.session(&format!("drawn rounds: {}", l.c.name()), e);
    }
    o.done();
}
