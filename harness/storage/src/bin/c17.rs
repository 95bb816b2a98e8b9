//! C17: audits of intact and altered sealed files, and the block comparison itself.
#[path = "../../../common/seal_util.rs"]
mod seal_util;
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::{postorage::PosPara, prover::*, verifier::*};
use rand::{rngs::StdRng, Rng};
use rug::Integer;
use seal_util::*;
use util::*;

struct W<'a> {
    c: &'a Conf,
    p: PosPara,
    key: Integer,
    org: String,
    sealed: String,
}
impl<'a> W<'a> {
    /// fetch, unseal and verify the given blocks in one of the available ways
    fn audit(&self, how: usize, at: &[usize], iv: &Vec<u8>) -> J {
        let p = &self.p;
        let verify_all = |at: &[usize], u: &Vec<Vec<Vec<u8>>>| {
            for (k, &i) in at.iter().enumerate() {
                batch_verify(&self.org, i, &u[k], p.block_l, p.unit_l);
            }
        };
        let accept = catch(|| {
            let (ids, mut b, i, d) = if how % 2 == 0 {
                let (mut b, mut i, mut d) = (vec![], vec![], vec![]);
                for &x in at {
                    let t = single_unseal_prepare(&self.sealed, x, p);
                    b.push(t.0);
                    i.push(t.1);
                    d.push(t.2);
                }
                (at.to_vec(), b, i, d)
            } else {
                batch_unseal_prepare(&self.sealed, at[0] * p.block_pl, (at[at.len() - 1] + 1) * p.block_pl, p)
            };
            match how / 2 {
                0 => { let u = batch_unseal(p, &ids, &mut b, &i, &d, &self.key, iv); verify_all(&ids, &u) }
                1 => { let u = batch_unseal_parallel(p, &ids, &b, &i, &d, &self.key, iv, [3, 1, 9, 2, 16, 5, 33][(at[0] + at.len()) % 7]); verify_all(&ids, &u) }
                _ => batch_unseal_and_verify(p, &self.org, &ids, &b, &i, &d, &self.key, iv),
            }
        })
        .is_some();
        J::O(vec![("f", s("audit")), ("how", n(how)), ("at", ns(at)), ("iv", hexj(iv)), ("accept", J::B(accept))])
    }
    fn change(&self, name: &str, block: usize, unit: usize, v: &[u8]) -> J {
        use std::io::{Seek, SeekFrom, Write};
        let mut f = std::fs::OpenOptions::new().write(true).open(&self.sealed).unwrap();
        f.seek(SeekFrom::Start((block * self.p.block_pl + unit * self.p.unit_pl) as u64)).unwrap();
        let before = f.metadata().unwrap().modified().unwrap();
        f.write_all(v).unwrap();
        f.set_modified(before).unwrap();
        J::O(vec![("f", s(name)), ("block", n(block)), ("unit", n(unit)), ("v", hexj(v))])
    }
}
fn one(k: usize, c: &Conf, r: &mut StdRng) -> Sessions {
    let d = dir();
    let w = W { c, p: c.params(), key: c.key(), org: format!("{}/origin", d), sealed: format!("{}/sealed", d) };
    let data = c.bytes(r);
    let v = iv(r, k);
    put(&w.org, &data).unwrap();
    let mut padded = vec![];
    for u in data.chunks(c.pl - 1) {
        padded.extend_from_slice(u);
        padded.push(0);
    }
    put(&w.sealed, &padded).unwrap();
    let ob: Vec<&[u8]> = data.chunks((c.pl - 1) * c.nu).collect();
    let mut f = vec![("f", s("begin")), ("orig", J::A(ob.iter().map(|b| hexj(b)).collect()))];
    f.extend(c.fields());
    let mut e = vec![J::O(f)];
    // by this process, or by another one
    let ok = if k % 2 == 0 { seal_by_another(&w.p, &w.sealed, &w.key, &v) } else { catch(|| seal(&w.p, &w.sealed, &w.key, &v)).is_some() };
    let sealed = units(&std::fs::read(&w.sealed).unwrap(), c);
    e.push(J::O(vec![("f", s("sealed")), ("ok", J::B(ok)), ("blocks", J::A(sealed.iter().map(|b| uj(b)).collect()))]));
    let light = c.nb * c.nu * c.rounds.max(1) * c.pl / 64 <= 60;
    // intact
    let last = c.nb - 1;
    for how in 0..6 {
        for at in [vec![0], vec![last], (0..c.nb.min(3)).collect()] {
            e.push(w.audit(how, &at, &v));
        }
    }
    // many blocks in one request
    let all: Vec<usize> = (0..c.nb).collect();
    let cost = |m: usize| m * c.nu * c.rounds.max(1) * c.vr * c.pl / 64;
    if c.nb > 3 && cost(c.nb) < 900 {
        for how in 0..6 {
            e.push(w.audit(how, &all, &v));
        }
        for t in 0..q(6, 24) {
            let b = if t == 0 { last } else { r.gen_range(0..c.nb) };
            let u = if t % 2 == 0 { c.nu - 1 } else { r.gen_range(0..c.nu) };
            let mut nv = sealed[b][u].clone();
            nv[r.gen_range(0..c.pl - 1)] ^= 1 << r.gen_range(0..8);
            e.push(w.change("tamper", b, u, &nv));
            e.push(w.audit(if t % 2 == 0 { 4 + t / 2 % 2 } else { (t + k) % 6 }, &all, &v));
            e.push(w.change("restore", b, u, &sealed[b][u]));
        }
    }
    // another vector
    let mut v2 = v.clone();
    match v2.len() {
        0 => v2.push(0),
        l => v2[r.gen_range(0..l)] ^= 1,
    }
    e.push(w.audit(k % 6, &[0], &v2));
    e.push(w.audit((k + 1) % 6, &[last], &v2));
    // one altered unit: in the audited block, the one before, or any other
    for t in 0..q(if light { 14 } else { 5 }, if light { 60 } else { 20 }) {
        let at = r.gen_range(0..c.nb);
        let b = match t % 4 { 0 | 1 => at, 2 => at.saturating_sub(1), _ => r.gen_range(0..c.nb) };
        let u = if t % 5 == 0 { c.nu - 1 } else { r.gen_range(0..c.nu) };
        let mut nv = sealed[b][u].clone();
        match t % 6 {
            0 => nv[0] ^= 1,
            1 => nv[c.pl - 2] ^= 0x80,
            2 => { let y = r.gen_range(0..c.pl); nv[y] ^= 1 << r.gen_range(0..8) }
            3 => nv = sealed[r.gen_range(0..c.nb)][r.gen_range(0..c.nu)].clone(),
            4 => nv = vec![0; c.pl],
            _ => { let y = r.gen_range(0..c.pl - 1); nv[y] = nv[y].wrapping_add(1) }
        }
        e.push(w.change("tamper", b, u, &nv));
        e.push(w.audit((t + k) % 6, &[at], &v));
        if t % 3 == 0 {
            let hi = (at + 2).min(last);
            let range: Vec<usize> = (at..=hi).collect();
            e.push(w.audit((t + k + 1) % 6, &range, &v));
        }
        if t % 2 == 0 {
            e.push(w.audit((t + k + 3) % 6, &[last], &v));
        }
        e.push(w.change("restore", b, u, &sealed[b][u]));
    }
    e.push(w.audit(k % 6, &[last], &v));
    // the verifier holds another original: one byte differs
    let mut cur = data.clone();
    for t in 0..q(6, 30) {
        let at = if t == 0 { data.len() - 1 } else if t == 1 { 0 } else { r.gen_range(0..data.len()) };
        let bl = (c.pl - 1) * c.nu;
        let blk = at / bl;
        cur[at] ^= 1 << r.gen_range(0..8);
        put(&w.org, &cur).unwrap();
        e.push(J::O(vec![("f", s("origin")), ("block", n(blk)), ("v", hexj(&cur[blk * bl..(blk + 1) * bl]))]));
        e.push(w.audit((t + k) % 6, &[blk], &v));
        let other = r.gen_range(0..c.nb);
        e.push(w.audit((t + k + 2) % 6, &[other], &v));
        cur[at] = data[at];
        put(&w.org, &cur).unwrap();
        e.push(J::O(vec![("f", s("origin")), ("block", n(blk)), ("v", hexj(&cur[blk * bl..(blk + 1) * bl]))]));
    }
    vec![(c.name(), e)]
}
fn main() {
    if work() {
        return;
    }
    let mut o = Out::new();
    let mut r = rng(17);
    let all: Vec<Conf> = confs(q(1100, 5000)).into_iter().filter(|c| c.nu < q(600, 5000)).collect();
    for (k, c) in all.iter().enumerate() {
        o.note(c.name());
        o.sessions(one(k, c, &mut r));
    }
    o.note("audits of several files at the same time");
    let light: Vec<&Conf> = all.iter().filter(|c| c.nb * c.nu <= 30 && c.rounds * c.vr <= 4).collect();
    for b in 0..q(2, 12) {
        o.together(6, |i| {
            let mut r = rng(1700 + 100 * b + i as u64);
            let k = r.gen_range(0..light.len());
            let k = if b % 2 == 0 { b as usize * 7 % light.len() } else { k };
            one(k, light[k], &mut r)
        });
    }
    // many short comparisons at the same time, each with an original of its own
    for b in 0..q(2u64, 10) {
        o.together(8, |i| {
            let mut r = rng(1790 + 100 * b + i as u64);
            let c = Conf { nb: 4, nu: 2, pl: 64, ml: 1, cl: 1, ms: 1, cs: 1, rounds: 1, vr: 1, small_key: false, data: 0 };
            let p = c.params();
            let org = format!("{}/origin", dir());
            let data = rand_bytes(&mut r, p.data_l);
            put(&org, &data).unwrap();
            let mut f = vec![("f", s("begin")), ("orig", J::A(vec![]))];
            f.extend(c.fields());
            let mut e = vec![J::O(f)];
            for j in 0..200 {
                let idx = r.gen_range(0..c.nb);
                let ob = data[idx * p.block_l..(idx + 1) * p.block_l].to_vec();
                let mut u: Vec<Vec<u8>> = ob.chunks(p.unit_l).map(|u| { let mut v = u.to_vec(); v.push(0); v }).collect();
                if j % 4 == 3 {
                    u[r.gen_range(0..c.nu)][r.gen_range(0..p.unit_l)] ^= 1;
                }
                let accept = catch(|| batch_verify(&org, idx, &u, p.block_l, p.unit_l)).is_some();
                e.push(J::O(vec![("f", s("check")), ("orig", hexj(&ob)), ("units", uj(&u)), ("accept", J::B(accept))]));
            }
            vec![("many comparisons".to_string(), e)]
        });
    }
    // an audit of one long block, whose original differs here or there
    {
        let c = Conf { nb: 1, nu: 1030, pl: 64, ml: 1, cl: 1, ms: 1, cs: 1, rounds: 1, vr: 1, small_key: false, data: 0 };
        o.note(c.name());
        let d = dir();
        let w = W { c: &c, p: c.params(), key: c.key(), org: format!("{}/origin", d), sealed: format!("{}/sealed", d) };
        let mut data = c.bytes(&mut r);
        let v = iv(&mut r, 0);
        put(&w.org, &data).unwrap();
        let mut f = vec![("f", s("begin")), ("orig", J::A(vec![hexj(&data)]))];
        f.extend(c.fields());
        let mut e = vec![J::O(f)];
        put(&w.sealed, data.chunks(63).flat_map(|u| { let mut v = u.to_vec(); v.push(0); v }).collect::<Vec<u8>>()).unwrap();
        let ok = catch(|| seal(&w.p, &w.sealed, &w.key, &v)).is_some();
        let sealed = units(&std::fs::read(&w.sealed).unwrap(), &c);
        e.push(J::O(vec![("f", s("sealed")), ("ok", J::B(ok)), ("blocks", J::A(sealed.iter().map(|b| uj(b)).collect()))]));
        e.push(w.audit(4, &[0], &v));
        for (j, at) in [data.len() - 1, 600 * 63, 515 * 63 + 5, 300 * 63 + 62].into_iter().enumerate() {
            data[at] ^= 1;
            put(&w.org, &data).unwrap();
            e.push(J::O(vec![("f", s("origin")), ("block", n(0)), ("v", hexj(&data))]));
            e.push(w.audit(4 + j % 2, &[0], &v));
            data[at] ^= 1;
        }
        o.session(&c.name(), e);
    }
    // long blocks, and blocks far into a large original
    o.note("long blocks");
    for (nu, idx) in [(4096usize, 1usize), (1024, 70_000), (1500, 2), (3, 23_000_000)] {
        use std::os::unix::fs::FileExt;
        let c = Conf { nb: 1, nu, pl: 64, ml: 1, cl: 1, ms: 1, cs: 1, rounds: 1, vr: 1, small_key: false, data: 0 };
        let p = c.params();
        let org = format!("{}/origin", dir());
        let f = std::fs::File::create(&org).unwrap();
        f.set_len(((idx + 2) * p.block_l) as u64).unwrap();
        let ob = rand_bytes(&mut r, p.block_l);
        f.write_all_at(&ob, (idx * p.block_l) as u64).unwrap();
        let mut b = vec![("f", s("begin")), ("orig", J::A(vec![]))];
        b.extend(c.fields());
        let mut e = vec![J::O(b)];
        let good: Vec<Vec<u8>> = ob.chunks(p.unit_l).map(|u| { let mut v = u.to_vec(); v.push(0); v }).collect();
        let mut at: Vec<usize> = vec![nu - 1, 0, nu / 2, 63, 64, 255, 256, 257, 511, 512, 513, 1023, 1024, 2047, 2048, 4095];
        at.extend((0..q(6, 40)).map(|_| r.gen_range(0..nu)));
        at.retain(|&x| x < nu);
        for (j, &x) in at.iter().enumerate() {
            for bad in [true, false] {
                if !bad && j > 1 {
                    continue;
                }
                let mut u = good.clone();
                if bad {
                    u[x][r.gen_range(0..p.unit_l)] ^= 1 << r.gen_range(0..8);
                }
                let accept = catch(|| batch_verify(&org, idx, &u, p.block_l, p.unit_l)).is_some();
                e.push(J::O(vec![("f", s("check")), ("orig", hexj(&ob)), ("units", uj(&u)), ("accept", J::B(accept))]));
            }
        }
        o.session(&format!("block {} of {} units", idx, nu), e);
    }
    // the comparison itself: every single byte of a block
    for (nb, nu, pl) in [(1usize, 1usize, 64usize), (3, 3, 64), (2, 2, 128), (2, 1, 256), (1, 4, 64), (5, 2, 64)] {
        let c = Conf { nb, nu, pl, ml: 1, cl: 1, ms: 1, cs: 1, rounds: 1, vr: 1, small_key: false, data: 0 };
        o.note(format!("every byte of {} blocks of {} units of {}", nb, nu, pl));
        compare(&mut o, &mut r, &c);
    }
    o.done();
}
fn compare(o: &mut Out, r: &mut StdRng, c: &Conf) {
    let d = dir();
    let org = format!("{}/origin", d);
    let p = c.params();
    let mut f = vec![("f", s("begin")), ("orig", J::A(vec![]))];
    f.extend(c.fields());
    let mut e = vec![J::O(f)];
    for kind in 0..2 {
        let data = if kind == 0 { rand_bytes(r, p.data_l) } else { vec![0; p.data_l] };
        put(&org, &data).unwrap();
        let idx = c.nb - 1 - kind.min(c.nb - 1);
        let ob = data[idx * p.block_l..(idx + 1) * p.block_l].to_vec();
        let good: Vec<Vec<u8>> = ob.chunks(p.unit_l).map(|u| { let mut v = u.to_vec(); v.push(0); v }).collect();
        let mut check = |b: &Vec<Vec<u8>>| {
            let accept = catch(|| batch_verify(&org, idx, b, p.block_l, p.unit_l)).is_some();
            J::O(vec![("f", s("check")), ("orig", hexj(&ob)), ("units", uj(b)), ("accept", J::B(accept))])
        };
        e.push(check(&good));
        for u in 0..c.nu {
            for i in 0..c.pl {
                let mut b = good.clone();
                b[u][i] ^= 1 << r.gen_range(0..8);
                e.push(check(&b));
            }
        }
        for _ in 0..20 {
            // two bytes changed by opposite amounts, units exchanged, everything wrong
            let mut b = good.clone();
            let (u, i, w, j) = (r.gen_range(0..c.nu), r.gen_range(0..c.pl), r.gen_range(0..c.nu), r.gen_range(0..c.pl));
            let x = r.gen_range(1..=255u8);
            b[u][i] = b[u][i].wrapping_add(x);
            b[w][j] = b[w][j].wrapping_sub(x);
            e.push(check(&b));
            let mut b = good.clone();
            b.swap(u, w);
            e.push(check(&b));
        }
        e.push(check(&good.iter().map(|u| u.iter().map(|x| !x).collect()).collect()));
    }
    o.session(&format!("every byte of {} blocks of {} units of {}", c.nb, c.nu, c.pl), e);
}
