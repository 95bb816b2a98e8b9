//! C16: every way of fetching and unsealing blocks gives the original blocks.
//! Built twice: with the real thread pool, and with one whose schedule is set by VSCHED.
#[path = "../../../common/seal_util.rs"]
mod seal_util;
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::{prover::*, verifier::*};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use seal_util::*;
use util::*;

type Blocks = Vec<Vec<Vec<u8>>>;
fn got(how: String, at: &[usize], x: Option<Blocks>) -> J {
    let ok = x.is_some();
    J::O(vec![("f", s("got")), ("how", s(how)), ("at", ns(at)), ("ok", J::B(ok)), ("units", J::A(x.unwrap_or_default().iter().map(|b| uj(b)).collect()))])
}
fn mark(p: &str) -> J {
    hexj(blake3::hash(&std::fs::read(p).unwrap()).as_bytes())
}
fn one(o: Option<&Out>, k: usize, c: &Conf, r: &mut StdRng) -> Sessions {
    let scheduled = std::env::var("SCHEDULED").is_ok();
    let pools = [1usize, 2, 3, 5, 8, 16];
    let set = |x: usize| {
        if o.is_some() {
            std::env::set_var("VSCHED", x.to_string());
        }
    };
    let d = dir();
    let sealed = format!("{}/sealed", d);
    let data = c.bytes(r);
    let p = c.params();
    let key = c.key();
    let v = iv(r, k);
    let mut padded = vec![];
    for u in data.chunks(c.pl - 1) {
        padded.extend_from_slice(u);
        padded.push(0);
    }
    std::fs::write(&sealed, &padded).unwrap();
    let orig = units(&padded, c);
    let mut e = vec![J::O(vec![("f", s("begin")), ("blocks", J::A(orig.iter().map(|b| uj(b)).collect()))])];
    // by this process, or by another one
    let ok = if k % 2 == 0 { seal_by_another(&p, &sealed, &key, &v) } else { catch(|| seal(&p, &sealed, &key, &v)).is_some() };
    e.push(J::O(vec![("f", s("sealed")), ("ok", J::B(ok)), ("mark", mark(&sealed))]));
    let mut sets: Vec<Vec<usize>> = vec![(0..c.nb.min(12)).collect(), vec![c.nb - 1], vec![0], vec![]];
    for _ in 0..q(2, 4) {
        let mut all: Vec<usize> = (0..c.nb).collect();
        all.shuffle(r);
        all.truncate(r.gen_range(1..=c.nb.min(10)));
        if r.gen_bool(0.5) {
            all.sort();
        }
        sets.push(all);
    }
    // the same position more than once
    let x = r.gen_range(0..c.nb);
    sets.push(vec![c.nb - 1, x, x, 0, c.nb - 1]);
    if c.nb > 30 && p.seal_rounds * p.vde_rounds <= 2 {
        sets.push((0..c.nb).collect());
        let mut all: Vec<usize> = (0..c.nb).collect();
        all.shuffle(r);
        sets.push(all);
    }
    for at in &sets {
        let prep = catch(|| at.iter().map(|&i| single_unseal_prepare(&sealed, i, &p)).collect::<Vec<_>>());
        let prep = match prep { Some(x) => x, None => { e.push(got("single".into(), at, None)); continue } };
        let (mut b, mut i, mut dp) = (vec![], vec![], vec![]);
        for x in prep {
            b.push(x.0);
            i.push(x.1);
            dp.push(x.2);
        }
        if !scheduled {
            e.push(got("single, sequential".into(), at, catch(|| batch_unseal(&p, at, &mut b.clone(), &i, &dp, &key, &v))));
        }
        for rep in 0..if scheduled { 3 } else { 1 } {
            let w = pools[r.gen_range(0..pools.len())];
            let sched = r.gen_range(0..1000) + if rep < 2 { 0 } else { 2 };
            let sched = if scheduled && rep < 2 { rep } else { sched };
            set(sched);
            if let Some(o) = &o {
                o.note(format!("{}; {:?} on {} workers, schedule {}", c.name(), at, w, sched));
            }
            e.push(got(format!("single, {} workers, schedule {}", w, sched), at, catch(|| batch_unseal_parallel(&p, at, &b, &i, &dp, &key, &v, w))));
        }
    }
    for j in 0..3 {
        let a = r.gen_range(0..c.nb);
        let z = (a + r.gen_range(0..[8, 8, 100][j])).min(c.nb);
        let prep = catch(|| batch_unseal_prepare(&sealed, a * p.block_pl, z * p.block_pl, &p));
        let ok = prep.is_some();
        let (at, b, i, dp) = prep.unwrap_or_default();
        e.push(J::O(vec![("f", s("range")), ("from", n(a)), ("to", n(z)), ("ok", J::B(ok)), ("at", ns(&at))]));
        if at.iter().any(|&x| x >= c.nb) {
            continue;
        }
        if !scheduled {
            e.push(got("range, sequential".into(), &at, catch(|| batch_unseal(&p, &at, &mut b.clone(), &i, &dp, &key, &v))));
        }
        let w = pools[r.gen_range(0..pools.len())];
        set(r.gen_range(0..1000));
        e.push(got(format!("range, {} workers", w), &at, catch(|| batch_unseal_parallel(&p, &at, &b, &i, &dp, &key, &v, w))));
    }
    e.push(J::O(vec![("f", s("file")), ("mark", mark(&sealed))]));
    vec![(c.name(), e)]
}
fn main() {
    if work() {
        return;
    }
    let mut o = Out::new();
    let mut r = rng(16);
    let all = confs(5000);
    for (k, c) in all.iter().enumerate() {
        o.note(c.name());
        let res = one(Some(&o), k, c, &mut r);
        o.sessions(res);
    }
    o.note("several requests at the same time");
    let light: Vec<&Conf> = all.iter().filter(|c| c.nb * c.nu <= 60 && c.rounds * c.vr <= 9).collect();
    for b in 0..q(4, 20) {
        o.together(6, |i| {
            let mut r = rng(1600 + 100 * b + i as u64);
            let k = r.gen_range(0..light.len());
            let k = if b % 2 == 0 { b as usize * 7 % light.len() } else { k };
            one(None, k, light[k], &mut r)
        });
    }
    o.done();
}
