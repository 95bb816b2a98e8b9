//! C05: delay functions and hashes over the scalar field, the base field and tiny fields.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/tinyfp.rs"]
#[allow(dead_code)]
mod tinyfp;
#[path = "../../../common/util.rs"]
mod util;
use ark_ff::PrimeField;
use fld::*;
use proof_of_space::mimc::{mimc_df::*, mimc_hash::*};
use util::*;

fn fs<F: PrimeField>(v: &[F]) -> J {
    J::A(v.iter().map(|x| s(fh(*x))).collect())
}
fn ev<F: PrimeField>(f: &str, a: F, b: F, xs: &[F], c: &[F], r: Option<F>) -> J {
    J::O(vec![
        ("f", s(f)),
        ("p", s(modulus::<F>())),
        ("a", s(fh(a))),
        ("b", s(fh(b))),
        ("xs", fs(xs)),
        ("c", fs(c)),
        ("ok", J::B(r.is_some())),
        ("r", s(r.map(fh).unwrap_or_default())),
    ])
}
fn all<F: PrimeField>(o: &mut Out, name: &str, pairs: &[(F, F)], cc: &dyn Fn(usize, usize) -> Vec<F>, kinds: usize, df3: usize) {
    for k in 0..kinds {
        let (c3, c5, h5, h7) = (cc(MIMC3_DF_ROUNDS, k), cc(MIMC5_DF_ROUNDS, k), cc(MIMC5_HASH_ROUNDS, k), cc(MIMC7_HASH_ROUNDS, k));
        for (i, chunk) in pairs.chunks(16).enumerate() {
            let mut e = vec![];
            for (j, &(a, b)) in chunk.iter().enumerate() {
                if (i * 16 + j) % df3 == 0 {
                    e.push(ev("df3", a, b, &[], &c3, catch(|| mimc3_df(a, b, &c3))));
                    e.push(ev("h7", a, b, &[], &h7, catch(|| mimc7_hash(a, b, &h7))));
                }
                e.push(ev("df5", a, b, &[], &c5, catch(|| mimc5_df(a, b, &c5))));
                e.push(ev("h5", a, b, &[], &h5, catch(|| mimc5_hash(a, b, &h5))));
            }
            o.session(name, e);
        }
        // chaining of any number of inputs
        let mut e = vec![];
        for len in (0..=5usize).chain([6 + k, 10 + k, 17, 50, 66]) {
            let xs: Vec<F> = (0..len).map(|i| pairs[(i * 7 + k + len) % pairs.len()].0).collect();
            let key = pairs[(k + len) % pairs.len()].1;
            e.push(ev("m5", F::zero(), key, &xs, &h5, catch(|| multi_mimc5_hash(&xs, key, &h5))));
            e.push(ev("m7", F::zero(), key, &xs, &h7, catch(|| multi_mimc7_hash(&xs, key, &h7))));
        }
        o.session("chained", e);
    }
}
fn tiny<F: PrimeField>(o: &mut Out, p: u64) {
    let mut pairs: Vec<(F, F)> = vec![];
    for a in 0..p {
        for b in 0..p {
            pairs.push((fint(a as usize), fint(b as usize)));
        }
    }
    all(o, &format!("F{} exhaustive", p), &pairs, &|l, k| consts(&mut rng(50 + k as u64), l, k), q(2, 4), q(3, 1));
}
fn big<F: PrimeField>(o: &mut Out, name: &str, count: usize) {
    let mut r = rng(5);
    let mut pairs: Vec<(F, F)> = vec![];
    for i in 0..6 {
        for j in 0..6 {
            pairs.push((special(&mut r, i), special(&mut r, j)));
        }
    }
    for _ in 0..count {
        pairs.push((frand(&mut r), frand(&mut r)));
    }
    all(o, name, &pairs, &|l, k| consts(&mut rng(60 + k as u64), l, k), 4, q(4, 1));
}
fn main() {
    let mut o = Out::new();
    o.note("evaluating the MiMC functions");
    big::<ark_bls12_381::Fr>(&mut o, "Fr", q(40, 1000));
    big::<ark_bls12_381::Fq>(&mut o, "Fq", q(4, 200));
    tiny::<tinyfp::F5>(&mut o, 5);
    tiny::<tinyfp::F7>(&mut o, 7);
    tiny::<tinyfp::F13>(&mut o, 13);
    if thorough() {
        tiny::<tinyfp::F11>(&mut o, 11);
        tiny::<tinyfp::F17>(&mut o, 17);
    }
    o.done();
}
