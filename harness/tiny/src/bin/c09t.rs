//! The space-proof circuit over the field of seven elements: honest runs and the system itself.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/r1cs.rs"]
mod r1cs;
#[path = "../../../common/util.rs"]
mod util;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256};
use fld::*;
use proof_of_space::circuit::pospace_circuit::PospaceDemo;
use proof_of_space::mimc::{
    mimc_df::{mimc5_df, MIMC5_DF_ROUNDS},
    mimc_hash::{multi_mimc5_hash, MIMC5_HASH_ROUNDS},
};
use proof_of_space::proof_of_space::pospace::N;
use r1cs::*;
use util::*;

fn low(y: Fr, k: usize) -> Fr {
    let b: BigInteger256 = y.into();
    let b = b.to_bits_le();
    (0..k).rev().fold(fint(0), |a: Fr, i| a + a + fint::<Fr>(b[i] as usize))
}
fn main() {
    let mut o = Out::new();
    let mut circ = Circs::new();
    let mut r = rng(19);
    for len in 1..=q(2, 3) {
        for ck in 0..q(1, 3) {
            let name = format!("space circuit, {} responses, N={}, over F7, constants {}", len, N, ck);
            o.note(&name);
            let c: Vec<Fr> = consts(&mut r, MIMC5_DF_ROUNDS, ck);
            let hc: Vec<Fr> = consts(&mut r, MIMC5_HASH_ROUNDS, ck);
            let mut runs = vec![];
            for i in 0..q(60, 343) {
                let key: Fr = fint(i % 7);
                let m: Fr = fint(i / 7 % 7);
                let xs: Vec<Fr> = (0..len).map(|j| fint((i / 49 + 3 * j * i) % 7)).collect();
                let y: Vec<Fr> = xs.iter().map(|x| mimc5_df(key + x, m, &c)).collect();
                let yn: Vec<Option<Fr>> = y.iter().map(|y| Some(low(*y, N))).collect();
                let h = multi_mimc5_hash(&xs, key, &hc);
                let ox: Vec<Option<Fr>> = xs.iter().map(|x| Some(*x)).collect();
                let s = synth(
                    PospaceDemo { key: Some(key), x: &ox, m: Some(m), df_constants: &c, yn: &yn, x_hash: Some(h), hash_constants: &hc },
                    false,
                );
                runs.push((xs, s));
            }
            let none = vec![None; len];
            let setup = synth(PospaceDemo { key: None, x: &none, m: None, df_constants: &c, yn: &none, x_hash: None, hash_constants: &hc }, true);
            // public key and m: fixed to a few values to bound the exploration
            let start = J::A(vec![
                J::A(vec![n(1), if len == 1 { ns(&[0, 3]) } else { ns(&[3]) }]),
                J::A(vec![n(2), if len == 1 { ns(&[1, 5]) } else { ns(&[5]) }]),
            ]);
            Study {
                name,
                kind: "space",
                common: vec![("c", fhs(&c)), ("h", fhs(&hc)), ("n", n(N)), ("alias", n(0))],
                setup: vec![setup],
                runs,
                nsec: 0,
                group: 0,
                keep: len,
                dump: Some(("space_all", vec![("c", fi(&c)), ("h", fi(&hc)), ("r", n(len)), ("d", n(N)), ("start", start)])),
                deviate: false,
                claims: vec![],
            }
            .record(&mut o, &mut circ, &mut r);
        }
    }
    o.done();
}
