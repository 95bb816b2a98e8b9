//! C08: the truncation and exponentiation circuits.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/r1cs.rs"]
mod r1cs;
#[path = "../../../common/tinyfp.rs"]
mod tinyfp;
#[path = "../../../common/util.rs"]
mod util;
use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use fld::*;
use r1cs::*;
use rand::rngs::StdRng;
use rand::Rng;
use tinyfp::*;
use util::*;
use proof_of_space::circuit::{equal_circuit, equal_circuit::EqualDemo, pow_circuit, pow_circuit::PowDemo};

fn weigh<F: PrimeField>(b: &[u8]) -> F {
    b.iter().rev().fold(F::zero(), |a, x| a + a + fint::<F>(*x as usize))
}
fn some(b: &[u8]) -> Vec<Option<u8>> {
    b.iter().map(|x| Some(*x)).collect()
}
fn bits(r: &mut StdRng, len: usize, k: usize) -> Vec<u8> {
    (0..len)
        .map(|i| match k {
            0 => 0,
            1 => 1,
            2 => (i == 0) as u8,
            3 => (i + 1 == len) as u8,
            4 => (i % 2) as u8,
            5 => (i < len / 2) as u8,
            _ => r.gen_range(0..2),
        })
        .collect()
}
fn equal<F: PrimeField>(o: &mut Out, circ: &mut Circs, r: &mut StdRng, fname: &str, ds: &[usize], dump: bool, deviate: bool) {
    let len = equal_circuit::INPUT_SIZE;
    for &d in ds {
        let name = format!("truncation to {} over {}", d, fname);
        o.note(&name);
        let mk = |b: &[u8], x1: F, x2: F| synth(EqualDemo { x1: Some(x1), x2: Some(x2), x_bits: &some(b), difficulty: d }, false);
        let sec = |b: &[u8]| b.iter().map(|x| fint::<F>(*x as usize)).collect::<Vec<F>>();
        let mut runs = vec![];
        let mut claims = vec![];
        for i in 0..q(26, 40) {
            let b = bits(r, len, i);
            let (x1, x2): (F, F) = (weigh(&b[..d]), weigh(&b));
            runs.push((sec(&b), mk(&b, x1, x2)));
            let z: F = frand(r);
            for (a1, a2) in [(x1 + F::one(), x2), (x1, x2 + F::one()), (x2, x1), (z, x2), (x1, z), (F::zero(), F::zero())] {
                claims.push((sec(&b), mk(&b, a1, a2)));
            }
        }
        let none = vec![None; len];
        Study {
            name,
            kind: "equal",
            common: vec![("d", n(d))],
            setup: vec![synth(EqualDemo::<F> { x1: None, x2: None, x_bits: &none, difficulty: d }, true)],
            runs,
            nsec: 0,
            group: len,
            keep: len,
            dump: if dump { Some(("equal", vec![("d", n(d))])) } else { None },
            deviate,
            claims,
        }
        .record(o, circ, r);
    }
}
fn pow<F: PrimeField>(o: &mut Out, circ: &mut Circs, r: &mut StdRng, fname: &str, order: usize, dump: bool, deviate: bool) {
    let len = pow_circuit::INPUT_SIZE;
    let name = format!("exponentiation over {}", fname);
    o.note(&name);
    let runs = (0..q(40, 80))
        .map(|i| {
            let b = bits(r, len, i % 9);
            let g: F = special(r, i / 7);
            let mut sec = vec![g];
            sec.extend(b.iter().map(|x| fint::<F>(*x as usize)));
            (sec, synth(PowDemo { g: Some(g), x_bits: &some(&b) }, false))
        })
        .collect();
    let none = vec![None; len];
    Study {
        name,
        kind: "pow",
        common: vec![],
        setup: vec![synth(PowDemo::<F> { g: None, x_bits: &none }, true)],
        runs,
        nsec: 1,
        group: len,
        keep: len + 1,
        dump: if dump { Some(("pow", vec![("bitmod", n(order)), ("d", n(0))])) } else { None },
        deviate,
        claims: vec![],
    }
    .record(o, circ, r);
}
fn main() {
    let mut o = Out::new();
    let mut circ = Circs::new();
    let mut r = rng(8);
    equal::<F7>(&mut o, &mut circ, &mut r, "F7", &[1, 20, 255, 256], true, false);
    equal::<F11>(&mut o, &mut circ, &mut r, "F11", &[8], thorough(), false);
    equal::<Fr>(&mut o, &mut circ, &mut r, "Fr", q(&[1, 8, 254, 256], &[1, 2, 7, 8, 9, 20, 128, 254, 255, 256]), false, true);
    pow::<F7>(&mut o, &mut circ, &mut r, "F7", 6, true, false);
    pow::<F11>(&mut o, &mut circ, &mut r, "F11", 10, true, false);
    pow::<F17>(&mut o, &mut circ, &mut r, "F17", 16, thorough(), false);
    pow::<Fr>(&mut o, &mut circ, &mut r, "Fr", 0, false, true);
    o.done();
}
