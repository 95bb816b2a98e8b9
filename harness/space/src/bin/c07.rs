//! C07: the chained-hash circuits.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/r1cs.rs"]
mod r1cs;
#[path = "../../../common/tinyfp.rs"]
mod tinyfp;
#[path = "../../../common/util.rs"]
mod util;
use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use fld::*;
use r1cs::*;
use rand::rngs::StdRng;
use tinyfp::*;
use util::*;
use proof_of_space::circuit::{mimc5_hash_circuit::MiMC5HashDemo, mimc7_hash_circuit::MiMC7HashDemo};
use proof_of_space::mimc::mimc_hash::{MIMC5_HASH_ROUNDS, MIMC7_HASH_ROUNDS};

fn mk<F: PrimeField>(kind: &str, xs: &[Option<F>], key: Option<F>, c: &[F], setup: bool) -> Option<Sys<F>> {
    if kind == "h5" {
        synth(MiMC5HashDemo::verif_new(xs, key, c), setup)
    } else {
        synth(MiMC7HashDemo::verif_new(xs, key, c), setup)
    }
}
fn field<F: PrimeField>(
    o: &mut Out,
    circ: &mut Circs,
    r: &mut StdRng,
    kind: &'static str,
    fname: &str,
    lens: &[usize],
    ckinds: &[usize],
    dump: bool,
    deviate: bool,
) {
    let rounds = if kind == "h5" { MIMC5_HASH_ROUNDS } else { MIMC7_HASH_ROUNDS };
    for &ck in ckinds {
        for &len in lens {
            let name = format!("{} of {} over {} constants {}", kind, len, fname, ck);
            o.note(&name);
            let c: Vec<F> = consts(r, rounds, ck);
            let runs: Vec<_> = (0..q(25, 40))
                .map(|i| {
                    let key: F = special(r, i % 5);
                    let xs: Vec<F> = (0..len).map(|j| special(r, (i / 5 + j * (i % 3)) % 6)).collect();
                    let mut sec = vec![key];
                    sec.extend(xs.iter());
                    let y = mk(kind, &xs.iter().map(|x| Some(*x)).collect::<Vec<_>>(), Some(key), &c, false);
                    (sec, y)
                })
                .collect();
            let nones = vec![None; len];
            let somes: Vec<Option<F>> = (0..len).map(|_| Some(frand(r))).collect();
            Study {
                name,
                kind,
                common: vec![("c", fhs(&c))],
                setup: vec![mk(kind, &nones, None, &c, true), mk(kind, &somes, Some(frand(r)), &c, true)],
                runs,
                nsec: len + 1,
                group: 0,
                keep: len + 1,
                dump: if dump { Some((kind, vec![("c", fi(&c))])) } else { None },
                deviate,
                claims: vec![],
            }
            .record(o, circ, r);
        }
    }
}
fn main() {
    let mut o = Out::new();
    let mut circ = Circs::new();
    let mut r = rng(7);
    field::<F7>(&mut o, &mut circ, &mut r, "h5", "F7", &[1, 2, 3], &[0, 2], true, false);
    field::<F11>(&mut o, &mut circ, &mut r, "h7", "F11", q(&[1, 2], &[1, 2, 3]), &[0], true, false);
    field::<F13>(&mut o, &mut circ, &mut r, "h5", "F13", &[1, 2], &[0, 1], true, false);
    field::<F13>(&mut o, &mut circ, &mut r, "h7", "F13", &[1, 2], &[2], thorough(), false);
    for kind in ["h5", "h7"] {
        field::<Fr>(&mut o, &mut circ, &mut r, kind, "Fr", &[1, 2, 3, 5], &[0], false, true);
        field::<Fr>(&mut o, &mut circ, &mut r, kind, "Fr", &[1, 4], &[1, 2, 3], false, true);
        field::<Fr>(&mut o, &mut circ, &mut r, kind, "Fr", &[50], &[0], false, kind == "h5" || thorough());
    }
    o.done();
}
