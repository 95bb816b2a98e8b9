//! C06: the delay-function circuits.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/r1cs.rs"]
mod r1cs;
#[path = "../../../common/tinyfp.rs"]
mod tinyfp;
#[path = "../../../common/util.rs"]
mod util;
use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use fld::*;
use r1cs::*;
use rand::rngs::StdRng;
use rand::Rng;
use tinyfp::*;
use util::*;
use proof_of_space::circuit::{mimc3_df_circuit::MiMC3DFDemo, mimc5_df_circuit::MiMC5DFDemo};
use proof_of_space::mimc::mimc_df::{MIMC3_DF_ROUNDS, MIMC5_DF_ROUNDS};

fn mk<F: PrimeField>(kind: &str, a: Option<F>, b: Option<F>, c: &[F]) -> Option<Sys<F>> {
    let setup = a.is_none();
    if kind == "df3" {
        synth(MiMC3DFDemo::verif_new(a, b, c), setup)
    } else {
        synth(MiMC5DFDemo::verif_new(a, b, c), setup)
    }
}
fn field<F: PrimeField>(o: &mut Out, circ: &mut Circs, r: &mut StdRng, kind: &'static str, fname: &str, ckinds: &[usize], dump: bool, deviate: bool) {
    let rounds = if kind == "df3" { MIMC3_DF_ROUNDS } else { MIMC5_DF_ROUNDS };
    for &ck in ckinds {
        let name = format!("{} over {} constants {}", kind, fname, ck);
        o.note(&name);
        let c: Vec<F> = consts(r, rounds, ck);
        let runs = (0..q(30, 60))
            .map(|i| {
                let (a, b): (F, F) = (special(r, i % 5), special(r, i / 5));
                (vec![a, b], mk(kind, Some(a), Some(b), &c))
            })
            .collect();
        Study {
            name,
            kind,
            common: vec![("c", fhs(&c))],
            setup: vec![mk(kind, None, None, &c)],
            runs,
            nsec: 2,
            group: 0,
            keep: 2,
            dump: if dump { Some((kind, vec![("c", fi(&c))])) } else { None },
            deviate,
            claims: vec![],
        }
        .record(o, circ, r);
    }
}
fn main() {
    let mut o = Out::new();
    let mut circ = Circs::new();
    let mut r = rng(6);
    for kind in ["df3", "df5"] {
        field::<F7>(&mut o, &mut circ, &mut r, kind, "F7", &[0, 2, 3], true, false);
        field::<F11>(&mut o, &mut circ, &mut r, kind, "F11", &[0], true, false);
        field::<F13>(&mut o, &mut circ, &mut r, kind, "F13", &[0, 1], thorough() || kind == "df5", false);
        field::<Fr>(&mut o, &mut circ, &mut r, kind, "Fr", &[0, 1, 3], false, true);
    }
    o.done();
}
