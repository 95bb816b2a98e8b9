//! C09: the space-proof circuit over the real field.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/r1cs.rs"]
mod r1cs;
#[path = "../../../common/util.rs"]
mod util;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256, Field, PrimeField};
use fld::*;
use proof_of_space::circuit::pospace_circuit::PospaceDemo;
use proof_of_space::mimc::{
    mimc_df::{mimc5_df, MIMC5_DF_ROUNDS},
    mimc_hash::{multi_mimc5_hash, MIMC5_HASH_ROUNDS},
};
use proof_of_space::proof_of_space::pospace::{N, RESPONSE_COUNT};
use r1cs::*;
use rand::rngs::StdRng;
use rand::Rng;
use std::io::Write;
use util::*;

fn low(y: Fr, k: usize) -> Fr {
    let b: BigInteger256 = y.into();
    let b = b.to_bits_le();
    (0..k).rev().fold(Fr::from(0u64), |a, i| a + a + Fr::from(b[i] as u64))
}
struct Inst {
    key: Fr,
    m: Fr,
    xs: Vec<Fr>,
    yn: Vec<Fr>,
    y: Vec<Fr>,
    h: Fr,
}
fn inst(r: &mut StdRng, len: usize, i: usize, c: &[Fr], hc: &[Fr]) -> Inst {
    let key: Fr = special(r, i % 7);
    let m: Fr = special(r, (i / 2) % 7);
    let mut xs: Vec<Fr> = (0..len)
        .map(|j| match (i + j) % 5 {
            0 => Fr::from((i % 3) as u64),
            1 => Fr::from((1u64 << N) - 1),
            _ => Fr::from(r.gen_range(0..1u64 << N)),
        })
        .collect();
    // values that make intermediate ones vanish or coincide
    let (key, m) = match i {
        10 => (-xs[0], m),
        11 => (-xs[0] - c[0], m),
        12 => (-xs[len - 1] - c[0], -c[1]),
        13 => (key, -(key + xs[0] + c[0]).pow([5])),
        14 => (m, m),
        15 => (m, m - xs[0]),
        _ => (key, m),
    };
    if i % 4 == 3 {
        for j in 1..len {
            xs[j] = if j % 2 == 1 || i % 8 == 7 { xs[0] } else { xs[j] };
        }
    }
    let y: Vec<Fr> = xs.iter().map(|x| mimc5_df(key + x, m, c)).collect();
    let yn = y.iter().map(|y| low(*y, N)).collect();
    let h = multi_mimc5_hash(&xs, key, hc);
    Inst { key, m, xs, yn, y, h }
}
fn mk(t: &Inst, c: &[Fr], hc: &[Fr], setup: bool) -> Option<Sys<Fr>> {
    let none = vec![None; t.xs.len()];
    let xs: Vec<Option<Fr>> = if setup { none.clone() } else { t.xs.iter().map(|x| Some(*x)).collect() };
    let yn: Vec<Option<Fr>> = if setup { none } else { t.yn.iter().map(|x| Some(*x)).collect() };
    let o = |x: Fr| if setup { None } else { Some(x) };
    synth(PospaceDemo { key: o(t.key), x: &xs, m: o(t.m), df_constants: c, yn: &yn, x_hash: o(t.h), hash_constants: hc }, setup)
}
/// Where the preimages and the bits of the outputs live in the witness, for the small-field models.
fn locations(f: &mut std::fs::File, len: usize, runs: &[(Inst, Vec<Fr>)], ni: usize) {
    let sec: Vec<(Vec<Fr>, Vec<Fr>)> = runs
        .iter()
        .map(|(t, v)| {
            let mut s = t.xs.clone();
            for y in &t.y {
                s.extend(y.into_repr().to_bits_le().iter().map(|b| Fr::from(*b as u64)));
            }
            (s, v.clone())
        })
        .collect();
    let mut cand = locate(&sec, ni);
    let nv = runs[0].1.len();
    for k in len..cand.len() {
        // bits that are zero in every field element can only be found by position
        if (k - len) % 256 > 2 && sec.iter().all(|(s, _)| s[k] == Fr::from(0u64)) {
            let at = if cand[k - 1].is_empty() || cand[k - 2].is_empty() { nv } else { 2 * cand[k - 1][0] - cand[k - 2][0] };
            cand[k] = if cand[k].contains(&at) { vec![at] } else { vec![] };
        }
    }
    let mut o = String::new();
    J::O(vec![
        ("r", n(len)),
        ("nv", n(nv)),
        ("ni", n(ni)),
        ("d", n(N)),
        ("sec", J::A(cand[..len].iter().map(|x| ns(x)).collect())),
        ("bits", J::A(cand[len..].chunks(256).map(|g| J::A(g.iter().enumerate().map(|(i, c)| J::A(vec![ns(c), n(i)])).collect())).collect())),
    ])
    .write(&mut o);
    writeln!(f, "{}", o).unwrap();
}
fn main() {
    let mut o = Out::new();
    let mut circ = Circs::new();
    let mut loc = std::fs::File::create(format!("{}.loc", std::env::var("OUT").unwrap())).unwrap();
    let mut r = rng(9);
    for (len, count, kinds) in [(1, 30, 0..3), (2, 20, 0..1), (3, 12, 1..2), (RESPONSE_COUNT, q(8, 12), 0..1)] {
        for ck in kinds {
            let name = format!("space circuit, {} responses, constants {}", len, ck);
            o.note(&name);
            let c: Vec<Fr> = consts(&mut r, MIMC5_DF_ROUNDS, ck);
            let hc: Vec<Fr> = consts(&mut r, MIMC5_HASH_ROUNDS, ck);
            let mut all = vec![];
            let mut runs = vec![];
            let mut claims = vec![];
            for i in 0..count {
                let t = inst(&mut r, len, i, &c, &hc);
                let y = mk(&t, &c, &hc, false);
                let j = r.gen_range(0..len);
                for d in [Fr::from(1u64), -Fr::from(1u64), Fr::from(1u64 << N), frand(&mut r)] {
                    if len > 3 && i > 0 {
                        break;
                    }
                    let mut bad = Inst { key: t.key, m: t.m, xs: t.xs.clone(), yn: t.yn.clone(), y: t.y.clone(), h: t.h };
                    bad.yn[j] += d;
                    claims.push((t.xs.clone(), mk(&bad, &c, &hc, false)));
                }
                if let Some(y) = &y {
                    all.push((Inst { key: t.key, m: t.m, xs: t.xs.clone(), yn: t.yn.clone(), y: t.y.clone(), h: t.h }, y.val.clone()));
                }
                runs.push((t.xs.clone(), y));
            }
            if len < 3 && ck == 0 && all.len() == count {
                locations(&mut loc, len, &all, runs[0].1.as_ref().unwrap().ni);
            }
            let setup = mk(&inst(&mut r, len, 9, &c, &hc), &c, &hc, true);
            let tried = Study {
                name,
                kind: "space",
                common: vec![("c", fhs(&c)), ("h", fhs(&hc)), ("n", n(N)), ("alias", n(2))],
                setup: vec![setup],
                runs,
                nsec: len,
                group: 0,
                keep: len,
                dump: None,
                deviate: true,
                claims,
            }
            .record(&mut o, &mut circ, &mut r);
            eprintln!("{} responses: {} changes tried", len, tried);
        }
    }
    let _ = Fr::from(2u64).square();
    o.done();
}
