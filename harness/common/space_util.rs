#![allow(dead_code)]
use super::fld::*;
use super::util::*;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256};
use proof_of_space::mimc::mimc_df::*;
use proof_of_space::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use proof_of_space::proof_of_space::pospace::RESPONSE_COUNT;
use proof_of_space::proof_of_space::prover::*;

pub fn path(name: &str) -> String {
    format!("{}/{}", scratch(), name)
}
pub fn read(p: &str) -> Vec<u8> {
    std::fs::read(p).unwrap_or_default()
}
pub fn fs(v: &[Fr]) -> J {
    J::A(v.iter().map(|x| s(fh(*x))).collect())
}
pub fn env(p: &str, data: Option<Vec<u8>>) -> J {
    match data {
        None => {
            let _ = std::fs::remove_file(p);
        }
        Some(d) => crate::util::put(p, d).unwrap(),
    }
    J::O(vec![("f", s("env")), ("file", hexj(&read(p)))])
}
/// An empty space of the declared size, put there by the environment.
pub fn zeros(p: &str, k: usize) -> J {
    env(p, Some(vec![0; ((k + 1) * (1 << k) + 7) / 8]))
}
/// Marks without judging the result (C02 only needs the contents).
pub fn mark_env(p: &str, key: Fr, m: Fr, c: &Vec<Fr>, k: usize) -> J {
    catch(|| {
        mark_space(p, key, m, c, k);
    });
    J::O(vec![("f", s("env")), ("file", hexj(&read(p)))])
}
pub fn prepare(p: &str, k: usize) -> J {
    let r = catch(|| prepare_space(p, k));
    J::O(vec![("f", s("prepare")), ("n", n(k)), ("ok", J::B(matches!(r, Some(Ok(()))))), ("file", hexj(&read(p)))])
}
pub fn mark(p: &str, key: Fr, m: Fr, c: &Vec<Fr>, k: usize) -> J {
    let r = catch(|| {
        mark_space(p, key, m, c, k);
    });
    J::O(vec![
        ("f", s("mark")),
        ("n", n(k)),
        ("key", s(fh(key))),
        ("m", s(fh(m))),
        ("c", fs(c)),
        ("ok", J::B(r.is_some())),
        ("file", hexj(&read(p))),
    ])
}
pub fn respond(p: &str, chal: &Vec<usize>, key: Fr, c: &Vec<Fr>, k: usize) -> J {
    respond_want(p, chal, key, c, k, "", key, &vec![])
}
/// want: "silent", "true" (for delay function of m and dc) or nothing known
pub fn respond_want(p: &str, chal: &Vec<usize>, key: Fr, c: &Vec<Fr>, k: usize, want: &str, m: Fr, dc: &Vec<Fr>) -> J {
    let r = catch(|| response_1(p, chal, key, c, k));
    let ok = r.is_some();
    let (x, i, h) = r.unwrap_or((vec![], vec![], Fr::from(0u64)));
    J::O(vec![
        ("f", s("respond")),
        ("n", n(k)),
        ("chal", ns(chal)),
        ("limit", n(RESPONSE_COUNT)),
        ("key", s(fh(key))),
        ("c", fs(c)),
        ("ok", J::B(ok)),
        ("xs", fs(&x)),
        ("idx", ns(&i)),
        ("hash", s(fh(h))),
        ("want", s(want)),
        ("m", s(fh(m))),
        ("dc", fs(dc)),
        ("file", hexj(&read(p))),
    ])
}
pub fn slot_bits(file: &[u8], k: usize, y: usize) -> Vec<bool> {
    ((k + 1) * y..(k + 1) * (y + 1)).map(|b| file.get(b / 8).map(|v| v >> (b % 8) & 1 == 1).unwrap_or(false)).collect()
}
pub fn respond_big(p: &str, chal: &Vec<usize>, key: Fr, c: &Vec<Fr>, k: usize) -> J {
    let before = read(p);
    let r = catch(|| response_1(p, chal, key, c, k));
    let ok = r.is_some();
    let (x, i, h) = r.unwrap_or((vec![], vec![], Fr::from(0u64)));
    J::O(vec![
        ("f", s("respond_big")),
        ("n", n(k)),
        ("chal", ns(chal)),
        ("slots", J::A(chal.iter().map(|&y| bits_j(&slot_bits(&before, k, y))).collect())),
        ("limit", n(RESPONSE_COUNT)),
        ("key", s(fh(key))),
        ("c", fs(c)),
        ("ok", J::B(ok)),
        ("same", J::B(before == read(p))),
        ("xs", fs(&x)),
        ("idx", ns(&i)),
        ("hash", s(fh(h))),
    ])
}
pub fn df_low(x: usize, key: Fr, m: Fr, c: &Vec<Fr>, k: usize) -> usize {
    let y: BigInteger256 = mimc5_df(fint::<Fr>(x) + key, m, c).into();
    let b = y.to_bits_le();
    (0..k).map(|i| (b[i] as usize) << i).sum()
}
/// Marks and logs the slots in `ys`.
pub fn mark_big<R: rand::Rng>(r: &mut R, p: &str, key: Fr, m: Fr, c: &Vec<Fr>, k: usize, samples: usize) -> J {
    let before = read(p);
    let res = catch(|| {
        mark_space(p, key, m, c, k);
    });
    let after = read(p);
    let mut pre: Vec<Vec<usize>> = vec![vec![]; 1 << k];
    for x in 0..1usize << k {
        pre[df_low(x, key, m, c, k)].push(x);
    }
    let last = (1 << k) - 1;
    let mut ys = vec![0, 1, 2, 3, last, last - 1, last - 2, last / 2, last / 2 + 1];
    for _ in 0..samples {
        let y = r.gen_range(0..=last);
        ys.push(y);
        ys.push(y ^ 1);
    }
    // any slot whose content is not what the log would predict is looked at as well
    for y in 0..=last {
        if ys.len() > 3 * samples + 60 {
            break;
        }
        let now = slot_bits(&after, k, y);
        let x: usize = (0..k).map(|i| (now[i] as usize) << i).sum();
        let fine = match pre[y].last() {
            None => now == slot_bits(&before, k, y),
            Some(&w) => now[k] && x == w,
        };
        if !fine {
            ys.push(y);
        }
    }
    J::O(vec![
        ("f", s("mark_big")),
        ("n", n(k)),
        ("ok", J::B(res.is_some())),
        ("len0", n(before.len())),
        ("len", n(after.len())),
        (
            "slots",
            J::A(
                ys.iter()
                    .map(|&y| {
                        J::O(vec![
                            ("y", n(y)),
                            ("pre", ns(&pre[y])),
                            ("before", bits_j(&slot_bits(&before, k, y))),
                            ("after", bits_j(&slot_bits(&after, k, y))),
                        ])
                    })
                    .collect(),
            ),
        ),
    ])
}
pub fn df_consts<R: rand::Rng>(r: &mut R, kind: usize) -> Vec<Fr> {
    consts(r, MIMC5_DF_ROUNDS, kind)
}
pub fn hash_consts<R: rand::Rng>(r: &mut R, kind: usize) -> Vec<Fr> {
    consts(r, MIMC5_HASH_ROUNDS, kind)
}
