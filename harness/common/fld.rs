//! Field elements as canonical hex strings.
#![allow(dead_code)]
use ark_ff::{BigInteger, FpParameters, PrimeField};
pub fn fh<F: PrimeField>(x: F) -> String {
    big_hex(&x.into_repr())
}
pub fn big_hex<B: BigInteger>(b: &B) -> String {
    let mut o = String::new();
    for limb in b.as_ref().iter().rev() {
        if o.is_empty() {
            if *limb != 0 {
                o = format!("{:x}", limb);
            }
        } else {
            o.push_str(&format!("{:016x}", limb));
        }
    }
    if o.is_empty() {
        o.push('0');
    }
    o
}
pub fn modulus<F: PrimeField>() -> String {
    big_hex(&F::Params::MODULUS)
}
/// A random element of a prime field of any size.
pub fn frand<F: PrimeField, R: rand::Rng>(r: &mut R) -> F {
    let mut x = F::zero();
    for _ in 0..7 {
        let w: u64 = r.gen();
        for i in 0..64 {
            x.double_in_place();
            if w >> i & 1 == 1 {
                x += F::one();
            }
        }
    }
    x
}
/// A small integer in any field.
pub fn fint<F: PrimeField>(v: usize) -> F {
    let mut x = F::zero();
    for i in (0..usize::BITS).rev() {
        x.double_in_place();
        if v >> i & 1 == 1 {
            x += F::one();
        }
    }
    x
}
/// field values: 0, 1, -1, 2, then random
pub fn special<F: PrimeField, R: rand::Rng>(r: &mut R, k: usize) -> F {
    match k {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => fint(2),
        _ => frand(r),
    }
}
pub fn consts<F: PrimeField, R: rand::Rng>(r: &mut R, len: usize, kind: usize) -> Vec<F> {
    (0..len)
        .map(|i| match kind % 4 {
            0 => frand(r),
            1 => fint(i),
            2 => F::zero(),
            _ => {
                if i % 3 == 1 {
                    F::zero()
                } else {
                    frand(r)
                }
            }
        })
        .collect()
}
