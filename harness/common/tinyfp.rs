//! Small prime fields for arkworks, built on the same 256-bit field type as the real scalar field.
use ark_ff::biginteger::BigInteger256 as B;
use ark_ff::fields::{FftParameters, Fp256, Fp256Parameters, FpParameters};

const fn pow2mod(k: u32, p: u64) -> u64 {
    let mut r: u64 = 1 % p;
    let mut i = 0;
    while i < k {
        r = (r * 2) % p;
        i += 1;
    }
    r
}
const fn inv64(p: u64) -> u64 {
    // -p^{-1} mod 2^64
    let mut x: u64 = 1;
    let mut i = 0;
    while i < 63 {
        x = x.wrapping_mul(x);
        x = x.wrapping_mul(p);
        i += 1;
    }
    x.wrapping_neg()
}
const fn bits(p: u64) -> u32 {
    64 - p.leading_zeros()
}
const fn twos(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}
const fn powmod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
/// G must be a primitive root modulo P.
pub struct TinyParams<const P: u64, const G: u64>;
impl<const P: u64, const G: u64> Fp256Parameters for TinyParams<P, G> {}
impl<const P: u64, const G: u64> FftParameters for TinyParams<P, G> {
    type BigInt = B;
    const TWO_ADICITY: u32 = twos(P);
    const TWO_ADIC_ROOT_OF_UNITY: B = {
        let w = powmod(G, (P - 1) >> twos(P), P);
        B([w * pow2mod(256, P) % P, 0, 0, 0])
    };
}
impl<const P: u64, const G: u64> FpParameters for TinyParams<P, G> {
    const MODULUS: B = B([P, 0, 0, 0]);
    const MODULUS_BITS: u32 = bits(P);
    const REPR_SHAVE_BITS: u32 = 256 - bits(P);
    const R: B = B([pow2mod(256, P), 0, 0, 0]);
    const R2: B = B([pow2mod(512, P), 0, 0, 0]);
    const GENERATOR: B = B([G * pow2mod(256, P) % P, 0, 0, 0]);
    const CAPACITY: u32 = bits(P) - 1;
    const INV: u64 = inv64(P);
    const MODULUS_MINUS_ONE_DIV_TWO: B = B([(P - 1) / 2, 0, 0, 0]);
    const T: B = B([(P - 1) >> twos(P), 0, 0, 0]);
    const T_MINUS_ONE_DIV_TWO: B = B([(((P - 1) >> twos(P)) - 1) / 2, 0, 0, 0]);
}
pub type Tiny<const P: u64, const G: u64> = Fp256<TinyParams<P, G>>;
pub type F5 = Tiny<5, 2>;
pub type F7 = Tiny<7, 3>;
pub type F11 = Tiny<11, 2>;
pub type F13 = Tiny<13, 2>;
pub type F17 = Tiny<17, 3>;
