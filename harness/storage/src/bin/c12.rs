//! C12: the delay function, its inverse, residue detection and the byte wrappers.
#[path = "../../../common/util.rs"]
mod util;
use num_bigint::BigInt;
use proof_of_storage::vde::{compare_modpow, rug_sloth, rug_vde, sloth};
use rand::Rng;
use rug::{integer::Order, Integer};
use std::str::FromStr;
use util::*;

fn h(x: &Integer) -> String {
    x.to_string_radix(16)
}
fn hb(x: &BigInt) -> String {
    x.to_str_radix(16)
}
fn big(x: &Integer) -> BigInt {
    BigInt::from_str(&x.to_string()).unwrap()
}
fn or<T>(x: Option<T>, f: impl Fn(&T) -> String) -> String {
    x.map(|v| f(&v)).unwrap_or("panic".into())
}
fn leg(x: &Integer, p: &Integer) -> (String, String) {
    (or(catch(|| rug_sloth::legendre(x.clone(), p)), h), or(catch(|| sloth::legendre(big(x), &big(p))), hb))
}
fn four(x: &Integer, p: &Integer, t: usize) -> [String; 4] {
    let y = catch(|| rug_sloth::sloth(x, p, t));
    let yb = catch(|| sloth::sloth(&big(x), &big(p), t));
    let back = y.as_ref().and_then(|y| catch(|| rug_sloth::sloth_inv(y, p, t)));
    let bb = yb.as_ref().and_then(|y| catch(|| sloth::sloth_inv(y, &big(p), t)));
    [or(y, h), or(yb, hb), or(back, h), or(bb, hb)]
}
fn one(x: &Integer, p: &Integer, t: usize) -> J {
    let [a, b, c, d] = four(x, p, t);
    J::O(vec![("f", s("sloth")), ("p", s(h(p))), ("x", s(h(x))), ("t", n(t)), ("rug", s(a)), ("num", s(b)), ("rugback", s(c)), ("numback", s(d))])
}
fn inv(y: &Integer, p: &Integer, t: usize) -> J {
    J::O(vec![
        ("f", s("inv")),
        ("p", s(h(p))),
        ("y", s(h(y))),
        ("t", n(t)),
        ("rug", s(or(catch(|| rug_sloth::sloth_inv(y, p, t)), h))),
        ("num", s(or(catch(|| sloth::sloth_inv(&big(y), &big(p), t)), hb))),
    ])
}
fn bytes(x: &Integer, l: usize) -> Vec<u8> {
    let mut v = x.to_digits::<u8>(Order::Lsf);
    while v.len() < l {
        v.push(0);
    }
    v
}
fn below<R: Rng>(r: &mut R, p: &Integer) -> Integer {
    let b = rand_bytes(r, p.significant_digits::<u8>() + 8);
    Integer::from_digits(&b, Order::Lsf) % p
}
fn is_prime(p: usize) -> bool {
    p > 1 && (2..p).take_while(|d| d * d <= p).all(|d| p % d != 0)
}
fn vdes(xb: &Vec<u8>, p: &Integer, t: usize, mode: &String, l: usize) -> Vec<J> {
    let y = catch(|| rug_vde::vde(xb, p, t, mode, l));
    let back = y.as_ref().and_then(|y| catch(|| rug_vde::vde_inv(y, p, t, mode, l)));
    let z = catch(|| rug_vde::vde_inv(xb, p, t, mode, l));
    vec![
        J::O(vec![
            ("f", s("vde")), ("p", s(h(p))), ("t", n(t)), ("l", n(l)), ("x", hexj(xb)),
            ("y", s(y.map(|v| hex(&v)).unwrap_or("panic".into()))), ("back", s(back.map(|v| hex(&v)).unwrap_or("panic".into()))),
        ]),
        J::O(vec![("f", s("vdeinv")), ("p", s(h(p))), ("t", n(t)), ("l", n(l)), ("y", hexj(xb)), ("x", s(z.map(|v| hex(&v)).unwrap_or("panic".into())))]),
    ]
}
fn main() {
    let mut o = Out::new();
    let mut r = rng(12);
    for p in (3..q(300, 900)).filter(|&p| is_prime(p)) {
        o.note(format!("all values modulo {}", p));
        let pi = Integer::from(p);
        let mut e = vec![];
        let all: Vec<_> = (0..p).map(|x| leg(&Integer::from(x), &pi)).collect();
        e.push(J::O(vec![
            ("f", s("legtable")),
            ("p", s(h(&pi))),
            ("rug", J::A(all.iter().map(|x| s(&x.0)).collect())),
            ("num", J::A(all.iter().map(|x| s(&x.1)).collect())),
        ]));
        if p % 4 == 3 {
            for t in (0..3).chain([5, 10 + p % 7]).chain(if p < 90 { vec![33, 64, 65, 100, 129, 257, 1001] } else { vec![] }) {
                let all: Vec<_> = (0..p).map(|x| four(&Integer::from(x), &pi, t)).collect();
                let col = |i: usize| J::A(all.iter().map(|x| s(&x[i])).collect());
                e.push(J::O(vec![("f", s("table")), ("p", s(h(&pi))), ("t", n(t)), ("rug", col(0)), ("num", col(1)), ("rugback", col(2)), ("numback", col(3))]));
            }
        }
        o.session(&format!("modulo {}", p), e);
    }
    let bundled = [
        [rug_sloth::P_64, sloth::P_64, compare_modpow::P_64],
        [rug_sloth::P_128, sloth::P_128, compare_modpow::P_128],
        [rug_sloth::P_256, sloth::P_256, compare_modpow::P_256],
        [rug_sloth::P_512, sloth::P_512, compare_modpow::P_512],
        [rug_sloth::P_1024, sloth::P_1024, compare_modpow::P_1024],
        [rug_sloth::P_2048, sloth::P_2048, compare_modpow::P_2048],
    ];
    for (k, ps) in bundled.iter().enumerate() {
        let mut e = vec![];
        for p in ps {
            e.push(J::O(vec![("f", s("prime")), ("p", s(h(&Integer::from_str(p).unwrap())))]));
        }
        let p = Integer::from_str(ps[0]).unwrap();
        o.note(format!("bundled prime {}", k));
        let half = Integer::from(&p / 2);
        let mut xs: Vec<Integer> = vec![0, 1, 2, 3, 4].into_iter().map(Integer::from).collect();
        for d in 1..5 {
            xs.push(Integer::from(&p - d));
        }
        for d in 0..3 {
            xs.push(Integer::from(&half + d));
            xs.push(Integer::from(&half - d));
        }
        for _ in 0..q(if k > 4 { 4 } else { 25 }, 100) {
            xs.push(below(&mut r, &p));
        }
        // values with few significant bytes, powers of two, and their roots
        for i in [8, 16, 63] {
            xs.push((Integer::from(1) << i) % &p);
        }
        for (i, x) in xs.iter().enumerate() {
            let t = if k < 3 { [0, 1, 2, 3, 10, 67][i % 6] } else { [1, 2, 3, 1, 10][i % 5] };
            e.push(one(x, &p, t));
            e.push(inv(x, &p, 1 + i % 2));
            let (a, b) = leg(x, &p);
            e.push(J::O(vec![("f", s("leg")), ("p", s(h(&p))), ("x", s(h(x))), ("rug", s(a)), ("num", s(b))]));
        }
        let pl = p.significant_digits::<u8>();
        // particular bytes at either end, of the values going in and of those coming out
        let mut shaped = vec![];
        for i in 0..q(if k > 3 { 14 } else { 40 }, 120) {
            let mut b = if i % 3 == 2 { vec![[0, 255, 1][i % 3]; pl] } else { rand_bytes(&mut r, pl) };
            let z = [0u8, 1, 255, 128, 127];
            let cut = [0, 0, 1, 0, 2, 0, pl / 2][i % 7];
            for j in 0..cut {
                b[pl - 1 - j] = 0;
            }
            b[pl - 1 - cut] = z[i % 4 % 3];
            b[pl.saturating_sub(2 + cut)] = z[i / 4 % 5];
            if i % 2 == 1 {
                b[0] = z[i / 2 % 5];
                b[1] = z[i % 5];
            }
            let x = Integer::from_digits(&b, Order::Lsf);
            if x < p {
                shaped.push(x.clone());
                if let Some(y) = catch(|| rug_sloth::sloth_inv(&x, &p, 1 + i % 3)) {
                    shaped.push(y);
                }
            }
        }
        xs.extend(shaped);
        for (i, x) in xs.iter().enumerate() {
            for l in [pl, pl + 1, pl + 9] {
                let mode = ["sloth", "other", ""][i % 3].to_string();
                let t = if k > 3 && i > 30 { 1 } else { i / 2 % 3 };
                let xb = match i % 2 {
                    0 => bytes(x, l),
                    _ => bytes(x, 0),
                };
                e.extend(vdes(&xb, &p, t, &mode, l));
            }
        }
        for i in 0..q(12, 60) {
            let x = if i < 4 { Integer::from(i) } else { below(&mut r, &p) };
            let t = match i % 4 {
                0 => Integer::from(i / 4),
                1 => Integer::from(&p - 1u32) >> 1,
                2 => below(&mut r, &p) >> (p.significant_bits() / 2),
                _ => Integer::from(1u32) << (i as u32),
            };
            let v = catch(|| compare_modpow::fast_modpow(big(&x), big(&t), big(&p)));
            e.push(J::O(vec![("f", s("modpow")), ("p", s(h(&p))), ("x", s(h(&x))), ("e", s(h(&t))), ("r", s(or(v, hb)))]));
        }
        let top = Integer::from(&p - 1u32);
        for x in [Integer::from(0), Integer::from(1), Integer::from(2), top.clone(), p.clone(), Integer::from(&p + 1u32), Integer::from(&p * 3u32) + 7u32] {
            for t in [Integer::from(0), Integer::from(1), Integer::from(2), Integer::from(3), Integer::from(&top - 1u32), top.clone(), p.clone(), below(&mut r, &p)] {
                if p.significant_bits() > 600 && t.significant_bits() > 100 && x.is_odd() && !thorough() {
                    continue;
                }
                let v = catch(|| compare_modpow::fast_modpow(big(&x), big(&t), big(&p)));
                e.push(J::O(vec![("f", s("modpow")), ("p", s(h(&p))), ("x", s(h(&x))), ("e", s(h(&t))), ("r", s(or(v, hb)))]));
            }
        }
        o.session(&format!("bundled prime {}", ps[0].len()), e);
    }
    // the same values modulo one prime after the other, and back and forth between numbers of rounds
    {
        o.note("alternating primes");
        let ps: Vec<Integer> = [103usize, 107, 131].into_iter().map(Integer::from).chain([rug_sloth::P_64, rug_sloth::P_128, rug_sloth::P_256].iter().map(|p| Integer::from_str(p).unwrap())).collect();
        let mut e = vec![];
        for x in [1usize, 2, 5, 17, 50, 77, 100] {
            for t in [1usize, 3] {
                for i in 0..2 {
                    for p in &ps {
                        let x = Integer::from(x);
                        e.push(one(&x, p, t));
                        e.push(inv(&x, p, t));
                        e.extend(vdes(&bytes(&x, 40), p, t, &"sloth".to_string(), 40));
                        if i == 1 {
                            e.push(one(&x, p, t + 1));
                            e.push(one(&x, p, t));
                        }
                        let (a, b) = leg(&x, p);
                        e.push(J::O(vec![("f", s("leg")), ("p", s(h(p))), ("x", s(h(&x))), ("rug", s(a)), ("num", s(b))]));
                    }
                }
            }
        }
        o.session("alternating primes", e);
    }
    // other large primes
    for bits in [61u32, 100, 255, 400, 777] {
        o.note(format!("prime of {} bits", bits));
        let mut p = (Integer::from(1) << bits) - below(&mut r, &(Integer::from(1) << (bits - 3)));
        loop {
            p = p.next_prime();
            if p.mod_u(4) == 3 {
                break;
            }
        }
        let mut e = vec![];
        for i in 0..q(20, 80) {
            let x = match i {
                0 | 1 => Integer::from(i),
                2 => Integer::from(&p - 1),
                _ => below(&mut r, &p),
            };
            e.push(one(&x, &p, i % 4));
            e.push(inv(&x, &p, i % 3));
            let (a, b) = leg(&x, &p);
            e.push(J::O(vec![("f", s("leg")), ("p", s(h(&p))), ("x", s(h(&x))), ("rug", s(a)), ("num", s(b))]));
        }
        o.session(&format!("prime of {} bits", bits), e);
    }
    // the symbol also for primes of the other residue class
    for bits in [33u32, 64, 130, 300, 600] {
        o.note(format!("prime of {} bits, other class", bits));
        let mut p = (Integer::from(1) << bits) - below(&mut r, &(Integer::from(1) << (bits - 3)));
        loop {
            p = p.next_prime();
            if p.mod_u(4) == 1 {
                break;
            }
        }
        let mut e = vec![];
        for i in 0..q(20u32, 80) {
            let x = match i {
                0..=4 => Integer::from(i),
                5 => Integer::from(&p - 1),
                6 => Integer::from(&p - 2),
                7 => Integer::from(&p / 2),
                _ => below(&mut r, &p),
            };
            let (a, b) = leg(&x, &p);
            e.push(J::O(vec![("f", s("leg")), ("p", s(h(&p))), ("x", s(h(&x))), ("rug", s(a)), ("num", s(b))]));
        }
        o.session(&format!("prime of {} bits, other class", bits), e);
    }
    o.done();
}
