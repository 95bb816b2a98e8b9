//! C01: conversions. Every call is one event; arguments and results as logged values.
#[path = "../../../common/util.rs"]
mod util;
use proof_of_space::proof_of_space::convert::*;
use rand::Rng;
use util::*;

fn ev(f: &str, x: J, nn: usize, r: Option<J>) -> J {
    J::O(vec![("f", s(f)), ("x", x), ("n", n(nn)), ("ok", J::B(r.is_some())), ("r", r.unwrap_or(n(0)))])
}
fn b2b(x: Vec<u8>) -> J {
    let r = catch(|| bytes_to_bits(&x)).map(|r| bits_j(&r));
    ev("bytes_to_bits", bytes_j(&x), 0, r)
}
fn p2b(x: Vec<bool>) -> J {
    let r = catch(|| bits_to_bytes(&x)).map(|r| bytes_j(&r));
    ev("bits_to_bytes", bits_j(&x), 0, r)
}
fn b2u(x: Vec<bool>) -> J {
    let r = catch(|| bits_to_usize(&x)).map(|r| hexn(r));
    ev("bits_to_usize", bits_j(&x), 0, r)
}
fn u2b(x: usize, k: usize) -> J {
    let r = catch(|| usize_to_bits(x, k)).map(|r| bits_j(&r));
    ev("usize_to_bits", hexn(x), k, r)
}
/// a long bit list, recorded eight bits to the byte, least significant first (with its length)
fn pack(b: &[bool]) -> J {
    hexj(&b.chunks(8).map(|c| c.iter().enumerate().map(|(i, &v)| (v as u8) << i).sum::<u8>()).collect::<Vec<u8>>())
}
fn long(x: Vec<u8>, cut: usize) -> Vec<J> {
    let bits: Vec<bool> = (0..x.len() * 8 - cut).map(|i| x[i / 8] >> (i % 8) & 1 == 1).collect();
    let r = catch(|| bytes_to_bits(&x));
    let back = catch(|| bits_to_bytes(&bits));
    let e = |f: &str, x: J, n1: usize, n2: usize, r: Option<J>| J::O(vec![("f", s(f)), ("x", x), ("n", n(n1)), ("len", n(n2)), ("ok", J::B(r.is_some())), ("r", r.unwrap_or(s("")))]);
    vec![
        e("long_bits", hexj(&x), x.len(), r.as_ref().map(|r| r.len()).unwrap_or(0), r.map(|r| pack(&r))),
        e("long_bytes", pack(&bits), bits.len(), back.as_ref().map(|r| r.len()).unwrap_or(0), back.map(|r| hexj(&r))),
    ]
}
fn pat<R: Rng>(r: &mut R, len: usize, k: usize) -> Vec<bool> {
    match k {
        0 => vec![false; len],
        1 => vec![true; len],
        2 => (0..len).map(|i| i + 1 == len).collect(),
        3 => (0..len).map(|i| i == 0).collect(),
        4 => (0..len).map(|i| i % 2 == 0).collect(),
        _ => (0..len).map(|_| r.gen()).collect(),
    }
}
fn main() {
    let mut o = Out::new();
    let mut r = rng(1);
    o.note("bytes and bits");
    // exhaustive small domains
    o.session("all single bytes", (0..=255u8).map(|b| b2b(vec![b])).collect());
    let mut e = vec![p2b(vec![]), b2b(vec![]), b2u(vec![])];
    for len in 1..=q(9, 11) {
        for v in 0..(1usize << len) {
            let bits: Vec<bool> = (0..len).map(|i| v >> i & 1 == 1).collect();
            e.push(p2b(bits.clone()));
            e.push(b2u(bits));
        }
    }
    o.session("all short bit lists", e);
    let mut e = vec![];
    for k in 1..=q(8, 10) {
        for v in 0..(1usize << (k + 1)) {
            e.push(u2b(v, k));
        }
    }
    o.session("all small integers", e);
    // every length up to the machine word, structured and random contents
    for len in 0..=130 {
        let mut e = vec![];
        for k in 0..q(8, 20) {
            let bits = pat(&mut r, len, k);
            e.push(p2b(bits.clone()));
            if len <= 63 {
                e.push(b2u(bits));
            }
        }
        e.push(b2b(some_bytes(&mut r, len % 33, len)));
        e.push(b2b(rand_bytes(&mut r, len % 33)));
        o.session("bit lists", e);
    }
    for (i, len) in [131usize, 255, 256, 257, 1000, 4096, 4097, 32769, 65536, 65537, 70001].into_iter().enumerate() {
        o.note(format!("{} bytes", len));
        let mut e = long(rand_bytes(&mut r, len), i % 8);
        e.extend(long(vec![255; len], (i + 3) % 8));
        e.extend(long(vec![0; len], (i + 5) % 8));
        let mut x = rand_bytes(&mut r, len);
        x[len - 1] = 0;
        x[len - 2] = 0;
        e.extend(long(x.clone(), (i + 1) % 8));
        x[0] = 0;
        e.extend(long(x, (i + 7) % 8));
        o.session("long sequences", e);
    }
    for k in (0..=70usize).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 1000]) {
        let mut e = vec![];
        let mut vals = vec![0usize, 1, usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1];
        for sh in [k.saturating_sub(1), k, k + 1] {
            if sh < 64 {
                vals.push(1 << sh);
                vals.push((1usize << sh) - 1);
            }
        }
        for _ in 0..q(4, 20) {
            vals.push(r.gen());
            let sh = r.gen_range(0..64);
            vals.push(r.gen::<usize>() >> sh);
        }
        for v in vals {
            e.push(u2b(v, k));
        }
        o.session("integers", e);
    }
    o.done();
}
