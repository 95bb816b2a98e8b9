//! C20: modular arithmetic on byte strings, units, padding, file ranges, xor, hashes.
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::{common::*, prover::{copy_and_compress, copy_and_pad}};
use proof_of_storage::vde::rug_sloth::{P_1024, P_2048, P_512};
use rand::{rngs::StdRng, Rng};
use rug::{integer::Order, Integer};
use std::str::FromStr;
use util::*;

fn hx(x: &Integer) -> String {
    x.to_string_radix(16)
}
fn or(x: Option<Vec<u8>>) -> J {
    s(x.map(|v| hex(&v)).unwrap_or("panic".into()))
}
fn lsf(x: &Integer, l: usize) -> Vec<u8> {
    let mut v = x.to_digits::<u8>(Order::Lsf);
    while v.len() < l {
        v.push(0);
    }
    v
}
fn arith(e: &mut Vec<J>, a: &Vec<u8>, b: &Vec<u8>, p: &Integer) {
    let sum = catch(|| modadd(a, b, p));
    let dif = catch(|| modsub(a, b, p));
    e.push(J::O(vec![("f", s("modadd")), ("a", hexj(a)), ("b", hexj(b)), ("p", s(hx(p))), ("r", or(sum.clone()))]));
    e.push(J::O(vec![("f", s("modsub")), ("a", hexj(a)), ("b", hexj(b)), ("p", s(hx(p))), ("r", or(dif.clone()))]));
    if &Integer::from_digits(a, Order::Lsf) < p {
        let x = sum.and_then(|v| catch(|| modsub(&v, b, p)));
        let y = dif.and_then(|v| catch(|| modadd(&v, b, p)));
        e.push(J::O(vec![("f", s("addsub")), ("a", hexj(a)), ("b", hexj(b)), ("p", s(hx(p))), ("r", or(x))]));
        e.push(J::O(vec![("f", s("addsub")), ("a", hexj(a)), ("b", hexj(b)), ("p", s(hx(p))), ("r", or(y))]));
    }
}
fn file(d: &str, name: &str) -> String {
    format!("{}/{}", d, name)
}
fn files(round: usize, special: Option<(usize, usize)>, d: &str, suffix: &str, r: &mut StdRng) -> (String, Vec<J>) {
    let unit = [1usize, 2, 5, 63, 127, 255, 64, 100, 3, 31][round % 10];
    let cnt = [1usize, 2, 3, 10, 17, 40, 65, 0, 130, 300][(round * 3 + round / 10) % 10];
    let (unit, cnt) = special.unwrap_or((unit, cnt));
    let data = some_bytes(r, unit * cnt, if round % 2 == 0 { 0 } else { round });
    let org = file(d, &format!("origin{}", suffix));
    put(&org, &data).unwrap();
    let mut e = vec![J::O(vec![("f", s("write")), ("path", s("origin")), ("d", hexj(&data))])];
    let mut f = std::fs::OpenOptions::new().read(true).open(&org).unwrap();
    for k in 0..12 {
        let off = match k { 0 => 0, 1 => data.len(), _ => r.gen_range(0..=data.len()) };
        let len = match k { 0 => data.len(), 2 => data.len() - off, _ => r.gen_range(0..=data.len() - off) };
        e.push(J::O(vec![("f", s("read")), ("path", s("origin")), ("off", n(off)), ("len", n(len)), ("r", or(catch(|| read_file(&mut f, off, len))))]));
    }
    let pad = file(d, &format!("padded{}", suffix));
    let out = file(d, &format!("out{}", suffix));
    for pass in 0..3 {
        // earlier content of both targets: none, longer, shorter, or what the last pass left
        match (round + pass) % 4 {
            0 => { let _ = std::fs::remove_file(&pad); let _ = std::fs::remove_file(&out); }
            1 => { put(&pad, vec![0xaa; data.len() * 2 + 500]).unwrap(); put(&out, vec![0xbb; data.len() + 77]).unwrap(); }
            2 => { put(&pad, vec![0xaa; 3]).unwrap(); put(&out, vec![0xbb; 1]).unwrap(); }
            _ => {}
        }
        // the whole file, or fewer units than it has
        let used = if pass == 2 { cnt / 2 } else { cnt };
        let ok = catch(|| copy_and_pad(&org, &pad, used * unit, unit)).is_some();
        e.push(J::O(vec![("f", s("pad")), ("from", s("origin")), ("to", s("padded")), ("units", n(used)), ("n", n(unit)), ("ok", J::B(ok)),
            ("src", hexj(&std::fs::read(&org).unwrap())), ("r", or(std::fs::read(&pad).ok()))]));
        if pass == 1 {
            // the stored units differ from padded ones in every byte
            let v = rand_bytes(r, used * (unit + 1));
            put(&pad, &v).unwrap();
            e.push(J::O(vec![("f", s("write")), ("path", s("padded")), ("d", hexj(&v))]));
        }
        let ok = catch(|| copy_and_compress(&pad, &out, used * unit, unit, unit + 1)).is_some();
        e.push(J::O(vec![("f", s("compress")), ("from", s("padded")), ("to", s("out")), ("units", n(used)), ("n", n(unit)), ("w", n(unit + 1)), ("ok", J::B(ok)),
            ("src", hexj(&std::fs::read(&pad).unwrap())), ("r", or(std::fs::read(&out).ok()))]));
    }
    (format!("files with {} units of {} bytes", cnt, unit), e)
}
fn main() {
    if asked().is_some() {
        let p = std::env::var("VDRAW_OUT").unwrap() + ".file";
        let ok = catch(|| proof_of_storage::proof_of_storage::verifier::create_random_file(&p, 640).is_ok()).unwrap_or(false);
        let name = format!("p{}", std::process::id());
        return answer(vec![J::O(vec![("f", s("random")), ("to", s(name)), ("len", n(640)), ("ok", J::B(ok)), ("r", or(std::fs::read(&p).ok()))])]);
    }
    let mut o = Out::new();
    let mut r = rng(20);
    // every pair of one-byte values (left in one byte, right in one or two) for small moduli
    for p in [1usize, 2, 3, 7, 16, 101, 127, 128, 255, 256] {
        o.note(format!("modulo {}", p));
        let pi = Integer::from(p);
        let mut e = vec![];
        for a in (0..256).step_by(if p == 101 { 3 } else { 17 }) {
            for b in [0usize, 1, 2, 3, 6, 7, 15, 16, 50, 100, 101, 127, 128, 200, 254, 255, 256, 257, 300, 1000, 65535] {
                let b = if b < 256 { vec![b as u8] } else { vec![(b % 256) as u8, (b / 256) as u8] };
                arith(&mut e, &vec![a as u8], &b, &pi);
            }
        }
        o.session(&format!("modulo {}", p), e);
    }
    let ps: Vec<(Integer, usize)> = vec![
        (Integer::from_str(P_512).unwrap(), 64),
        (Integer::from_str(P_1024).unwrap(), 128),
        (Integer::from_str(P_2048).unwrap(), 256),
        (Integer::from(1) << 128, 16),
        ((Integer::from(1) << 64) - 59, 8),
        (Integer::from(65537), 3),
        (Integer::from(1000003), 32),
    ];
    for (p, l) in &ps {
        o.note(format!("modulo {}", p));
        let mut e = vec![];
        let edge: Vec<Integer> = vec![Integer::from(0), Integer::from(1), Integer::from(255), Integer::from(256), p.clone() - 1, p.clone() - 2, p.clone() / 2, p.clone() / 2 + 1];
        for x in &edge {
            for y in &edge {
                arith(&mut e, &lsf(x, *l), &lsf(y, if y < &Integer::from(1000) { 2 } else { *l }), p);
            }
            arith(&mut e, &lsf(x, *l), &vec![], p);
            arith(&mut e, &lsf(x, *l), &lsf(&p, l + 1), p);
        }
        for k in 0..q(60, 600) {
            let mut a = some_bytes(&mut r, *l, if k < 6 { k } else { 0 });
            if k % 2 == 0 {
                a[l - 1] = 0;
            }
            let bl = [32, 1, *l, l / 2, l + 3][k % 5];
            let b = some_bytes(&mut r, bl, if k % 3 == 0 { k / 3 } else { 0 });
            arith(&mut e, &a, &b, p);
        }
        o.session(&format!("modulo a {}-bit number", p.significant_bits()), e);
    }
    o.note("units");
    let mut e = vec![];
    for len in [1usize, 2, 3, 7, 8, 63, 64, 100, 127, 128, 256] {
        for cnt in [0usize, 1, 2, 3, 5, 16, 33, 300, 70000 / len] {
            let d = some_bytes(&mut r, len * cnt, len + cnt);
            let u = catch(|| to_units(&d, len));
            let back = u.as_ref().and_then(|u| catch(|| com_units(u)));
            let ok = u.is_some() && back.is_some();
            e.push(J::O(vec![("f", s("units")), ("d", hexj(&d)), ("len", n(len)), ("ok", J::B(ok)), ("u", J::A(u.unwrap_or_default().iter().map(|x| hexj(x)).collect())), ("back", or(back))]));
        }
    }
    for _ in 0..q(60, 400) {
        let k = r.gen_range(0..12);
        let u: Vec<Vec<u8>> = (0..k).map(|_| { let l = r.gen_range(0..20); rand_bytes(&mut r, l) }).collect();
        e.push(J::O(vec![("f", s("join")), ("u", J::A(u.iter().map(|x| hexj(x)).collect())), ("r", or(catch(|| com_units(&u))))]));
    }
    o.session("units", e);
    o.note("xor and hashes");
    let mut e = vec![];
    for a in [0usize, 1, 2, 3, 16, 31, 32, 33, 64, 127] {
        for b in [0usize, 1, 2, 3, 16, 31, 32, 33, 64, 127] {
            for k in 0..q(2, 6) {
                let (a, b) = if k == 1 && a * b == 64 * 64 { (70003, 66000) } else if k == 1 && a * b == 127 * 127 { (3, 70000) } else { (a, b) };
                let x = some_bytes(&mut r, a, k * 5);
                let y = some_bytes(&mut r, b, k * 2);
                e.push(J::O(vec![("f", s("xor")), ("a", hexj(&x)), ("b", hexj(&y)), ("r", or(catch(|| vecu8_xor(&x, &y))))]));
            }
        }
    }
    o.session("xor", e);
    let mut e = vec![];
    let mut lens: Vec<usize> = (0..140).collect();
    lens.extend([255, 256, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 3072, 3073, 4096, 4097, 5000, 8192, 10000, 16384, 20000, 31744, 40000, 65535, 65536, 65537, 150000]);
    for len in lens {
        let d = some_bytes(&mut r, len, len);
        e.push(J::O(vec![("f", s("blake3")), ("d", hexj(&d)), ("r", or(catch(|| blake3_hash(&d))))]));
        e.push(J::O(vec![("f", s("md5")), ("d", hexj(&d)), ("r", or(catch(|| md5_hash(&d))))]));
    }
    o.session("hashes", e);
    // files: ranges, padding into and compressing out of targets with any earlier content
    let special = [(70000usize, 3usize), (1, 70001), (4097, 33)];
    for round in 0..q(14, 80) + special.len() {
        let d = format!("{}/f{}", scratch(), round);
        std::fs::create_dir_all(&d).unwrap();
        o.note(format!("files, {}", round));
        let (name, e) = files(round, special.get(round).cloned(), &d, "", &mut r);
        o.session(&name, e);
        std::fs::remove_dir_all(&d).unwrap();
    }
    o.note("files of several threads in one directory");
    let d = format!("{}/shared", scratch());
    std::fs::create_dir_all(&d).unwrap();
    for b in 0..q(6u64, 40) {
        o.together(8, |i| {
            let mut r = rng(2000 + 100 * b + i as u64);
            vec![files(b as usize + if b % 2 == 0 { 0 } else { i }, None, &d, &i.to_string(), &mut r)]
        });
    }
    // long ranges
    {
        o.note("long ranges");
        let p = file(&scratch(), "long");
        let data = rand_bytes(&mut r, q(3_000_000, 9_000_000));
        put(&p, &data).unwrap();
        let mut e = vec![J::O(vec![("f", s("write")), ("path", s("long")), ("d", hexj(&data))])];
        let mut f = std::fs::OpenOptions::new().read(true).open(&p).unwrap();
        for (off, len) in [(0, data.len()), (1, 1 << 20), (7, (1 << 20) + 1), (123_456, 2_500_000), (data.len() - 70_001, 70_001)] {
            e.push(J::O(vec![("f", s("read")), ("path", s("long")), ("off", n(off)), ("len", n(len)), ("r", or(catch(|| read_file(&mut f, off, len))))]));
        }
        std::fs::remove_file(&p).unwrap();
        o.session("long ranges", e);
    }
    // ranges far into a large (sparse) file; offsets are given from the marker at 2^k
    for k in 20..=q(40usize, 42) {
        let name = format!("a file with content around 2^{}", k);
        o.note(&name);
        let p = file(&scratch(), "sparse");
        let base = (1u64 << k) - 32;
        let mut e = vec![];
        let marks = rand_bytes(&mut r, 300);
        {
            use std::io::{Seek, SeekFrom, Write};
            let mut f = std::fs::File::create(&p).unwrap();
            f.write_all(&rand_bytes(&mut r, 700)).unwrap();
            f.seek(SeekFrom::Start(base)).unwrap();
            f.write_all(&marks).unwrap();
        }
        e.push(J::O(vec![("f", s("write")), ("path", s(&name)), ("d", hexj(&marks))]));
        let mut f = std::fs::OpenOptions::new().read(true).open(&p).unwrap();
        for (off, len) in [(0usize, 300usize), (32, 64), (0, 32), (31, 2), (299, 1), (100, 150), (32, 1), (300, 0)] {
            let x = catch(|| read_file(&mut f, base as usize + off, len));
            e.push(J::O(vec![("f", s("read")), ("path", s(&name)), ("off", n(off)), ("len", n(len)), ("r", or(x))]));
        }
        std::fs::remove_file(&p).unwrap();
        o.session(&name, e);
    }
    o.note("random files");
    let mut e = vec![];
    for (k, len) in [0usize, 1, 2, 100, 64, 16384, 63, 63 * 40, 5000, 16384, 140000, 1].into_iter().enumerate() {
        let p = format!("{}/rnd{}", scratch(), k % 2);
        match k { 0 => {}, 1 => put(&p, vec![1; 70000]).unwrap(), 3 => put(&p, [7; 3]).unwrap(), _ => {} }
        let ok = catch(|| proof_of_storage::proof_of_storage::verifier::create_random_file(&p, len).is_ok()).unwrap_or(false);
        let name = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11"][k];
        e.push(J::O(vec![("f", s("random")), ("to", s(name)), ("len", n(len)), ("ok", J::B(ok)), ("r", or(std::fs::read(&p).ok()))]));
    }
    o.session("random files", e);
    o.note("many random files");
    let p = format!("{}/many", scratch());
    let v: Vec<J> = (0..q(3000, 12000))
        .map(|_| {
            let ok = catch(|| proof_of_storage::proof_of_storage::verifier::create_random_file(&p, 24).is_ok()).unwrap_or(false);
            or(if ok { std::fs::read(&p).ok() } else { None })
        })
        .collect();
    o.session("many random files", vec![J::O(vec![("f", s("randoms")), ("len", n(24)), ("vals", J::A(v))])]);
    o.note("random files of several processes");
    o.session("random files of several processes", elsewhere(4, "file"));
    o.done();
}
