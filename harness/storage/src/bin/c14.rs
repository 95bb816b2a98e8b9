//! C14: pad, seal, unseal, compress restores the original, in every configuration.
#[path = "../../../common/seal_util.rs"]
mod seal_util;
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::{postorage::*, prover::*};
use rand::{rngs::StdRng, Rng};
use rug::{integer::Order, Integer};
use seal_util::*;
use std::fs::{read, write, OpenOptions};
use util::*;

fn file(p: &str) -> J {
    s(read(p).map(|x| hex(&x)).unwrap_or("none".into()))
}
/// one file from creation to what is restored
fn one(k: usize, c: &Conf, all: &[Conf], r: &mut StdRng) -> Sessions {
    let d = dir();
    let (org, sealed, out) = (format!("{}/origin", d), format!("{}/sealed", d), format!("{}/out", d));
    let mut data = c.bytes(r);
    let key = c.key();
    let v = iv(r, k);
    let mut p = c.params();
    // units after the last whole block come back too
    let tail = if k % 7 == 4 && c.nu > 1 { r.gen_range(1..c.nu) * (c.pl - 1) } else { 0 };
    data.extend(rand_bytes(r, tail));
    p.data_l += tail;
    // a unit that the hash of the vector takes to zero modulo the key
    if c.small_key {
        let h = Integer::from_digits(blake3::hash(&v).as_bytes(), Order::Lsf);
        let mut b = Integer::from(&key - h).to_digits::<u8>(Order::Lsf);
        if b.len() <= c.pl - 1 {
            b.resize(c.pl - 1, 0);
            data[..c.pl - 1].copy_from_slice(&b);
        }
    }
    write(&org, &data).unwrap();
    // earlier content of the targets
    if k % 3 == 1 {
        write(&sealed, vec![0xcc; data.len() * 2 + 99]).unwrap();
        write(&out, vec![0xdd; data.len() + 55]).unwrap();
    }
    let mut e = vec![J::O(vec![("f", s("create")), ("p", n(1)), ("d", hexj(&data))])];
    let ok = catch(|| copy_and_pad(&org, &sealed, p.data_l, p.unit_l)).is_some();
    e.push(J::O(vec![("f", s("pad")), ("p", n(1)), ("ok", J::B(ok)), ("r", file(&sealed))]));
    // one sealing, or several on top of each other with the same shape and key
    let depth = if k % 4 == 3 && c.nb * c.nu < 60 { 1 + r.gen_range(1..3) } else { 1 };
    let mut stack = vec![(p.clone(), v.clone())];
    for _ in 1..depth {
        let mut c2 = all[r.gen_range(0..all.len())].clone();
        c2.nb = c.nb;
        c2.nu = c.nu;
        c2.pl = c.pl;
        let mut p2 = c2.params();
        p2.data_l = p.data_l;
        stack.push((p2, rand_bytes(r, 128)));
    }
    let name = ["a", "b", "c"];
    // some of it by another process, started for it
    let other = c.nb * c.nu < 600;
    for (i, (p, v)) in stack.iter().enumerate() {
        let ok = if other && k % 5 == 1 { seal_by_another(p, &sealed, &key, v) } else { catch(|| seal(p, &sealed, &key, v)).is_some() };
        e.push(J::O(vec![("f", s("seal")), ("p", n(1)), ("with", s(name[i])), ("ok", J::B(ok)), ("r", file(&sealed))]));
    }
    for (i, (p, v)) in stack.iter().enumerate().rev() {
        let ok = if other && k % 5 >= 3 { unseal_by_another(p, &sealed, &key, v) } else { catch(|| unseal(p, &sealed, &key, v)).is_some() };
        e.push(J::O(vec![("f", s("unseal")), ("p", n(1)), ("with", s(name[i])), ("ok", J::B(ok)), ("r", file(&sealed))]));
    }
    let ok = catch(|| copy_and_compress(&sealed, &out, p.data_l, p.unit_l, p.unit_pl)).is_some();
    e.push(J::O(vec![("f", s("compress")), ("p", n(1)), ("ok", J::B(ok)), ("r", file(&out))]));
    let mut res = vec![(c.name(), e)];
    // the same through the one call that does it all, with its own parameters
    if k % 4 == 0 && tail == 0 && c.nb * c.nu < 100 && [64, 128, 256].contains(&c.pl) {
        let pubd = format!("{}/pub", d);
        let log = || OpenOptions::new().read(true).write(true).append(true).create(true).open(format!("{}/log", d)).unwrap();
        let ok = catch(|| seal_and_unseal(&p, &org, &sealed, &out, &pubd, &mut log(), k % 8 == 0, true, &mut log())).is_some();
        res.push((format!("in one call: {}", c.name()), vec![J::O(vec![("f", s("whole")), ("ok", J::B(ok)), ("d", hexj(&data)), ("r", file(&out))])]));
    }
    res
}
fn main() {
    if work() {
        return;
    }
    let mut o = Out::new();
    let mut r = rng(14);
    let all = confs(5000);
    for (k, c) in all.iter().enumerate() {
        o.note(c.name());
        o.sessions(one(k, c, &all, &mut r));
    }
    // several files at the same time
    o.note("several files at the same time");
    let light: Vec<&Conf> = all.iter().filter(|c| c.nb * c.nu <= 60 && c.rounds * c.vr <= 9).collect();
    for b in 0..q(6, 30) {
        o.together(8, |i| {
            let mut r = rng(1400 + 100 * b + i as u64);
            let k = r.gen_range(0..light.len());
            // half of the time all of the same shape
            let k = if b % 2 == 0 { b as usize * 7 % light.len() } else { k };
            one(2 * k + 1, light[k], &all, &mut r)
        });
    }
    // every history of two files from MC_SealLife
    let sc = std::env::var("SCENARIOS").ok().map(|p| std::fs::read_to_string(p).unwrap()).unwrap_or_default();
    let small: Vec<&Conf> = all.iter().filter(|c| c.nb * c.nu <= 25 && c.pl == 64).collect();
    for (h, line) in sc.lines().enumerate() {
        let get = |o: &str, k: &str| -> String {
            let i = o.find(&format!("\"{}\":", k)).expect("field") + k.len() + 3;
            o[i..].trim_start_matches('"').split(|c| c == '"' || c == ',' || c == '}').next().unwrap().to_string()
        };
        if h % 50 == 0 {
            o.note(format!("history {} of the specification", h));
        }
        let d = dir();
        // two configurations, each laid over the shapes of the two files
        let base = [small[r.gen_range(0..small.len())].clone(), small[r.gen_range(0..small.len())].clone()];
        let over = |f: usize, c: usize| { let mut x = base[c].clone(); x.nb = base[f].nb; x.nu = base[f].nu; x.small_key = base[f].small_key; x };
        let ivs = [rand_bytes(&mut r, 128), rand_bytes(&mut r, 128)];
        let path = |f: usize, k: &str| format!("{}/{}{}", d, k, f);
        let mut e = vec![];
        let mut stack: [Vec<usize>; 2] = [vec![], vec![]];
        let renew = |f: usize, e: &mut Vec<J>, r: &mut rand::rngs::StdRng| {
            let c = &base[f];
            let data = c.bytes(r);
            let p = c.params();
            write(path(f, "origin"), &data).unwrap();
            e.push(J::O(vec![("f", s("create")), ("p", n(f + 1)), ("d", hexj(&data))]));
            let ok = catch(|| copy_and_pad(&path(f, "origin"), &path(f, "sealed"), p.data_l, p.unit_l)).is_some();
            e.push(J::O(vec![("f", s("pad")), ("p", n(f + 1)), ("ok", J::B(ok)), ("r", file(&path(f, "sealed")))]));
        };
        renew(0, &mut e, &mut r);
        renew(1, &mut e, &mut r);
        let name = ["a", "b"];
        for step in line.split("},") {
            let (a, f, v): (String, usize, usize) = (get(step, "a"), get(step, "p").parse().unwrap(), get(step, "v").parse().unwrap());
            let f = f - 1;
            let sp = path(f, "sealed");
            match a.as_str() {
                "seal" => {
                    let c = over(f, v - 1);
                    let ok = catch(|| seal(&c.params(), &sp, &c.key(), &ivs[v - 1])).is_some();
                    stack[f].push(v - 1);
                    e.push(J::O(vec![("f", s("seal")), ("p", n(f + 1)), ("with", s(name[v - 1])), ("ok", J::B(ok)), ("r", file(&sp))]));
                }
                "unseal" => {
                    let v = stack[f].pop().unwrap();
                    let c = over(f, v);
                    let ok = catch(|| unseal(&c.params(), &sp, &c.key(), &ivs[v])).is_some();
                    e.push(J::O(vec![("f", s("unseal")), ("p", n(f + 1)), ("with", s(name[v])), ("ok", J::B(ok)), ("r", file(&sp))]));
                    if stack[f].is_empty() {
                        let p = c.params();
                        let ok = catch(|| copy_and_compress(&sp, &path(f, "out"), p.data_l, p.unit_l, p.unit_pl)).is_some();
                        e.push(J::O(vec![("f", s("compress")), ("p", n(f + 1)), ("ok", J::B(ok)), ("r", file(&path(f, "out")))]));
                    }
                }
                _ => {
                    stack[f].clear();
                    renew(f, &mut e, &mut r);
                }
            }
        }
        o.session(&format!("history {} of the specification", h), e);
    }
    o.done();
}
