//! Configurations, files and keys for the sealing drivers.
#![allow(dead_code)]
use crate::util::*;
use proof_of_storage::proof_of_storage::{common::gen_posdata, postorage::PosPara};
use proof_of_storage::vde::rug_sloth::{P_1024, P_2048, P_512};
use rand::{rngs::StdRng, Rng};
use rug::Integer;
use std::str::FromStr;

#[derive(Clone, Debug)]
pub struct Conf {
    pub nb: usize,
    pub nu: usize,
    pub pl: usize,
    pub ml: usize,
    pub cl: usize,
    pub ms: usize,
    pub cs: usize,
    pub rounds: usize,
    pub vr: usize,
    pub small_key: bool,
    pub data: usize,
}
impl Conf {
    pub fn name(&self) -> String {
        format!(
            "{} blocks of {} units of {}, long mode {} count {}, short mode {} count {}, {} seal rounds, {} delay rounds, data {}{}",
            self.nb, self.nu, self.pl, self.ml, self.cl, self.ms, self.cs, self.rounds, self.vr, self.data, if self.small_key { ", smallest key" } else { "" }
        )
    }
    pub fn params(&self) -> PosPara {
        let mut p = gen_posdata(1);
        let ul = self.pl - 1;
        p.data_l = ul * self.nu * self.nb;
        p.unit_l = ul;
        p.block_l = ul * self.nu;
        p.big_block_l = p.data_l;
        p.unit_pl = self.pl;
        p.block_pl = self.pl * self.nu;
        p.big_block_pl = self.pl * self.nu * self.nb;
        p.seal_rounds = self.rounds;
        p.vde_rounds = self.vr;
        // whatever it is called, there is one delay function
        p.vde_mode = if self.cs == 4 { "vde" } else if self.cs == 16 { "" } else { "sloth" }.to_string();
        p.mode_l = self.ml;
        p.cnt_l = self.cl;
        p.mode_s = self.ms;
        p.cnt_s = self.cs;
        p
    }
    pub fn key(&self) -> Integer {
        if self.small_key {
            return smallest(self.pl);
        }
        Integer::from_str(match self.pl { 64 => P_512, 128 => P_1024, _ => P_2048 }).unwrap()
    }
    pub fn fields(&self) -> Vec<(&'static str, J)> {
        vec![
            ("nb", n(self.nb)), ("nu", n(self.nu)), ("pl", n(self.pl)), ("ml", n(self.ml)), ("cl", n(self.cl)), ("ms", n(self.ms)), ("cs", n(self.cs)),
            ("rounds", n(self.rounds)), ("vr", n(self.vr)), ("key", s(self.key().to_string_radix(16))),
        ]
    }
    /// original bytes
    pub fn bytes(&self, r: &mut StdRng) -> Vec<u8> {
        let len = (self.pl - 1) * self.nu * self.nb;
        match self.data {
            0 => rand_bytes(r, len),
            1 => vec![0; len],
            2 => vec![255; len],
            3 => (0..len).map(|i| (i / (self.pl - 1)) as u8).collect(), // constant units
            4 => (0..len).map(|i| (i % ((self.pl - 1) * self.nu)) as u8).collect(), // equal blocks
            _ => some_bytes(r, len, 0),
        }
    }
}
/// the smallest valid modulus for a unit length: a prime = 3 mod 4 above every padded unit
pub fn smallest(pl: usize) -> Integer {
    let mut p: Integer = (Integer::from(1) << (8 * (pl as u32 - 1))) + 3;
    while p.is_probably_prime(30) == rug::integer::IsPrime::No {
        p += 4;
    }
    p
}
pub fn confs(limit_units: usize) -> Vec<Conf> {
    let shapes = [(3, 4), (4, 3), (1, 1), (1, 5), (5, 1), (12, 3), (2, 12), (25, 2), (7, 7), (2, 2), (3, 20)];
    let cls = [1, 0, 3, 20, 2, 40];
    let css = [1, 4, 0, 10, 40, 2, 16];
    let rounds = [1, 2, 3, 2, 1, 0];
    let vrs = [1, 2, 3, 0, 1];
    let pls = [64, 64, 128, 64, 256, 64, 64];
    let mut res = vec![];
    let mut k = 0;
    for rep in 0..q(3, 12) {
        for ml in [0usize, 1, 2, 3, 9] {
            for ms in [0usize, 1, 2, 7] {
                let (nb, nu) = shapes[(k + rep) % shapes.len()];
                res.push(Conf {
                    nb, nu, pl: pls[(k * 3 + rep) % pls.len()], ml, cl: cls[(k / 2 + rep) % cls.len()], ms, cs: css[(k + 2 * rep) % css.len()],
                    rounds: rounds[(k + rep) % rounds.len()], vr: vrs[(k / 3 + rep) % vrs.len()], small_key: k % 5 == 2, data: k % 5,
                });
                k += 1;
            }
        }
    }
    let base = Conf { nb: 3, nu: 4, pl: 64, ml: 0, cl: 0, ms: 0, cs: 10, rounds: 2, vr: 2, small_key: false, data: 0 };
    // what the presets use, at a smaller size; more than ten, twenty, 256 blocks or units
    res.push(Conf { nb: 23, nu: 6, ..base.clone() });
    res.push(Conf { nb: 35, nu: 2, cl: 0, cs: 3, rounds: 1, ..base.clone() });
    res.push(Conf { nb: 260, nu: 1, cl: 0, cs: 3, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 200, nu: 1, cl: 0, cs: 2, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 420, nu: 1, cl: 0, cs: 2, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 258, nu: 1, cl: 5, cs: 3, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 2, nu: 260, cl: 2, cs: 40, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 2, nu: 257, cl: 1, ms: 1, cs: 6, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 40, nu: 2, ml: 3, ms: 1, cs: 3, rounds: 1, ..base.clone() });
    res.push(Conf { nb: 66, nu: 1, ml: 2, cl: 80, ms: 2, cs: 80, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 20, nu: 3, ml: 1, cl: 5, ms: 1, cs: 2, ..base.clone() });
    res.push(Conf { nb: 9, nu: 33, cl: 40, cs: 40, rounds: 1, vr: 1, ..base.clone() });
    // blocks as long as those of the larger presets
    res.push(Conf { nb: 1, nu: 1030, cs: 10, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 2, nu: 1030, cs: 10, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 2, nu: 1026, ml: 1, cl: 1, ms: 1, cs: 12, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 1, nu: 4100, cs: 10, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 1, nu: 4100, ms: 2, cs: 13, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 300, nu: 1, ml: 2, cl: 9, cs: 3, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 1030, nu: 1, cl: 2, cs: 3, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 530, nu: 1, ml: 3, cs: 3, rounds: 1, vr: 1, ..base.clone() });
    // many rounds
    for (k, &x) in [4usize, 5, 6, 8, 9, 11, 16, 17, 21, 33].iter().enumerate() {
        res.push(Conf { nb: 2 + k % 2, nu: 2 + k % 3, ml: k % 4, cl: 1, ms: k % 3, cs: 2, rounds: x, vr: 1, ..base.clone() });
        res.push(Conf { nb: 2, nu: 2, ml: 1 - k % 2, cl: 1, ms: k % 2, cs: 1, rounds: 1, vr: 2 * x + k % 2, pl: [64, 128][k % 2], ..base.clone() });
    }
    res.push(Conf { nb: 2, nu: 2, cl: 1, cs: 1, rounds: 2, vr: 10, ..base.clone() });
    res.push(Conf { nb: 2, nu: 1, cl: 1, cs: 1, rounds: 65, vr: 1, ..base.clone() });
    res.push(Conf { nb: 1, nu: 2, cl: 1, cs: 1, rounds: 1, vr: 130, ..base.clone() });
    // many dependencies of each kind
    res.push(Conf { nb: 40, nu: 2, ml: 1, cl: 18, ms: 1, cs: 1, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 72, nu: 1, ml: 1, cl: 35, ms: 1, cs: 1, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 40, nu: 2, cl: 32, cs: 1, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 2, nu: 70, cl: 1, ms: 1, cs: 66, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 40, nu: 1, pl: 256, ml: 1, cl: 18, ms: 1, cs: 1, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 1, nu: 80, pl: 256, cl: 1, ms: 1, cs: 66, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 300, nu: 1, ml: 1, cl: 150, cs: 1, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 310, nu: 1, cl: 250, cs: 1, rounds: 1, vr: 1, ..base.clone() });
    res.push(Conf { nb: 2, nu: 140, cl: 1, cs: 64, rounds: 1, vr: 1, ..base.clone() });
    // other unit lengths, down to units shorter than a hash
    for (k, &pl) in [2usize, 8, 20, 31, 32, 33, 34, 65, 100, 200, 300].iter().enumerate() {
        res.push(Conf { nb: 3, nu: 3, pl, ml: k % 4, cl: 2, ms: k % 3, cs: 2, rounds: 1 + k % 2, vr: 1 + k % 3, small_key: true, data: k % 5, ..base.clone() });
    }
    res.retain(|c| c.nb * c.nu <= limit_units);
    res
}
pub fn units(d: &[u8], c: &Conf) -> Vec<Vec<Vec<u8>>> {
    d.chunks(c.pl * c.nu).map(|b| b.chunks(c.pl).map(|u| u.to_vec()).collect()).collect()
}
pub fn uj(b: &[Vec<u8>]) -> J {
    J::A(b.iter().map(|u| hexj(u)).collect())
}
pub fn dir() -> String {
    let d = format!("{}/s", scratch());
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub fn iv(r: &mut StdRng, k: usize) -> Vec<u8> {
    match k % 4 {
        0 | 1 => rand_bytes(r, 128),
        2 => vec![0; 128],
        _ => { let l = if k % 8 == 3 { r.gen_range(1..128) } else { [0, 129, 300, 1500][r.gen_range(0..4)] }; rand_bytes(r, l) }
    }
}

/// Work done by another process, started for it: what a restart, or the other party, would do.
fn params_text(p: &PosPara) -> String {
    [p.data_l, p.unit_l, p.block_l, p.big_block_l, p.unit_pl, p.block_pl, p.big_block_pl, p.seal_rounds, p.vde_rounds, p.mode_l, p.cnt_l, p.mode_s, p.cnt_s, p.leaves_to_prove_count]
        .iter().map(|x| x.to_string()).chain([p.vde_mode.clone()]).collect::<Vec<_>>().join(",")
}
fn params_of(t: &str) -> PosPara {
    let f: Vec<&str> = t.split(',').collect();
    let x = |i: usize| f[i].parse::<usize>().unwrap();
    PosPara {
        data_l: x(0), unit_l: x(1), block_l: x(2), big_block_l: x(3), unit_pl: x(4), block_pl: x(5), big_block_pl: x(6), seal_rounds: x(7), vde_rounds: x(8),
        mode_l: x(9), cnt_l: x(10), mode_s: x(11), cnt_s: x(12), leaves_to_prove_count: x(13), vde_mode: f[14].to_string(),
    }
}
/// `what` with the given arguments, in a process of its own; whether it went through
pub fn by_another(what: &str, p: &PosPara, args: &[&str]) -> bool {
    let mut t = vec![what.to_string(), params_text(p)];
    t.extend(args.iter().map(|x| x.to_string()));
    let r = elsewhere(1, &t.join("|"));
    let mut o = String::new();
    r[0].write(&mut o);
    o == "true"
}
pub fn seal_by_another(p: &PosPara, path: &str, key: &Integer, iv: &[u8]) -> bool {
    by_another("seal", p, &[path, &key.to_string_radix(16), &hex(iv)])
}
pub fn unseal_by_another(p: &PosPara, path: &str, key: &Integer, iv: &[u8]) -> bool {
    by_another("unseal", p, &[path, &key.to_string_radix(16), &hex(iv)])
}
/// Does what this process was started for, if it was started for something.
pub fn work() -> bool {
    use proof_of_storage::proof_of_storage::{postorage::*, prover::*};
    let t = match asked() { Some(t) => t, None => return false };
    let a: Vec<&str> = t.split('|').collect();
    let p = params_of(a[1]);
    let unhex = |x: &str| -> Vec<u8> { (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let yes = |i: usize| a[i] == "true";
    let log = |n: &str| std::fs::OpenOptions::new().read(true).write(true).append(true).create(true).open(n).unwrap();
    let ok = match a[0] {
        "seal" => { let (k, v) = (Integer::from_str_radix(a[3], 16).unwrap(), unhex(a[4])); catch(|| { seal(&p, a[2], &k, &v); }) }
        "unseal" => { let (k, v) = (Integer::from_str_radix(a[3], 16).unwrap(), unhex(a[4])); catch(|| { unseal(&p, a[2], &k, &v); }) }
        "whole" => catch(|| seal_and_unseal(&p, a[2], a[3], a[4], a[5], &mut log(a[6]), yes(8), yes(9), &mut log(a[7]))),
        "audit" => catch(|| test_unseal_single_and_verify(&p, a[2], a[3], a[4], a[5].parse().unwrap())),
        "merkle" => catch(|| merkle_tree_proof(a[2], a[3], p.data_l, p.block_l, a[4].parse().unwrap())),
        "session" => catch(|| test_postorage(p.clone(), yes(2), yes(3), yes(4), yes(5), yes(6), a[7].parse().unwrap())),
        x => panic!("unknown work {}", x),
    };
    answer(vec![J::B(ok.is_some())]);
    true
}
