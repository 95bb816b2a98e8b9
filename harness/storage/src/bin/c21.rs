//! C21: lives of stored files, as enumerated by MC_Audit (SCENARIOS), and whole sessions.
#[path = "../../../common/seal_util.rs"]
mod seal_util;
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::postorage::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use seal_util::*;
use std::fs::{read, OpenOptions};
use util::*;

fn file(p: &str) -> J {
    s(read(p).map(|x| hex(&x)).unwrap_or_default())
}
fn params_j(p: &str) -> J {
    let x = catch(|| load_data(p));
    match x {
        Some((k, v)) => J::O(vec![("key", s(k.to_string_radix(16))), ("iv", hexj(&v))]),
        None => J::O(vec![("key", s("")), ("iv", s(""))]),
    }
}
#[derive(Clone, Debug)]
struct Act {
    a: String,
    b: usize,
    want: String,
}
/// the scenario file is written by the specification; its form is fixed
fn scenario(line: &str) -> Vec<Act> {
    let get = |o: &str, k: &str| -> String {
        let i = o.find(&format!("\"{}\":", k)).expect("field") + k.len() + 3;
        o[i..].trim_start_matches('"').split(|c| c == '"' || c == ',' || c == '}').next().unwrap().to_string()
    };
    line.split("},").map(|o| Act { a: get(o, "a"), b: get(o, "b").parse().unwrap(), want: get(o, "want") }).collect()
}
struct L {
    c: Conf,
    org: String,
    sea: String,
    res: String,
    pubd: String,
    dir: String,
}
impl L {
    fn flip(&self, p: &str, block: usize, len: usize, unit: usize, r: &mut StdRng) {
        let mut d = read(p).unwrap();
        // anywhere in the block, but so that a sealed unit stays below the key
        let mut at;
        loop {
            at = r.gen_range(0..len);
            if at % unit != unit - 1 {
                break;
            }
        }
        d[block * len + at] ^= 1 << r.gen_range(0..8);
        put(p, d).unwrap();
    }
    fn run(&self, sc: &[Act], k: usize, r: &mut StdRng) -> Vec<J> {
        let c = &self.c;
        let p = c.params();
        let mut e = vec![];
        let mut f = vec![("f", s("begin"))];
        f.extend(c.fields());
        e.push(J::O(f));
        let mut v: Vec<Vec<u8>> = (0..3).map(|_| { let mut x = c.bytes(r); if c.data != 0 { x[0] ^= r.gen::<u8>() } x }).collect();
        v[2][7] ^= 0x40;
        if v[1] == v[2] {
            v[2][3] ^= 1;
        }
        let origin = |d: &[u8]| { put(&self.org, d).unwrap(); J::O(vec![("f", s("origin")), ("org", hexj(d))]) };
        e.push(origin(&v[1]));
        let mut backup = vec![];
        for a in sc {
            let x = match a.a.as_str() {
                "new" => origin(&v[a.b]),
                "origin" => {
                    self.flip(&self.org, a.b, p.block_l, usize::MAX, r);
                    J::O(vec![("f", s("origin")), ("org", file(&self.org))])
                }
                "seal" => {
                    let log = |n: &str| OpenOptions::new().read(true).write(true).append(true).create(true).open(format!("{}/{}", self.dir, n)).unwrap();
                    let save = (k + a.b) % 2 == 0;
                    // by this process, or by another one
                    let ok = if k % 5 == 1 {
                        let (l1, l2) = (format!("{}/run", self.dir), format!("{}/stat", self.dir));
                        by_another("whole", &p, &[&self.org, &self.sea, &self.res, &self.pubd, &l1, &l2, &save.to_string(), &(a.b == 1).to_string()])
                    } else {
                        catch(|| seal_and_unseal(&p, &self.org, &self.sea, &self.res, &self.pubd, &mut log("run"), save, a.b == 1, &mut log("stat"))).is_some()
                    };
                    J::O(vec![("f", s("seal")), ("unseal", J::B(a.b == 1)), ("ok", J::B(ok)), ("sea", file(&self.sea)), ("res", file(&self.res)), ("pub", params_j(&self.pubd))])
                }
                "sealed" => {
                    backup = read(&self.sea).unwrap();
                    self.flip(&self.sea, a.b, p.block_pl, p.unit_pl, r);
                    J::O(vec![("f", s("alter")), ("file", s("sealed")), ("sea", file(&self.sea))])
                }
                "heal" => {
                    put(&self.sea, &backup).unwrap();
                    J::O(vec![("f", s("heal")), ("sea", file(&self.sea))])
                }
                "restored" => {
                    self.flip(&self.res, a.b, p.block_l, usize::MAX, r);
                    J::O(vec![("f", s("alter")), ("file", s("restored")), ("res", file(&self.res))])
                }
                "params" => {
                    let iv = rand_bytes(r, 128);
                    let _ = catch(|| save_data(&self.pubd, &c.key(), &iv));
                    J::O(vec![("f", s("params")), ("pub", params_j(&self.pubd))])
                }
                "audit" => {
                    // none, or any number of workers
                    let par = if a.b == 0 { 0 } else { [a.b, 1, 9, 2, 16, 10, 3, 40, 8, 5][k % 10] };
                    let ok = if k % 5 == 3 {
                        by_another("audit", &p, &[&self.pubd, &self.org, &self.sea, &par.to_string()])
                    } else {
                        catch(|| test_unseal_single_and_verify(&p, &self.pubd, &self.org, &self.sea, par)).is_some()
                    };
                    J::O(vec![("f", s("audit")), ("par", n(par)), ("want", s(&*a.want)), ("accept", J::B(ok))])
                }
                "merkle" => {
                    let cnt = [1, 2, c.nb, 5][k % 4];
                    let ok = if k % 5 == 3 {
                        by_another("merkle", &p, &[&self.org, &self.res, &cnt.to_string()])
                    } else {
                        catch(|| merkle_tree_proof(&self.org, &self.res, p.data_l, p.block_l, cnt)).is_some()
                    };
                    J::O(vec![("f", s("merkle")), ("cnt", n(cnt)), ("want", s(&*a.want)), ("accept", J::B(ok))])
                }
                x => panic!("unknown action {}", x),
            };
            e.push(x);
        }
        e
    }
}
fn life(k: usize, line: &str, base: &[Conf], r: &mut StdRng) -> (String, Vec<J>) {
    let mut sc = scenario(line);
    let mut c = base[r.gen_range(0..base.len())].clone();
    // the last one of the specification stands for any that is not audited
    c.nb = [12, 11, 12, 16, 12, 25, 13, 12, 40, 12, 70][k % 11];
    for a in sc.iter_mut() {
        if ["origin", "sealed", "restored"].contains(&a.a.as_str()) {
            a.b = match a.b {
                0 => r.gen_range(0..10),
                11 => [c.nb - 1, r.gen_range(10..c.nb)][k % 2],
                x => x,
            };
        }
    }
    c.nu = [1, 2, 3, 1][k % 4];
    c.pl = [64, 64, 64, 64, 64, 64, 128, 64, 64, 256][k % 10];
    c.rounds = [1, 1, 2][k % 3];
    c.vr = [1, 2, 1, 3][k % 4];
    c.small_key = false;
    c.data = [0, 0, 1, 2, 3, 4][k % 6];
    let d = dir();
    let name = format!("{}: {}", c.name(), sc.iter().map(|a| format!("{} {}", a.a, a.b)).collect::<Vec<_>>().join(", "));
    let l = L { c, org: format!("{}/o", d), sea: format!("{}/s", d), res: format!("{}/r", d), pubd: format!("{}/p", d), dir: d };
    let e = l.run(&sc, k, r);
    (name, e)
}
fn main() {
    if work() {
        return;
    }
    let mut o = Out::new();
    let mut r = rng(21);
    let text = std::fs::read_to_string(std::env::var("SCENARIOS").expect("SCENARIOS")).unwrap();
    let mut all: Vec<&str> = text.lines().collect();
    all.sort();
    all.shuffle(&mut r);
    all.truncate(q(420, 6000));
    let base = confs(1000);
    for (k, line) in all.iter().enumerate() {
        o.note(line);
        let (name, e) = life(k, line, &base, &mut r);
        o.session(&name, e);
    }
    o.note("lives of several files at the same time");
    for b in 0..q(6u64, 60) {
        o.together(6, |i| {
            let mut r = rng(2100 + 100 * b + i as u64);
            let k = b as usize * 3 + if b % 2 == 0 { 0 } else { i };
            (0..2).map(|_| life(k, all[r.gen_range(0..all.len())], &base, &mut r)).collect()
        });
    }
    // many short audits at the same time, some of altered files
    for b in 0..q(3u64, 20) {
        o.together(8, |i| {
            let mut r = rng(2180 + 100 * b + i as u64);
            let c = Conf { nb: 12, nu: 1, pl: 64, ml: 1, cl: 1, ms: 1, cs: 1, rounds: 1, vr: 1, small_key: false, data: 0 };
            let act = |a: &str, b: usize| Act { a: a.to_string(), b, want: String::new() };
            let mut sc = vec![act("seal", 0)];
            for j in 0..24 {
                sc.push(act("audit", 0));
                if j == 12 && i % 3 == 0 {
                    sc.push(act("sealed", 3));
                }
            }
            let d = dir();
            let l = L { c, org: format!("{}/o", d), sea: format!("{}/s", d), res: format!("{}/r", d), pubd: format!("{}/p", d), dir: d };
            vec![("many audits".to_string(), l.run(&sc, i, &mut r))]
        });
    }
    // whole sessions with the paths of the program, below a directory of our own
    let d = dir();
    std::env::set_current_dir(&d).unwrap();
    std::fs::create_dir_all("src/proof_of_storage/data").unwrap();
    let at = |x: [&str; 4]| x.join("/");
    for k in 0..q(12, 60) {
        let mut c = base[r.gen_range(0..base.len())].clone();
        c.nb = [12, 10, 14][k % 3];
        c.nu = 1 + k % 3;
        c.pl = [64, 128, 64][k % 3];
        c.rounds = 1 + k % 2;
        c.vr = 1 + k % 3;
        c.small_key = false;
        let mut f = vec![("f", s("begin"))];
        f.extend(c.fields());
        let mut e = vec![J::O(f)];
        o.note(format!("session {}", c.name()));
        // seal, unseal, leaves, single
        let steps: &[(bool, bool, bool, bool)] = match k % 4 {
            0 => &[(true, false, false, false), (false, false, false, true), (false, false, false, true)],
            1 => &[(true, true, true, false), (false, false, true, false), (true, false, false, true)],
            2 => &[(true, false, false, true), (true, true, true, false)],
            _ => &[(true, true, false, true), (true, false, false, true)],
        };
        for (i, &(seal, unseal, chal, single)) in steps.iter().enumerate() {
            let mut p = c.params();
            p.leaves_to_prove_count = 1 + (k + i) % c.nb;
            let par = [0, 4, 1, 16, 9, 2, 64, 12, 3, 33][(k + i) % 10];
            let save = (k + i) % 2 == 0;
            // each step by this process, or by one of its own
            let ok = if k % 2 == 1 {
                by_another("session", &p, &[save, seal, unseal, chal, single].map(|x| if x { "true" } else { "false" }).iter().copied().chain([par.to_string().as_str()]).collect::<Vec<_>>())
            } else {
                catch(|| test_postorage(p.clone(), save, seal, unseal, chal, single, par)).is_some()
            };
            e.push(J::O(vec![
                ("f", s("session")), ("seal", J::B(seal)), ("unseal", J::B(unseal)), ("chal", J::B(chal)), ("single", J::B(single)), ("par", n(par)), ("ok", J::B(ok)),
                ("org", file(&at(ORIGIN_DATA_DIR))), ("sea", file(&at(SEALED_DATA_DIR))), ("res", file(&at(UNSEALED_DATA_DIR))), ("pub", params_j(&at(TARGET_DIR))),
            ]));
        }
        o.session(&format!("session {}", c.name()), e);
    }
    std::env::set_current_dir("/").unwrap();
    o.done();
}
