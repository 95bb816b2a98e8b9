//! Histories of one space as enumerated by MC_SpaceLife (SCENARIOS).  JUDGE names the calls whose results are judged;
//! the others are recorded as what the environment did to the file.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/space_util.rs"]
mod space_util;
#[path = "../../../common/util.rs"]
mod util;
use ark_bls12_381::Fr;
use fld::*;
use proof_of_space::proof_of_space::pospace::RESPONSE_COUNT;
use proof_of_space::proof_of_space::prover::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use space_util::*;
use util::*;

struct Act {
    a: String,
    n: usize,
    k: usize,
    want: String,
}
fn scenario(line: &str) -> Vec<Act> {
    let get = |o: &str, k: &str| -> String {
        let i = o.find(&format!("\"{}\":", k)).expect("field") + k.len() + 3;
        o[i..].trim_start_matches('"').split(|c| c == '"' || c == ',' || c == '}').next().unwrap().to_string()
    };
    line.split("},").map(|o| Act { a: get(o, "a"), n: get(o, "n").parse().unwrap(), k: get(o, "k").parse().unwrap(), want: get(o, "want") }).collect()
}
fn life(i: usize, line: &str, judge: &str, r: &mut StdRng) -> (String, Vec<J>) {
    let p = path("space");
    let size = |k: usize| ((k + 1) * (1 << k) + 7) / 8;
    let sc = scenario(line);
    // abstract sizes 2 and 5 stand for any two sizes
    let a = r.gen_range(1..=3);
    let b = r.gen_range(a.max(2) + 1..=if i % 10 == 0 { 8 } else { 6 });
    let sz = |x: usize| if x == 2 { a } else { b };
    let c = df_consts(r, i % 3);
    let h = hash_consts(r, i % 3);
    let keys: Vec<Fr> = (0..3).map(|_| frand(r)).collect();
    let m: Fr = special(r, i % 6);
    let name = format!("n={} or {}: {}", a, b, sc.iter().map(|x| format!("{} {} {}", x.a, x.n, x.k)).collect::<Vec<_>>().join(", "));
    let mut e = vec![env(&p, None)];
    for x in &sc {
        let k = sz(x.n);
        let judged = x.a == judge;
        let ev = match x.a.as_str() {
            "prepare" if judged => prepare(&p, k),
            "prepare" => { catch(|| prepare_space(&p, k)); let d = read(&p); env(&p, Some(d)) }
            "dirt" => { let d = rand_bytes(r, size(k) + x.k - 1); env(&p, Some(d)) }
            "remove" => env(&p, None),
            "mark" if judged => mark(&p, keys[x.k], m, &c, k),
            "mark" => mark_env(&p, keys[x.k], m, &c, k),
            "respond" => {
                let top = 1usize << k;
                let mut chal: Vec<usize> = (0..top).collect();
                chal.shuffle(r);
                chal.truncate(RESPONSE_COUNT - 1);
                for _ in 0..r.gen_range(0..2 * RESPONSE_COUNT) {
                    chal.push(r.gen_range(0..top));
                }
                if judged {
                    respond_want(&p, &chal, keys[x.k], &h, k, &x.want, m, &c)
                } else {
                    catch(|| response_1(&p, &chal, keys[x.k], &h, k));
                    let d = read(&p);
                    env(&p, Some(d))
                }
            }
            y => panic!("unknown action {}", y),
        };
        e.push(ev);
    }
    (name, e)
}
fn main() {
    let mut o = Out::new();
    let mut r = rng(23);
    let judge = std::env::var("JUDGE").unwrap();
    let text = std::fs::read_to_string(std::env::var("SCENARIOS").expect("SCENARIOS")).unwrap();
    let mut all: Vec<&str> = text.lines().filter(|l| l.contains(&format!("\"a\":\"{}\"", judge))).collect();
    all.sort();
    all.shuffle(&mut r);
    all.truncate(q(250, 4000));
    for (i, line) in all.iter().enumerate() {
        o.note(line);
        let (name, e) = life(i, line, &judge, &mut r);
        o.session(&name, e);
    }
    // several spaces at the same time
    o.note("several spaces at the same time");
    for b in 0..q(12, 60) {
        o.together(8, |i| {
            let mut r = rng(2300 + 100 * b + i as u64);
            (0..4).map(|_| life(i, all[r.gen_range(0..all.len())], &judge, &mut r)).collect()
        });
    }
    o.done();
}
