//! C19: generation, saving and loading of sealing parameters; presets.
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::{common::gen_posdata, postorage::*};
use rand::{rngs::StdRng, Rng};
use rug::{integer::Order, Integer};
use util::*;

fn kiv(e: Vec<(&'static str, J)>, x: &Option<(Integer, Vec<u8>)>) -> J {
    let mut e = e;
    match x {
        Some((k, v)) => e.extend([("ok", J::B(true)), ("key", s(k.to_string_radix(16))), ("iv", hexj(v))]),
        None => e.extend([("ok", J::B(false)), ("key", s("0")), ("iv", s(""))]),
    }
    J::O(e)
}
/// a history over two paths of the given directory
fn history(h: usize, dir: &str, suffix: &str, r: &mut StdRng) -> (String, Vec<J>) {
    let mut e = vec![];
    let paths = ["a", "b"];
    let full: Vec<String> = paths.iter().map(|p| format!("{}/{}{}", dir, p, suffix)).collect();
    for (i, p) in full.iter().enumerate() {
        let _ = std::fs::remove_file(p);
        let old = match (h + i) % 4 { 0 => None, 1 => Some(0), 2 => Some(10), _ => Some(5000) };
        if let Some(k) = old {
            put(p, rand_bytes(r, k)).unwrap();
            e.push(J::O(vec![("f", s("old")), ("path", s(paths[i])), ("len", n(k))]));
        }
    }
    let mut saved = [false; 2];
    for step in 0..12 {
        let i = r.gen_range(0..2);
        if !saved[i] || r.gen_bool(0.5) {
            let (k, v) = match r.gen_range(0..5) {
                0 | 1 => {
                    let (k, mut v) = prepare_params([64, 128, 256][r.gen_range(0..3)]);
                    if step % 3 == 0 { v = some_bytes(r, 128, step); }
                    (k, v)
                }
                2 => (Integer::from(r.gen_range(0u32..300)), vec![]),
                3 => (Integer::from_digits(&rand_bytes(r, 300), Order::Lsf), { let l = r.gen_range(0..400); rand_bytes(r, l) }),
                _ => (Integer::from_digits(&rand_bytes(r, 17), Order::Lsf), vec![255; 128]),
            };
            let ok = catch(|| save_data(&full[i], &k, &v)).is_some();
            saved[i] = true;
            e.push(J::O(vec![("f", s("save")), ("path", s(paths[i])), ("ok", J::B(ok)), ("key", s(k.to_string_radix(16))), ("iv", hexj(&v))]));
        }
        for j in 0..2 {
            if saved[j] {
                e.push(kiv(vec![("f", s("load")), ("path", s(paths[j]))], &catch(|| load_data(&full[j]))));
            }
        }
    }
    (format!("saving history {}", h), e)
}
fn main() {
    if asked().is_some() {
        return answer([64usize, 128, 256].iter().map(|&w| kiv(vec![("f", s("params")), ("w", n(w))], &catch(|| prepare_params(w)))).collect());
    }
    let mut o = Out::new();
    let mut r = rng(19);
    for w in [64usize, 128, 256] {
        o.note(format!("parameters for units of {} bytes", w));
        let mut e = vec![];
        for _ in 0..600 {
            e.push(kiv(vec![("f", s("params")), ("w", n(w))], &catch(|| prepare_params(w))));
        }
        e.push(J::O(vec![("f", s("spread"))]));
        o.session(&format!("parameters for units of {} bytes", w), e);
    }
    o.note("many vectors");
    let v: Vec<J> = (0..q(10000, 40000)).map(|k| s(catch(|| prepare_params([64, 128, 256][k % 3])).map(|x| hex(&x.1)).unwrap_or_default())).collect();
    o.session("many vectors", vec![J::O(vec![("f", s("vectors")), ("vals", J::A(v))])]);
    o.note("parameters of several processes");
    o.session("parameters of several processes", elsewhere(4, "params"));
    o.note("presets");
    let mut e = vec![];
    for (l, mb) in [(1usize, 1usize), (4, 4), (16, 16), (64, 64)] {
        let g = catch(|| gen_posdata(l));
        let ok = g.is_some();
        let g = g.map(|p| [p.data_l, p.unit_l, p.block_l, p.big_block_l, p.unit_pl, p.block_pl, p.big_block_pl]).unwrap_or([0; 7]);
        let names = ["data_l", "unit_l", "block_l", "big_block_l", "unit_pl", "block_pl", "big_block_pl"];
        e.push(J::O(vec![("f", s("preset")), ("mb", n(mb)), ("ok", J::B(ok)), ("g", J::O(names.iter().zip(g.iter()).map(|(a, b)| (*a, n(*b))).collect()))]));
    }
    o.session("presets", e);
    // histories of saving and loading over two paths with any earlier content
    let d = scratch();
    for h in 0..q(40, 300) {
        o.note(format!("saving history {}", h));
        let (name, e) = history(h, &d, "", &mut r);
        o.session(&name, e);
    }
    o.note("several saving histories at the same time in one directory");
    for b in 0..q(8u64, 40) {
        o.together(8, |i| {
            let mut r = rng(1900 + 100 * b + i as u64);
            vec![history(b as usize + i, &d, &i.to_string(), &mut r)]
        });
    }
    // every history of two files from MC_PubLife
    let sc = std::env::var("SCENARIOS").ok().map(|p| std::fs::read_to_string(p).unwrap()).unwrap_or_default();
    let keys: Vec<(Integer, Vec<u8>)> = [64, 128, 256].iter().map(|w| prepare_params(*w)).collect();
    for (h, line) in sc.lines().enumerate() {
        let get = |o: &str, k: &str| -> String {
            let i = o.find(&format!("\"{}\":", k)).expect("field") + k.len() + 3;
            o[i..].trim_start_matches('"').split(|c| c == '"' || c == ',' || c == '}').next().unwrap().to_string()
        };
        let paths = ["a", "b"];
        let full: Vec<String> = paths.iter().map(|p| format!("{}/life-{}", scratch(), p)).collect();
        for p in &full {
            let _ = std::fs::remove_file(p);
        }
        // three values of different sizes, dealt differently each time
        let mut vals = vec![
            keys[h % 3].clone(),
            (Integer::from(h), vec![h as u8; h % 5]),
            (keys[(h / 3) % 3].0.clone(), { let l = 100 + h % 60; some_bytes(&mut r, l, h) }),
        ];
        vals.rotate_left(h % 3);
        let mut e = vec![];
        for step in line.split("},") {
            let (a, i, v): (String, usize, usize) = (get(step, "a"), get(step, "p").parse().unwrap(), get(step, "v").parse().unwrap());
            let i = i - 1;
            match a.as_str() {
                "save" => {
                    let (k, v) = &vals[v - 1];
                    let ok = catch(|| save_data(&full[i], k, v)).is_some();
                    e.push(J::O(vec![("f", s("save")), ("path", s(paths[i])), ("ok", J::B(ok)), ("key", s(k.to_string_radix(16))), ("iv", hexj(v))]));
                }
                "load" => e.push(kiv(vec![("f", s("load")), ("path", s(paths[i]))], &catch(|| load_data(&full[i])))),
                "junk" => {
                    put(&full[i], rand_bytes(&mut r, v)).unwrap();
                    e.push(J::O(vec![("f", s("old")), ("path", s(paths[i])), ("len", n(v))]));
                }
                "remove" => {
                    let _ = std::fs::remove_file(&full[i]);
                    e.push(J::O(vec![("f", s("old")), ("path", s(paths[i])), ("len", n(0))]));
                }
                _ => {
                    // a path that could not be saved to has nothing to copy; the save was already judged
                    let _ = std::fs::copy(&full[1 - i], &full[i]);
                    e.push(J::O(vec![("f", s("copy")), ("path", s(paths[i])), ("from", s(paths[1 - i]))]));
                }
            }
        }
        if h % 200 == 0 {
            o.note(format!("history {} of the specification", h));
        }
        o.session(&format!("history {} of the specification", h), e);
    }
    o.done();
}
