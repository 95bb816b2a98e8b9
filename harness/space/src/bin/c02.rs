//! C02: preparing space over every kind of previous content, and in histories.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/space_util.rs"]
mod space_util;
#[path = "../../../common/util.rs"]
mod util;
#[allow(unused_imports)]
use fld::*;
use rand::Rng;
use space_util::*;
use util::*;

use proof_of_space::proof_of_space::prover::prepare_space;

fn big(p: &str, k: usize) -> J {
    let r = catch(|| prepare_space(p, k));
    let f = read(p);
    J::O(vec![
        ("f", s("prepare_big")),
        ("n", n(k)),
        ("ok", J::B(matches!(r, Some(Ok(()))))),
        ("len", n(f.len())),
        ("nonzero", n(f.iter().filter(|&&b| b != 0).count())),
    ])
}
fn main() {
    let mut o = Out::new();
    let mut r = rng(2);
    let p = path("space");
    let size = |k: usize| ((k + 1) * (1 << k) + 7) / 8;
    for k in 0..=q(10, 12) {
        o.note(format!("prepare n={}", k));
        let mut e = vec![env(&p, None), prepare(&p, k), prepare(&p, k)];
        for d in [0isize, 1, -1, 7, 100, -(size(k) as isize)] {
            let len = (size(k) as isize + d).max(0) as usize;
            e.push(env(&p, Some(rand_bytes(&mut r, len))));
            e.push(prepare(&p, k));
        }
        e.push(env(&p, Some(vec![255; 3 * size(k)])));
        e.push(prepare(&p, k));
        o.session(&format!("over other contents n={}", k), e);
        if k <= 8 {
            // already marked, and spaces of other sizes at the same path
            let c = df_consts(&mut r, k);
            let (key, m) = (special(&mut r, k), special(&mut r, k + 2));
            let mut e = vec![env(&p, None), prepare(&p, k), mark_env(&p, key, m, &c, k), prepare(&p, k)];
            let k2 = r.gen_range(0..=8);
            e.push(mark_env(&p, key, m, &c, k));
            e.push(prepare(&p, k2));
            e.push(mark_env(&p, m, key, &c, k2));
            e.push(prepare(&p, k));
            o.session(&format!("over marked space n={}", k), e);
        }
    }
    for k in q(vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20], vec![13, 14, 15, 16, 17, 18, 19, 20, 21]) {
        o.note(format!("prepare n={}", k));
        let mut e = vec![];
        std::fs::write(&p, vec![255u8; size(k) + 5]).unwrap();
        e.push(big(&p, k));
        let _ = std::fs::remove_file(&p);
        if k < 18 {
            e.push(big(&p, k));
        }
        o.session(&format!("large n={}", k), e);
    }
    // over files much longer than the space
    let mut e = vec![];
    for (i, len) in [1usize << 16, 1 << 20, 3_000_000, 5_000_000, 20_000_000, q(40_000_000, 150_000_000)].into_iter().enumerate() {
        o.note(format!("prepare over {} bytes", len));
        std::fs::write(&p, vec![255u8 - i as u8; len]).unwrap();
        e.push(big(&p, [0, 1, 8, 5, 12, 3][i]));
    }
    o.session("over long files", e);
    o.done();
}
