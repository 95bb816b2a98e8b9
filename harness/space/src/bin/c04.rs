//! C04: first responses on marked spaces and on arbitrary contents.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/space_util.rs"]
mod space_util;
#[path = "../../../common/util.rs"]
mod util;
#[allow(unused_imports)]
use fld::*;
use rand::Rng;
use space_util::*;
use util::*;

use proof_of_space::proof_of_space::pospace::RESPONSE_COUNT;
fn main() {
    let mut o = Out::new();
    let mut r = rng(4);
    let p = path("space");
    let size = |k: usize| ((k + 1) * (1 << k) + 7) / 8;
    let lists = |r: &mut rand::rngs::StdRng, k: usize| -> Vec<Vec<usize>> {
        let top = 1usize << k;
        let all: Vec<usize> = (0..top.min(300)).collect();
        let rev: Vec<usize> = (0..top.min(300)).map(|i| top - 1 - i).collect();
        let y = r.gen_range(0..top);
        let rl = RESPONSE_COUNT;
        let mut v = vec![vec![], all, rev, vec![top - 1], vec![y; 3], vec![0, top - 1, 0, top - 1, y]];
        // many challenges, the few answerable ones late
        for len in [4 * rl + 3, 700, 1500] {
            v.push((0..len).map(|i| if i + rl < len { y } else { r.gen_range(0..top) }).collect());
        }
        for len in [1, rl - 1, rl, rl + 1, 2 * rl, 3 * rl] {
            v.push((0..len).map(|_| r.gen_range(0..top)).collect());
        }
        v
    };
    for k in 0..=q(9, 11) {
        for rep in 0..q(2, 6) {
            o.note(format!("respond n={}", k));
            let c = df_consts(&mut r, rep);
            let h = hash_consts(&mut r, rep);
            let (key, m) = (special(&mut r, 2 * rep + k % 3), special(&mut r, (rep + k) % 6));
            let mut e = vec![zeros(&p, k)];
            let ls = lists(&mut r, k);
            e.push(respond(&p, &ls[1], key, &h, k)); // nothing marked yet
            e.push(mark(&p, key, m, &c, k));
            for l in ls {
                e.push(respond(&p, &l, key, &h, k));
            }
            o.session(&format!("marked n={}", k), e);
            for dirty in [vec![255; size(k)], rand_bytes(&mut r, size(k)), rand_bytes(&mut r, size(k) + 2)] {
                let mut e = vec![env(&p, Some(dirty))];
                for l in lists(&mut r, k) {
                    e.push(respond(&p, &l, key, &h, k));
                }
                o.session(&format!("arbitrary contents n={}", k), e);
            }
        }
    }
    for k in q(vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20], vec![12, 13, 14, 15, 16, 17, 18, 19, 20, 21]) {
        o.note(format!("respond n={}", k));
        let h = hash_consts(&mut r, k % 2);
        let mut dirty = rand_bytes(&mut r, size(k));
        if k % 2 == 1 {
            for b in dirty.iter_mut() {
                *b |= r.gen::<u8>();
            }
        }
        std::fs::write(&p, dirty).unwrap();
        let key = frand(&mut r);
        let mut e = vec![];
        for l in lists(&mut r, k) {
            e.push(respond_big(&p, &l, key, &h, k));
        }
        o.session(&format!("large n={}", k), e);
    }
    o.done();
}
