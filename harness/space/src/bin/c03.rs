//! C03: marking spaces of every alignment, over zero and arbitrary contents, repeatedly.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/space_util.rs"]
mod space_util;
#[path = "../../../common/util.rs"]
mod util;
#[allow(unused_imports)]
use fld::*;
use rand::Rng;
use space_util::*;
use util::*;

fn main() {
    let mut o = Out::new();
    let mut r = rng(3);
    let p = path("space");
    let size = |k: usize| ((k + 1) * (1 << k) + 7) / 8;
    for k in 0..=q(10, 12) {
        let reps = if k <= 5 { q(5, 20) } else if k <= 8 { q(3, 8) } else { q(1, 3) };
        for rep in 0..reps {
            o.note(format!("mark n={}", k));
            let c = df_consts(&mut r, rep);
            let (key, m) = (special(&mut r, rep + k % 3), special(&mut r, (rep + k) % 6));
            let mut e = vec![zeros(&p, k), mark(&p, key, m, &c, k)];
            // marking again for another key over the marked space
            let key2 = special(&mut r, 9);
            e.push(mark(&p, key2, m, &c, k));
            o.session(&format!("prepared n={}", k), e);
            let dirty = match rep % 3 {
                0 => vec![255; size(k)],
                1 => rand_bytes(&mut r, size(k)),
                _ => rand_bytes(&mut r, size(k) + 3),
            };
            o.session(&format!("arbitrary contents n={}", k), vec![env(&p, Some(dirty)), mark(&p, key, m, &c, k)]);
        }
    }
    for k in q(vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20], vec![11, 13, 14, 15, 16, 17, 18, 19, 20]) {
        o.note(format!("mark n={}", k));
        let c = df_consts(&mut r, 0);
        let m: ark_bls12_381::Fr = frand(&mut r);
        // under a key for which the first preimage is not overwritten, so that all of them count
        let key = loop {
            let key = frand(&mut r);
            let y = df_low(0, key, m, &c, k);
            if (1..1usize << k).all(|x| df_low(x, key, m, &c, k) != y) {
                break key;
            }
        };
        let dirty = if k % 2 == 0 { vec![255; size(k)] } else { rand_bytes(&mut r, size(k)) };
        std::fs::write(&p, dirty).unwrap();
        let e = mark_big(&mut r, &p, key, m, &c, k, q(150, 600));
        o.session(&format!("large n={}", k), vec![e]);
    }
    let _ = r.gen::<u8>();
    o.done();
}
