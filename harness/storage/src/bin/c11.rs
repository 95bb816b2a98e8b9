//! C11: challenges of the storage verifier.
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::verifier::create_challenges;
use util::*;

fn draw(k: usize, lo: usize, hi: usize) -> J {
    ns(&catch(|| create_challenges(k, (lo, hi))).unwrap_or_default())
}
fn main() {
    if asked().is_some() {
        return answer(vec![draw(50, 0, 1 << 20)]);
    }
    let mut o = Out::new();
    let mut e = vec![];
    for (lo, hi) in [(0, 1), (0, 2), (0, 7), (5, 6), (5, 12), (0, 64), (100, 164), (0, 300), (0, 1 << 20), (1 << 20, (1 << 20) + 9), (7, 1 << 30)] {
        for k in [0, 1, 2, 3, 10, 50, hi - lo - 1, hi - lo] {
            if k > hi - lo || k > 300 {
                continue;
            }
            o.note(format!("draw {} of {}..{}", k, lo, hi));
            let v = catch(|| create_challenges(k, (lo, hi)));
            e.push(J::O(vec![("f", s("storage")), ("n", n(k)), ("lo", n(lo)), ("hi", n(hi)), ("ok", J::B(v.is_some())), ("out", ns(&v.unwrap_or_default()))]));
        }
    }
    // nothing requested from nothing
    o.session("storage draws", e);
    let mut e = vec![];
    let many = |c: usize, k: usize, lo: usize, hi: usize| J::A((0..c).map(|_| draw(k, lo, hi)).collect());
    for (k, lo, hi) in [(1, 0, 10), (1, 3, 9), (2, 0, 6), (2, 4, 11), (3, 0, 6), (5, 0, 6), (6, 0, 6), (0, 0, 3)] {
        o.note(format!("series of {} of {}..{}", k, lo, hi));
        e.push(J::O(vec![("f", s("subsets")), ("n", n(k)), ("lo", n(lo)), ("hi", n(hi)), ("draws", many(q(1500, 5000), k, lo, hi))]));
    }
    for (lo, hi) in [(0, 5), (2, 8), (10, 12)] {
        e.push(J::O(vec![("f", s("pairs")), ("lo", n(lo)), ("hi", n(hi)), ("draws", many(q(2500, 6000), 1, lo, hi))]));
    }
    for (lo, hi) in [(0, 400), (64, 128), (0, 1 << 20), (1 << 20, 1 << 28)] {
        e.push(J::O(vec![("f", s("quarters")), ("lo", n(lo)), ("hi", n(hi)), ("draws", many(q(1000, 4000), 1, lo, hi))]));
    }
    // every position of larger ranges
    for (c, k, lo, hi) in [(300, 32, 0, 64), (500, 10, 0, 64), (700, 5, 100, 140), (400, 90, 0, 300), (4000, 1, 7, 57), (1000, 30, 64, 320), (120, 999, 0, 1500), (200, 130, 5, 517), (900, 3, 0, 17), (150, 126, 0, 128)] {
        o.note(format!("every position of {}..{}", lo, hi));
        e.push(J::O(vec![("f", s("cover")), ("n", n(k)), ("lo", n(lo)), ("hi", n(hi)), ("draws", many(c * if k + 3 > hi - lo { 40 } else { 1 }, k, lo, hi))]));
    }
    // ranges of 2^b positions from a multiple of 2^b on: every low bit of the positions is free
    for (b, m) in [(4usize, 3usize), (12, 0), (16, 1), (20, 0), (24, 5), (31, 1), (32, 0), (33, 2), (40, 0), (48, 1), (62, 0)] {
        for k in [1usize, 3] {
            o.note(format!("bits of draws of {} of 2^{}", k, b));
            let lo = m << b;
            let rows = J::A((0..q(400, 1200)).map(|_| J::A(catch(|| create_challenges(k, (lo, lo + (1 << b)))).unwrap_or_default().into_iter().map(hexn).collect())).collect());
            e.push(J::O(vec![("f", s("wide")), ("n", n(k)), ("bits", n(b)), ("lo", hexn(lo)), ("hi", hexn(lo + (1 << b))), ("draws", rows)]));
        }
    }
    // many positions at once
    for (k, lo, hi) in [(1100, 0, 1101), (5000, 3, 6000), (4100, 9, 4109), (2000, 0, 1 << 24)] {
        o.note(format!("draw {} of {}..{}", k, lo, hi));
        let v = catch(|| create_challenges(k, (lo, hi)));
        e.push(J::O(vec![("f", s("storage")), ("n", n(k)), ("lo", n(lo)), ("hi", n(hi)), ("ok", J::B(v.is_some())), ("out", ns(&v.unwrap_or_default()))]));
    }
    e.push(J::O(vec![("f", s("fresh")), ("draws", many(100, 50, 0, 1 << 20))]));
    o.note("many draws");
    e.push(J::O(vec![("f", s("fresh")), ("draws", many(q(20000, 60000), 8, 0, 1 << 28))]));
    o.note("draws of several threads");
    let par: Vec<J> = std::thread::scope(|t| {
        let hs: Vec<_> = (0..8).map(|_| t.spawn(|| draw(50, 0, 1 << 20))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    e.push(J::O(vec![("f", s("fresh")), ("draws", J::A(par))]));
    o.note("draws of several processes");
    e.push(J::O(vec![("f", s("fresh")), ("draws", J::A(elsewhere(4, "challenges")))]));
    o.session("storage series", e);
    o.done();
}
