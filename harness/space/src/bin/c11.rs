//! C11: challenges of the space verifier.
#[path = "../../../common/util.rs"]
mod util;
use proof_of_space::proof_of_space::pospace::{CHALLENGE_COUNT, N};
use proof_of_space::proof_of_space::verifier::create_challenges;
use util::*;

fn hx(v: &[usize]) -> J {
    J::A(v.iter().map(|&i| hexn(i)).collect())
}
fn draws(count: usize, k: usize, bits: usize) -> J {
    J::A((0..count).map(|_| hx(&catch(|| create_challenges(k, bits)).unwrap_or_default())).collect())
}
fn main() {
    if asked().is_some() {
        return answer(vec![hx(&catch(|| create_challenges(CHALLENGE_COUNT, N)).unwrap_or_default())]);
    }
    let mut o = Out::new();
    let mut e = vec![];
    for bits in [0, 1, 2, 3, 7, 8, 12, N, 31, 32, 40, 63] {
        for k in [0, 1, 2, 5, CHALLENGE_COUNT, 300, 1025, 5000] {
            o.note(format!("draw {} of {} bits", k, bits));
            let v = catch(|| create_challenges(k, bits));
            e.push(J::O(vec![("f", s("space")), ("n", n(k)), ("bits", n(bits)), ("ok", J::B(v.is_some())), ("out", hx(&v.unwrap_or_default()))]));
        }
    }
    o.session("space draws", e);
    let mut e = vec![];
    for (k, bits) in [(1, N), (3, 6), (CHALLENGE_COUNT, 1), (2, 31)] {
        o.note(format!("bits of draws {} {}", k, bits));
        e.push(J::O(vec![("f", s("spacebits")), ("n", n(k)), ("bits", n(bits)), ("draws", draws(q(400, 1500), k, bits))]));
    }
    for bits in [1, 3, 6] {
        e.push(J::O(vec![("f", s("spaceall")), ("n", n(10)), ("bits", n(bits)), ("draws", draws(600, 10, bits))]));
    }
    for (k, bits) in [(CHALLENGE_COUNT, N), (50, 4)] {
        e.push(J::O(vec![("f", s("spacefresh")), ("n", n(k)), ("bits", n(bits)), ("draws", draws(100, k, bits))]));
    }
    // many draws: none repeats, so that they are not picked from few
    o.note("many draws");
    e.push(J::O(vec![("f", s("spacefresh")), ("n", n(6)), ("bits", n(N)), ("draws", draws(q(20000, 60000), 6, N))]));
    // no challenge follows from another
    for (k, bits) in [(CHALLENGE_COUNT, N), (130, 16), (CHALLENGE_COUNT, 30)].into_iter().chain((8..=30).map(|b| (64, b))) {
        o.note(format!("relations between {} of {} bits", k, bits));
        let rows: Vec<J> = (0..14).map(|_| ns(&catch(|| create_challenges(k, bits)).unwrap_or_default())).collect();
        e.push(J::O(vec![("f", s("spacerel")), ("n", n(k)), ("bits", n(bits)), ("draws", J::A(rows))]));
    }
    // many challenges at once: as many draws of one
    for (k, bits) in [(4000, 3), (5000, N), (70000, 1)] {
        o.note(format!("one draw of {} of {} bits", k, bits));
        let v = catch(|| create_challenges(k, bits)).unwrap_or_default();
        for part in v.chunks(k / 10) {
            let rows: Vec<J> = part.iter().take(700).map(|&x| hx(&[x])).collect();
            e.push(J::O(vec![("f", s("spacebits")), ("n", n(1)), ("bits", n(bits)), ("draws", J::A(rows))]));
        }
        e.push(J::O(vec![("f", s("space")), ("n", n(k)), ("bits", n(bits)), ("ok", J::B(true)), ("out", hx(&v))]));
    }
    for bits in [40, 63] {
        e.push(J::O(vec![("f", s("spacebits")), ("n", n(1)), ("bits", n(bits)), ("draws", draws(400, 1, bits))]));
    }
    // draws from different threads are as independent as draws of one
    o.note("draws of several threads");
    let par: Vec<J> = std::thread::scope(|t| {
        let hs: Vec<_> = (0..8).map(|_| t.spawn(|| hx(&catch(|| create_challenges(CHALLENGE_COUNT, N)).unwrap_or_default()))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    e.push(J::O(vec![("f", s("spacefresh")), ("n", n(CHALLENGE_COUNT)), ("bits", n(N)), ("draws", J::A(par))]));
    o.note("draws of several processes");
    e.push(J::O(vec![("f", s("spacefresh")), ("n", n(CHALLENGE_COUNT)), ("bits", n(N)), ("draws", J::A(elsewhere(4, "challenges")))]));
    o.session("space series", e);
    o.done();
}
