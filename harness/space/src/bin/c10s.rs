//! C10: whole honest sessions through the one call that does everything.
#[path = "../../../common/util.rs"]
mod util;
use proof_of_space::proof_of_space::pospace::*;
use std::fs::OpenOptions;
use util::*;

fn main() {
    let mut o = Out::new();
    let p = format!("{}/space", scratch());
    let log = || OpenOptions::new().read(true).write(true).append(true).create(true).open(format!("{}/log", scratch())).unwrap();
    for k in 0..q(1, 4) {
        let mut e = vec![];
        // an honest session fails when fewer challenges than required have an answer: once in 400
        for attempt in 0..4 {
            o.note(format!("pospace, attempt {}", attempt));
            let ok = catch(|| { let (c, h, key, m) = prepare_params(); pospace(&p, c, h, key, m, &mut log()) }).is_some();
            if ok || attempt == 3 {
                e.push(J::O(vec![("f", s("session")), ("attempts", n(attempt + 1)), ("ok", J::B(ok))]));
                break;
            }
        }
        o.session(&format!("whole session {}", k), e);
    }
    o.done();
}
