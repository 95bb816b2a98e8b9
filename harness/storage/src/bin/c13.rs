//! C13: dependency selection for every mode over wide ranges of arguments.
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::depend::*;
use proof_of_storage::proof_of_storage::prover::{create_long_depend, create_short_depend};
use rand::Rng;
use util::*;

fn long(idx: usize, cnt: usize, mode: usize) -> J {
    let r = catch(|| match mode {
        11 => long_mode_1(idx, cnt),
        12 => long_mode_2(idx, cnt),
        13 => long_mode_3(idx),
        m => long_depend(idx, cnt, m),
    });
    let mode = if mode > 10 { mode - 10 } else { mode };
    J::O(vec![("f", s("long")), ("idx", n(idx)), ("cnt", n(cnt)), ("mode", n(mode)), ("ok", J::B(r.is_some())), ("out", ns(&r.unwrap_or_default()))])
}
fn short(num: usize, idx: usize, cnt: usize, mode: usize) -> J {
    let r = catch(|| match mode {
        11 => short_mode_1(num, idx, cnt),
        12 => short_mode_2(num, idx, cnt),
        m => short_depend(num, idx, cnt, m),
    });
    let mode = if mode > 10 { mode - 10 } else { mode };
    J::O(vec![
        ("f", s("short")),
        ("num", n(num)),
        ("idx", n(idx)),
        ("cnt", n(cnt)),
        ("mode", n(mode)),
        ("ok", J::B(r.is_some())),
        ("out", ns(&r.unwrap_or_default())),
    ])
}
fn random(long: bool, num: usize, data: &Vec<u8>, idx: usize, cnt: usize) -> J {
    let r = catch(|| if long { long_mode_random(num, data, idx, cnt) } else { short_depend_random(num, data, idx, cnt) });
    J::O(vec![
        ("f", s(if long { "longr" } else { "shortr" })),
        ("num", n(num)),
        ("data", hexj(data)),
        ("idx", n(idx)),
        ("cnt", n(cnt)),
        ("ok", J::B(r.is_some())),
        ("out", ns(&r.unwrap_or_default())),
    ])
}
fn main() {
    let mut o = Out::new();
    let mut r = rng(13);
    let counts = [0, 1, 2, 3, 4, 5, 7, 10, 33, 63, 64, 65, 70, 200, 5000];
    for mode in [1, 2, 3, 0, 4, 11, 12, 13] {
        o.note(format!("long mode {}", mode));
        let mut e = vec![];
        for cnt in counts {
            for idx in (0..q(40, 300)).chain([63, 64, 65, 66, 127, 128, 129, 130, 639, 640, 641, 650, 1000, 1025, 4097, 65535, 65537, 1 << 20, (1 << 20) + 1, (1 << 28) + 5]) {
                if idx > 100_000 && cnt > 200 {
                    continue;
                }
                if mode % 10 == 3 && idx > 100_000 && cnt > 3 {
                    continue;
                }
                e.push(long(idx, cnt, mode));
            }
        }
        o.session(&format!("long mode {}", mode), e);
    }
    for mode in [1, 2, 0, 3, 11, 12] {
        o.note(format!("short mode {}", mode));
        let mut e = vec![];
        for cnt in [0, 1, 2, 3, 4, 5, 6, 9, 20, 63, 64, 65, 66, 129, 1000] {
            for num in (1..q(14, 40)).chain([31, 32, 33, 64, 65, 129]) {
                for idx in 0..num {
                    if num < 20 || idx % 7 == 0 || idx + 2 > num {
                        e.push(short(num, idx, cnt, mode));
                    }
                }
            }
            for num in [257, 300, 1000, 65536, 65537, 1 << 20, (1 << 28) + 9] {
                if num > 2000 && cnt > 200 {
                    continue;
                }
                for idx in [0, 1, 2, num / 3, num / 2, num / 2 + 1, num - 2, num - 1] {
                    e.push(short(num, idx, cnt, mode));
                }
            }
        }
        o.session(&format!("short mode {}", mode), e);
    }
    for is_long in [true, false] {
        for num in [1usize, 2, 3, 7, 16, 64, 255, 256, 257, 1000, 65535, 65536, 65537, 100_000, 1 << 24] {
            o.note(format!("random selection among {}", num));
            let mut e = vec![];
            for cnt in [0, 1, 2, 5, 8, 10, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 49, 64, 100, 256] {
                for k in 0..q(4, 20) {
                    let len = [0, 1, 32, 64, 127, 500][r.gen_range(0..6)];
                    let data = some_bytes(&mut r, len, k);
                    let idx = match k {
                        0 => 0,
                        1 => num - 1,
                        2 => 1 % num,
                        _ => r.gen_range(0..num),
                    };
                    e.push(random(is_long, num, &data, idx, cnt));
                    if k == 0 {
                        e.push(random(is_long, num, &data, num / 2, cnt));
                    }
                }
            }
            // the same arguments again, later, give the same list
            let data = rand_bytes(&mut r, 32);
            for _ in 0..3 {
                e.push(random(is_long, num, &data, num / 2, 10));
                e.push(random(is_long, num, &rand_bytes(&mut r, 9), num / 3, 10));
            }
            o.session(&format!("random selection among {}", num), e);
        }
    }
    let mut e = vec![];
    for num in [0, 1, 2, 5, 13, 40, 130] {
        for cnt in [0, 1, 3, 10] {
            for mode in 0..5 {
                o.note(format!("tables num={} cnt={} mode={}", num, cnt, mode));
                let t = catch(|| create_long_depend(num, cnt, mode));
                e.push(J::O(vec![
                    ("f", s("ltab")),
                    ("num", n(num)),
                    ("cnt", n(cnt)),
                    ("mode", n(mode)),
                    ("ok", J::B(t.is_some())),
                    ("rows", J::A(t.unwrap_or_default().iter().map(|x| ns(x)).collect())),
                ]));
                let t = catch(|| create_short_depend(num, cnt, mode));
                e.push(J::O(vec![
                    ("f", s("stab")),
                    ("num", n(num)),
                    ("cnt", n(cnt)),
                    ("mode", n(mode)),
                    ("ok", J::B(t.is_some())),
                    ("rows", J::A(t.unwrap_or_default().iter().map(|x| ns(x)).collect())),
                ]));
            }
        }
    }
    // larger tables: selected rows
    for num in [700, 5000] {
        for mode in 1..4 {
            o.note(format!("tables num={} mode={}", num, mode));
            let pick: Vec<usize> = vec![0, 1, 9, 10, 63, 255, 256, 639, 640, 650, num / 2, num - 1];
            let row = |t: &Vec<Vec<usize>>| -> J {
                J::A(pick.iter().filter(|&&i| i < t.len()).map(|&i| J::O(vec![("idx", n(i)), ("out", ns(&t[i]))])).collect())
            };
            let t = catch(|| create_long_depend(num, 6, mode));
            e.push(J::O(vec![
                ("f", s("ltabx")),
                ("num", n(num)),
                ("cnt", n(6)),
                ("mode", n(mode)),
                ("ok", J::B(t.is_some())),
                ("len", n(t.as_ref().map(|t| t.len()).unwrap_or(0))),
                ("rows", row(&t.unwrap_or_default())),
            ]));
            let t = catch(|| create_short_depend(num, 6, mode));
            e.push(J::O(vec![
                ("f", s("stabx")),
                ("num", n(num)),
                ("cnt", n(6)),
                ("mode", n(mode)),
                ("ok", J::B(t.is_some())),
                ("len", n(t.as_ref().map(|t| t.len()).unwrap_or(0))),
                ("rows", row(&t.unwrap_or_default())),
            ]));
        }
    }
    o.session("tables", e);
    o.done();
}
