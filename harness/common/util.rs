//! Shared by all drivers: seeded randomness, trace output, panic capture.
#![allow(dead_code)]
use rand::{rngs::StdRng, Rng, SeedableRng};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub enum J {
    N(i64),
    B(bool),
    S(String),
    A(Vec<J>),
    /// already written
    R(String),
    O(Vec<(&'static str, J)>),
}
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::N(i) => o.push_str(&i.to_string()),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push(' '),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::R(t) => o.push_str(t),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
pub fn n(i: usize) -> J {
    assert!(i < 1 << 31, "integer {} does not fit TLC", i);
    J::N(i as i64)
}
pub fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
pub fn ns(v: &[usize]) -> J {
    J::A(v.iter().map(|&i| n(i)).collect())
}
pub fn bytes_j(v: &[u8]) -> J {
    J::A(v.iter().map(|&i| J::N(i as i64)).collect())
}
pub fn bits_j(v: &[bool]) -> J {
    J::A(v.iter().map(|&i| J::N(i as i64)).collect())
}
pub fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn hexj(v: &[u8]) -> J {
    J::S(hex(v))
}
pub fn hexn(i: usize) -> J {
    J::S(format!("{:x}", i))
}

pub struct Out {
    f: BufWriter<File>,
    progress: String,
    pub sessions: usize,
    pub events: usize,
}
impl Out {
    /// OUT names the trace; OUT.progress always names the session being executed.
    pub fn new() -> Out {
        let p = std::env::var("OUT").expect("OUT");
        if std::env::var("SHOWPANIC").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Out {
            f: BufWriter::new(File::create(&p).unwrap()),
            progress: format!("{}.progress", p),
            sessions: 0,
            events: 0,
        }
    }
    pub fn note<T: AsRef<str>>(&self, what: T) {
        std::fs::write(&self.progress, what.as_ref()).unwrap();
    }
    pub fn session(&mut self, name: &str, ev: Vec<J>) {
        self.sessions += 1;
        self.events += ev.len();
        let mut o = String::new();
        J::O(vec![("name", s(name)), ("ev", J::A(ev))]).write(&mut o);
        o.push('\n');
        self.f.write_all(o.as_bytes()).unwrap();
    }
    pub fn sessions(&mut self, v: Sessions) {
        for (name, ev) in v {
            self.session(&name, ev);
        }
    }
    /// sessions of k runs of f at the same time
    pub fn together(&mut self, k: usize, f: impl Fn(usize) -> Sessions + Sync) {
        for (i, v) in together(k, f).into_iter().enumerate() {
            for (name, ev) in v {
                self.session(&format!("{} of {} at once: {}", i + 1, k, name), ev);
            }
        }
    }
    pub fn done(mut self) {
        self.f.flush().unwrap();
        std::fs::write(&self.progress, "done").unwrap();
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}
pub fn rng(salt: u64) -> StdRng {
    StdRng::seed_from_u64(seed().wrapping_mul(1_000_003).wrapping_add(salt))
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false)
}
/// quick or thorough amount
pub fn q<T>(quick: T, full: T) -> T {
    if thorough() {
        full
    } else {
        quick
    }
}
thread_local! {
    static TAG: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// the scratch directory of this thread
pub fn scratch() -> String {
    let d = std::env::var("SCRATCH").expect("SCRATCH");
    match TAG.with(|t| t.get()) {
        0 => d,
        t => format!("{}/t{}", d, t),
    }
}
/// What `f` gives for 0..k, all running at the same time, each with a scratch directory of its own.
pub fn together<T: Send>(k: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let start = std::sync::Barrier::new(k);
    std::thread::scope(|sc| {
        let run: Vec<_> = (0..k)
            .map(|i| {
                let (start, f) = (&start, &f);
                sc.spawn(move || {
                    TAG.with(|t| t.set(i + 1));
                    std::fs::create_dir_all(scratch()).unwrap();
                    start.wait();
                    f(i)
                })
            })
            .collect();
        run.into_iter().map(|h| h.join().unwrap()).collect()
    })
}
pub type Sessions = Vec<(String, Vec<J>)>;
pub fn catch<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
pub fn rand_bytes<R: Rng>(r: &mut R, len: usize) -> Vec<u8> {
    (0..len).map(|_| r.gen()).collect()
}
/// Byte strings of every character: random, constant, structured.
pub fn some_bytes<R: Rng>(r: &mut R, len: usize, kind: usize) -> Vec<u8> {
    match kind % 6 {
        0 => rand_bytes(r, len),
        1 => vec![0; len],
        2 => vec![255; len],
        3 => (0..len).map(|i| i as u8).collect(),
        4 => (0..len).map(|i| if i + 1 == len { 1 } else { 0 }).collect(),
        _ => (0..len).map(|i| if i == 0 { 128 } else { 0 }).collect(),
    }
}

/// In a process started by `elsewhere`: what it is to draw, and where to leave it.
pub fn asked() -> Option<String> {
    std::env::var("VDRAW").ok()
}
pub fn answer(v: Vec<J>) {
    let mut o = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push('\n');
        }
        x.write(&mut o);
    }
    std::fs::write(std::env::var("VDRAW_OUT").unwrap(), o).unwrap();
}
/// The same drawn by `k` other processes, all running at once.
pub fn elsewhere(k: usize, what: &str) -> Vec<J> {
    let exe = std::env::current_exe().unwrap();
    let out: Vec<String> = (0..k).map(|i| format!("{}/draw{}", scratch(), i)).collect();
    let run: Vec<_> = out
        .iter()
        .map(|p| {
            let _ = std::fs::remove_file(p);
            std::process::Command::new(&exe)
                .env("VDRAW", what)
                .env("VDRAW_OUT", p)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("process")
        })
        .collect();
    for mut c in run {
        c.wait().unwrap();
    }
    out.iter()
        .flat_map(|p| {
            std::fs::read_to_string(p)
                .expect("drawn elsewhere")
                .lines()
                .map(|l| J::R(l.to_string()))
                .collect::<Vec<_>>()
        })
        .collect()
}

/// Write a file; one that existed keeps its modification time, so that only its content tells the change.
pub fn put<P: AsRef<std::path::Path>, D: AsRef<[u8]>>(p: P, d: D) -> std::io::Result<()> {
    let before = std::fs::metadata(&p).and_then(|m| m.modified());
    std::fs::write(&p, d)?;
    if let Ok(t) = before {
        std::fs::OpenOptions::new().write(true).open(&p)?.set_modified(t)?;
    }
    Ok(())
}
