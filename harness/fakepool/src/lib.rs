//! Stands in for the threadpool crate: queued jobs run one after the other in an order
//! chosen by VSCHED (0 first to last, 1 last to first, otherwise a permutation), when the
//! owner waits for them or has queued nothing for a while.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

type Job = Box<dyn FnOnce() + Send + 'static>;
struct State {
    queue: Vec<Job>,
    running: bool,
    kicked: bool,
    last: Instant,
    seed: u64,
}
struct Inner {
    st: Mutex<State>,
    cv: Condvar,
    handles: AtomicUsize,
    panics: Arc<AtomicUsize>,
}
pub struct ThreadPool {
    inner: Arc<Inner>,
    max: usize,
}
impl Clone for ThreadPool {
    fn clone(&self) -> Self {
        self.inner.handles.fetch_add(1, Ordering::SeqCst);
        ThreadPool { inner: self.inner.clone(), max: self.max }
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        self.inner.handles.fetch_sub(1, Ordering::SeqCst);
        self.inner.cv.notify_all();
    }
}
fn permute(v: Vec<Job>, seed: &mut u64) -> Vec<Job> {
    let mut v = v;
    match *seed {
        0 => {}
        1 => v.reverse(),
        _ => {
            for i in (1..v.len()).rev() {
                *seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 2;
                v.swap(i, (*seed >> 33) as usize % (i + 1));
            }
        }
    }
    v
}
fn scheduler(inner: Arc<Inner>) {
    loop {
        let mut st = inner.st.lock().unwrap();
        loop {
            let idle = st.last.elapsed() > Duration::from_millis(3);
            if !st.queue.is_empty() && (st.kicked || idle) {
                break;
            }
            if st.queue.is_empty() {
                st.kicked = false;
                inner.cv.notify_all();
                if inner.handles.load(Ordering::SeqCst) == 0 {
                    return;
                }
            }
            st = inner.cv.wait_timeout(st, Duration::from_millis(1)).unwrap().0;
        }
        let jobs = std::mem::take(&mut st.queue);
        let mut seed = st.seed;
        let jobs = permute(jobs, &mut seed);
        st.seed = seed;
        st.running = true;
        drop(st);
        let mut late = vec![];
        for job in jobs {
            // each on a thread of its own, so that a job waiting for a later one cannot hang us
            let (tx, rx) = mpsc::channel();
            let p = inner.panics.clone();
            std::thread::spawn(move || {
                if catch_unwind(AssertUnwindSafe(job)).is_err() {
                    p.fetch_add(1, Ordering::SeqCst);
                }
                let _ = tx.send(());
            });
            if rx.recv_timeout(Duration::from_secs(5)).is_err() {
                late.push(rx);
            }
        }
        for rx in late {
            let _ = rx.recv();
        }
        let mut st = inner.st.lock().unwrap();
        st.running = false;
        inner.cv.notify_all();
    }
}
impl ThreadPool {
    pub fn new(n: usize) -> ThreadPool {
        assert!(n > 0);
        let seed = std::env::var("VSCHED").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        let st = State { queue: vec![], running: false, kicked: false, last: Instant::now(), seed };
        let inner = Arc::new(Inner { st: Mutex::new(st), cv: Condvar::new(), handles: AtomicUsize::new(1), panics: Arc::new(AtomicUsize::new(0)) });
        let i2 = inner.clone();
        std::thread::spawn(move || scheduler(i2));
        ThreadPool { inner, max: n }
    }
    pub fn with_name(_: String, n: usize) -> ThreadPool {
        ThreadPool::new(n)
    }
    pub fn execute<F: FnOnce() + Send + 'static>(&self, f: F) {
        let mut st = self.inner.st.lock().unwrap();
        st.queue.push(Box::new(f));
        st.last = Instant::now();
    }
    fn kick(&self) -> (usize, bool) {
        let mut st = self.inner.st.lock().unwrap();
        st.kicked = true;
        self.inner.cv.notify_all();
        (st.queue.len(), st.running)
    }
    pub fn join(&self) {
        self.kick();
        let mut st = self.inner.st.lock().unwrap();
        while st.running || !st.queue.is_empty() {
            st = self.inner.cv.wait_timeout(st, Duration::from_millis(1)).unwrap().0;
        }
    }
    pub fn queued_count(&self) -> usize {
        self.kick().0
    }
    pub fn active_count(&self) -> usize {
        let (q, r) = self.kick();
        if r || q > 0 { 1 } else { 0 }
    }
    pub fn max_count(&self) -> usize {
        self.max
    }
    pub fn panic_count(&self) -> usize {
        self.inner.panics.load(Ordering::SeqCst)
    }
    pub fn set_num_threads(&mut self, n: usize) {
        assert!(n > 0);
        self.max = n;
    }
}
#[derive(Clone, Default)]
pub struct Builder {
    n: Option<usize>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder::default()
    }
    pub fn num_threads(mut self, n: usize) -> Builder {
        self.n = Some(n);
        self
    }
    pub fn thread_name(self, _: String) -> Builder {
        self
    }
    pub fn thread_stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn build(self) -> ThreadPool {
        ThreadPool::new(self.n.unwrap_or(8))
    }
}
