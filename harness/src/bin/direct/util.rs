use harness::{js, panic_text};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub const LANES: usize = 8;

/// When to take up no further item, and how many were left.
pub static END: OnceLock<Instant> = OnceLock::new();
static LEFT: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
struct Inner {
    stats: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    findings: Vec<(String, String, String)>,
}

pub struct Out {
    pub dir: PathBuf,
    inner: Mutex<Inner>,
}

impl Out {
    pub fn new(dir: PathBuf) -> Out {
        Out { dir, inner: Mutex::new(Inner::default()) }
    }
    pub fn add(&self, k: &'static str, n: u64) {
        *self.inner.lock().unwrap().stats.entry(k).or_insert(0) += n;
    }
    pub fn sample(&self, s: String) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 4 {
            i.samples.push(s);
        }
    }
    pub fn finding(&self, kind: &str, input: String, msg: String) {
        let mut i = self.inner.lock().unwrap();
        if i.findings.len() < 2000 {
            i.findings.push((kind.into(), input, msg));
        }
    }
    pub fn json(&self) -> String {
        let mut i = self.inner.lock().unwrap();
        match LEFT.load(Ordering::Relaxed) {
            0 => {}
            n => drop(i.stats.insert("left_out_for_lack_of_time", n)),
        }
        i.findings.sort_by(|a, b| (a.1.len(), a).cmp(&(b.1.len(), b)));
        format!(
            "{{\"stats\":{{{}}},\"samples\":[{}],\"findings\":[{}]}}",
            i.stats.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
            i.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            i.findings
                .iter()
                .map(|(k, x, m)| format!("{{\"kind\":{},\"input\":{},\"msg\":{}}}", js(k), js(x), js(m)))
                .collect::<Vec<_>>()
                .join(",")
        )
    }
    /// Where lane `k` writes what it is about to execute (read if the process dies).
    pub fn progress(&self, k: usize, what: &str) {
        std::fs::write(self.dir.join(format!("progress{k}")), what).unwrap();
    }
}

/// Runs `f` over all items, spread over threads with large stacks.
pub fn lanes<T: Sync>(items: &[T], f: impl Fn(usize, &T) + Sync) {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..LANES)
            .map(|k| {
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        for i in (k..items.len()).step_by(LANES) {
                            if END.get().is_some_and(|e| Instant::now() > *e) {
                                LEFT.fetch_add(1, Ordering::Relaxed);
                            } else {
                                f(k, &items[i]);
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            h.join().expect("explorer thread");
        }
    });
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    harness::watched(|| catch_unwind(AssertUnwindSafe(f))).map_err(panic_text)
}

pub fn tuples(n: usize, len: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = n.pow(len as u32);
    (0..total).map(move |mut x| {
        let mut v = vec![0; len];
        for d in v.iter_mut().rev() {
            *d = x % n;
            x /= n;
        }
        v
    })
}
