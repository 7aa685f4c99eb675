//! Stateless exhaustive exploration: every execution is one path through a choice tree, replayed
//! from its prefix; the siblings of every choice made beyond the prefix are explored in turn.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Choices {
    prefix: Vec<u16>,
    pub taken: Vec<(u16, u16)>,
}
impl Choices {
    pub fn new(prefix: Vec<u16>) -> Self {
        Choices { prefix, taken: Vec::new() }
    }
    /// Pick one of `n` alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 65536);
        let c = self.prefix.get(self.taken.len()).copied().unwrap_or(0);
        let c = c.min(n as u16 - 1);
        self.taken.push((c, n as u16));
        c as usize
    }
    pub fn path(&self) -> Vec<u16> {
        self.taken.iter().map(|t| t.0).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub config: String,
    pub path: String,
    pub message: String,
}

#[derive(Default)]
pub struct Stats {
    pub executions: AtomicU64,
    pub transitions: AtomicU64,
    pub nontrivial: AtomicU64,
    pub incomplete: AtomicBool,
    pub samples: Mutex<Vec<String>>,
    pub states: Vec<Mutex<HashSet<u64>>>,
    pub violations: Mutex<Vec<Violation>>,
    /// keys of the listed findings, and which of them were seen
    pub known: Vec<String>,
    pub seen: Mutex<std::collections::BTreeMap<String, u64>>,
    pub extra: Mutex<std::collections::BTreeMap<String, u64>>,
}
pub const SHARDS: usize = 64;
impl Stats {
    pub fn new() -> Self {
        Stats {
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            ..Default::default()
        }
    }
    pub fn state(&self, h: u64) {
        let mut s = self.states[(h % SHARDS as u64) as usize].lock().unwrap();
        if s.len() < 4_000_000 {
            s.insert(h);
        }
    }
    pub fn states(&self) -> u64 {
        self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(f());
        }
    }
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn exec(&self) {
        self.executions.fetch_add(1, Ordering::Relaxed);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.extra.lock().unwrap().entry(k.to_string()).or_default() += n;
    }
    pub fn violation(&self, config: String, path: String, message: String) {
        if let Some(k) = self.known.iter().find(|k| message.contains(&format!("[{k}]"))) {
            *self.seen.lock().unwrap().entry(k.clone()).or_default() += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            v.push(Violation { config, path, message });
        }
    }
    pub fn broken(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
}

/// What each worker is doing, for the watchdog.
static SLOTS: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());
pub const HANG: Duration = Duration::from_secs(90);

pub fn busy<T>(what: impl Into<String>, f: impl FnOnce() -> T) -> T {
    let slot = {
        let mut s = SLOTS.lock().unwrap();
        let v = Some((Instant::now(), what.into()));
        match s.iter().position(|x| x.is_none()) {
            Some(i) => {
                s[i] = v;
                i
            }
            None => {
                s.push(v);
                s.len() - 1
            }
        }
    };
    let r = f();
    SLOTS.lock().unwrap()[slot] = None;
    r
}
/// The run that has not ended for longer than `HANG`, if any.
pub fn hung() -> Option<String> {
    let s = SLOTS.lock().unwrap();
    s.iter().flatten().find(|(t, _)| t.elapsed() > HANG).map(|(_, w)| w.clone())
}

/// A panic while running or judging an execution is a violation like any other.
fn caught(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "a panic: {}",
            e.downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        )),
    }
}

/// Explore the choice trees of configurations `0..n` completely. `f` runs one execution.
pub fn explore<C, F, W>(st: &Stats, configs: &[C], deadline: Instant, mk: W, f: F)
where
    C: Sync + std::fmt::Debug,
    W: Fn() -> Box<dyn std::any::Any> + Sync,
    F: Fn(&C, &mut Choices, &mut dyn std::any::Any) -> Result<(), String> + Sync,
{
    explore_bounded(st, configs, deadline, usize::MAX, mk, f)
}

/// As `explore`, with at most `dev` choices that differ from alternative 0.
pub fn explore_bounded<C, F, W>(
    st: &Stats,
    configs: &[C],
    deadline: Instant,
    dev: usize,
    mk: W,
    f: F,
) where
    C: Sync + std::fmt::Debug,
    W: Fn() -> Box<dyn std::any::Any> + Sync,
    F: Fn(&C, &mut Choices, &mut dyn std::any::Any) -> Result<(), String> + Sync,
{
    let queue: Mutex<Vec<(usize, Vec<u16>)>> =
        Mutex::new((0..configs.len()).rev().map(|i| (i, vec![])).collect());
    let cv = Condvar::new();
    let active = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            sc.spawn(|| {
                let mut w = mk();
                let mut local: Vec<(usize, Vec<u16>)> = Vec::new();
                loop {
                    let job = match local.pop() {
                        Some(j) => j,
                        None => {
                            let mut q = queue.lock().unwrap();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    return;
                                }
                                if let Some(j) = q.pop() {
                                    active.fetch_add(1, Ordering::SeqCst);
                                    break j;
                                }
                                if active.load(Ordering::SeqCst) == 0 {
                                    cv.notify_all();
                                    return;
                                }
                                q = cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                            }
                        }
                    };
                    let (ci, prefix) = job;
                    let plen = prefix.len();
                    let mut ch = Choices::new(prefix);
                    let r = busy(format!("config {:?}", configs[ci]), || {
                        caught(|| f(&configs[ci], &mut ch, &mut *w))
                    });
                    st.exec();
                    st.step(ch.taken.len() as u64);
                    if let Err(m) = r {
                        st.violation(
                            format!("#{ci} {:?}", configs[ci]),
                            format!("{:?}", ch.path()),
                            m,
                        );
                        if st.violations.lock().unwrap().len() >= 5 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let path = ch.path();
                    let mut used = path[..plen].iter().filter(|c| **c != 0).count();
                    for i in plen..ch.taken.len() {
                        if used < dev {
                            for a in 1..ch.taken[i].1 {
                                let mut p = path[..i].to_vec();
                                p.push(a);
                                local.push((ci, p));
                            }
                        }
                        if path[i] != 0 {
                            used += 1;
                        }
                    }
                    if Instant::now() > deadline {
                        st.incomplete.store(true, Ordering::Relaxed);
                        stop.store(true, Ordering::Relaxed);
                    }
                    if stop.load(Ordering::Relaxed) {
                        active.fetch_sub(1, Ordering::SeqCst);
                        cv.notify_all();
                        return;
                    }
                    if local.is_empty() {
                        active.fetch_sub(1, Ordering::SeqCst);
                        cv.notify_all();
                    } else if local.len() > 8 {
                        let mut q = queue.lock().unwrap();
                        if q.len() < 64 {
                            let k = local.len() / 2;
                            q.extend(local.drain(..k));
                            cv.notify_all();
                        }
                    }
                }
            });
        }
    });
}

/// Run `f` on every element of a finite list, on all cores.
pub fn for_all<C, F>(st: &Stats, items: &[C], deadline: Instant, f: F)
where
    C: Sync + std::fmt::Debug,
    F: Fn(&C) -> Result<(), String> + Sync,
{
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            sc.spawn(|| {
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        return;
                    }
                    if Instant::now() > deadline {
                        st.incomplete.store(true, Ordering::Relaxed);
                        return;
                    }
                    if st.violations.lock().unwrap().len() >= 5 {
                        return;
                    }
                    let r = busy(format!("{:?}", items[i]), || caught(|| f(&items[i])));
                    st.exec();
                    if let Err(m) = r {
                        st.violation(format!("#{i} {:?}", items[i]), String::new(), m);
                    }
                }
            });
        }
    });
}
