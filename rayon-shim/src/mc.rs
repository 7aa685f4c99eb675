//! The scheduler. One thread runs at a time; it hands over at schedule points only.
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc::{Sender, channel};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

type Job = Box<dyn FnOnce() + Send>;

pub struct Config {
    /// what `current_num_threads` says
    pub threads: usize,
    /// alternative 0 of a reduction is to split all the way down instead of not at all
    pub split: bool,
    /// whether reductions are choice points
    pub shapes: bool,
    /// whether the start order and preemptions are choice points
    pub orders: bool,
}

struct Op {
    pending: BTreeMap<usize, Job>,
    remaining: usize,
    /// the slot that waits for this operation, once it waits
    waiter: Option<usize>,
}

struct State {
    pick: Box<dyn FnMut(usize) -> usize + Send>,
    ops: BTreeMap<usize, Op>,
    next_op: usize,
    /// suspended threads: slot -> baton
    suspended: BTreeMap<usize, Arc<Baton>>,
    waiting: BTreeMap<usize, Arc<Baton>>,
    next_slot: usize,
}

struct Baton {
    go: Mutex<bool>,
    cv: Condvar,
}
impl Baton {
    fn new() -> Arc<Baton> {
        Arc::new(Baton { go: Mutex::new(false), cv: Condvar::new() })
    }
    fn give(&self) {
        *self.go.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

pub struct Sched {
    m: Mutex<State>,
    pub cfg: Config,
    /// a thread blocked outside of the scheduler: everything runs freely, the run does not count
    free: AtomicBool,
    events: AtomicU64,
    pub points: AtomicU64,
    pub switches: AtomicU64,
    pub max_live: AtomicUsize,
}

thread_local! {
    static CUR: RefCell<Option<Arc<Sched>>> = const { RefCell::new(None) };
}
pub fn current() -> Option<Arc<Sched>> {
    CUR.with(|c| c.borrow().clone())
}

static POOL: Mutex<Vec<Sender<Job>>> = Mutex::new(Vec::new());

fn on_worker(job: Job) {
    let idle = POOL.lock().unwrap().pop();
    let tx = idle.unwrap_or_else(|| {
        let (tx, rx) = channel::<Job>();
        let back = tx.clone();
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                for j in rx {
                    j();
                    CUR.with(|c| *c.borrow_mut() = None);
                    POOL.lock().unwrap().push(back.clone());
                }
            })
            .unwrap();
        tx
    });
    tx.send(job).unwrap();
}

pub struct Outcome<T> {
    pub value: std::thread::Result<T>,
    /// false: a thread blocked on something outside of the scheduler, so this was no controlled run
    pub controlled: bool,
    pub points: u64,
    pub switches: u64,
}

/// Run `f` with all scheduling decisions taken by `pick(n) -> 0..n`.
pub fn run<T>(cfg: Config, pick: Box<dyn FnMut(usize) -> usize + Send>, f: impl FnOnce() -> T) -> Outcome<T> {
    let s = Arc::new(Sched {
        m: Mutex::new(State {
            pick,
            ops: BTreeMap::new(),
            next_op: 0,
            suspended: BTreeMap::new(),
            waiting: BTreeMap::new(),
            next_slot: 0,
        }),
        cfg,
        free: AtomicBool::new(false),
        events: AtomicU64::new(0),
        points: AtomicU64::new(0),
        switches: AtomicU64::new(0),
        max_live: AtomicUsize::new(0),
    });
    let old = CUR.with(|c| c.borrow_mut().replace(s.clone()));
    let value = catch_unwind(AssertUnwindSafe(f));
    CUR.with(|c| *c.borrow_mut() = old);
    Outcome {
        value,
        controlled: !s.free.load(Ordering::SeqCst),
        points: s.points.load(Ordering::SeqCst),
        switches: s.switches.load(Ordering::SeqCst),
    }
}

enum Next {
    Me,
    Slot(usize, bool),
    Item(usize, usize),
}

impl Sched {
    fn wait(&self, b: &Baton) {
        let mut g = b.go.lock().unwrap();
        let mut seen = self.events.load(Ordering::SeqCst);
        while !*g {
            let (g2, t) = b.cv.wait_timeout(g, Duration::from_secs(3)).unwrap();
            g = g2;
            if t.timed_out() && !*g {
                let now = self.events.load(Ordering::SeqCst);
                if now == seen && !self.free.swap(true, Ordering::SeqCst) {
                    // nobody made progress: let everybody go
                    let st = self.m.lock().unwrap();
                    for o in st.suspended.values().chain(st.waiting.values()) {
                        if !std::ptr::eq(&**o, b) {
                            o.give();
                        }
                    }
                    return;
                }
                seen = now;
            }
        }
    }

    /// What can go on. `me`: the calling thread could. `own`: prefer the items of this operation.
    fn candidates(st: &State, me: bool, own: Option<usize>) -> Vec<Next> {
        let mut v = vec![];
        if me {
            v.push(Next::Me);
        }
        if let Some(o) = own {
            if let Some(op) = st.ops.get(&o) {
                v.extend(op.pending.keys().map(|i| Next::Item(o, *i)));
            }
        }
        v.extend(st.suspended.keys().map(|s| Next::Slot(*s, false)));
        v.extend(
            st.ops.values().filter(|o| o.remaining == 0).filter_map(|o| o.waiter).map(|s| Next::Slot(s, true)),
        );
        for (o, op) in &st.ops {
            if own != Some(*o) {
                v.extend(op.pending.keys().map(|i| Next::Item(*o, *i)));
            }
        }
        v
    }

    fn choose(&self, st: &mut State, n: usize) -> usize {
        self.events.fetch_add(1, Ordering::SeqCst);
        if n < 2 || !self.cfg.orders {
            return 0;
        }
        self.points.fetch_add(1, Ordering::SeqCst);
        let k = (st.pick)(n).min(n - 1);
        if k > 0 {
            self.switches.fetch_add(1, Ordering::SeqCst);
        }
        k
    }

    /// The running piece of work may be interrupted here.
    fn yield_point(self: &Arc<Self>) {
        if self.free.load(Ordering::SeqCst) || !self.cfg.orders {
            return;
        }
        let mut st = self.m.lock().unwrap();
        let mut c = Self::candidates(&st, true, None);
        let k = self.choose(&mut st, c.len());
        let next = c.swap_remove(k);
        if matches!(next, Next::Me) {
            return;
        }
        let b = Baton::new();
        let slot = st.next_slot;
        st.next_slot += 1;
        st.suspended.insert(slot, b.clone());
        self.hand_over(st, next);
        self.wait(&b);
        self.m.lock().unwrap().suspended.remove(&slot);
    }

    fn hand_over(self: &Arc<Self>, mut st: std::sync::MutexGuard<State>, next: Next) {
        match next {
            Next::Me => unreachable!(),
            Next::Slot(s, done) => {
                let b = if done {
                    for o in st.ops.values_mut() {
                        if o.waiter == Some(s) {
                            o.waiter = None;
                        }
                    }
                    st.waiting.remove(&s)
                } else {
                    st.suspended.remove(&s)
                };
                drop(st);
                if let Some(b) = b {
                    b.give();
                }
            }
            Next::Item(o, i) => {
                let job = st.ops.get_mut(&o).unwrap().pending.remove(&i).unwrap();
                drop(st);
                let me = self.clone();
                on_worker(Box::new(move || {
                    CUR.with(|c| *c.borrow_mut() = Some(me.clone()));
                    me.worker(o, job);
                    CUR.with(|c| *c.borrow_mut() = None);
                }));
            }
        }
    }

    /// A worker runs an item, then further ones while the chooser says so.
    fn worker(self: &Arc<Self>, op: usize, job: Job) {
        let (mut op, mut job) = (op, job);
        loop {
            job();
            let mut st = self.m.lock().unwrap();
            if let Some(o) = st.ops.get_mut(&op) {
                o.remaining -= 1;
            }
            let mut c = Self::candidates(&st, false, Some(op));
            if c.is_empty() {
                // only in a run that is no longer controlled
                return;
            }
            if self.free.load(Ordering::SeqCst) {
                for (_, b) in st.waiting.iter() {
                    b.give();
                }
                return;
            }
            let k = self.choose(&mut st, c.len());
            match c.swap_remove(k) {
                Next::Item(o, i) => {
                    job = st.ops.get_mut(&o).unwrap().pending.remove(&i).unwrap();
                    op = o;
                }
                n => return self.hand_over(st, n),
            }
        }
    }

    fn fork_join(self: &Arc<Self>, jobs: Vec<Job>) {
        let id;
        {
            let mut st = self.m.lock().unwrap();
            id = st.next_op;
            st.next_op += 1;
            let n = jobs.len();
            st.ops.insert(id, Op { pending: jobs.into_iter().enumerate().collect(), remaining: n, waiter: None });
            let live = st.suspended.len() + st.waiting.len() + 1;
            self.max_live.fetch_max(live, Ordering::SeqCst);
        }
        loop {
            let mut st = self.m.lock().unwrap();
            let o = st.ops.get_mut(&id).unwrap();
            if self.free.load(Ordering::SeqCst) {
                if let Some((i, _)) = o.pending.iter().next() {
                    let i = *i;
                    let j = o.pending.remove(&i).unwrap();
                    drop(st);
                    j();
                    if let Some(o) = self.m.lock().unwrap().ops.get_mut(&id) {
                        o.remaining -= 1;
                    }
                    continue;
                }
                if o.remaining == 0 {
                    break;
                }
                drop(st);
                std::thread::sleep(Duration::from_micros(200));
                continue;
            }
            if o.remaining == 0 {
                break;
            }
            let mut c = Self::candidates(&st, false, Some(id));
            let k = self.choose(&mut st, c.len());
            match c.swap_remove(k) {
                Next::Item(o, i) if o == id => {
                    let j = st.ops.get_mut(&id).unwrap().pending.remove(&i).unwrap();
                    drop(st);
                    j();
                    let mut st = self.m.lock().unwrap();
                    st.ops.get_mut(&id).unwrap().remaining -= 1;
                }
                n => {
                    let b = Baton::new();
                    let slot = st.next_slot;
                    st.next_slot += 1;
                    st.waiting.insert(slot, b.clone());
                    st.ops.get_mut(&id).unwrap().waiter = Some(slot);
                    self.hand_over(st, n);
                    self.wait(&b);
                    let mut st = self.m.lock().unwrap();
                    st.waiting.remove(&slot);
                    if let Some(o) = st.ops.get_mut(&id) {
                        o.waiter = None;
                    }
                }
            }
        }
        self.m.lock().unwrap().ops.remove(&id);
    }
}

/// A point at which the calling piece of parallel work may be interrupted by another one.
pub fn point() {
    if let Some(s) = current() {
        s.yield_point();
    }
}

/// Pick one of `n` alternatives of a reduction.
pub(crate) fn shape(n: usize) -> usize {
    match current() {
        Some(s) if s.cfg.shapes => {
            s.points.fetch_add(1, Ordering::SeqCst);
            (s.m.lock().unwrap().pick)(n)
        }
        _ => 0,
    }
}

/// Whether to split a range of `n` pieces of a reduction in two.
pub(crate) fn split(n: usize) -> bool {
    if n < 2 {
        return false;
    }
    let def = current().is_some_and(|s| s.cfg.split);
    (shape(2) == 1) != def
}

/// Run every closure, in an order and with interruptions chosen by the chooser.
pub(crate) fn fork_join<'a>(jobs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    let Some(s) = current() else {
        for j in jobs {
            j();
        }
        return;
    };
    if jobs.is_empty() {
        return;
    }
    let panic: Mutex<Option<Box<dyn Any + Send>>> = Mutex::new(None);
    {
        let p = &panic;
        let wrapped: Vec<Box<dyn FnOnce() + Send + '_>> = jobs
            .into_iter()
            .map(|j| {
                Box::new(move || {
                    if let Err(e) = catch_unwind(AssertUnwindSafe(j)) {
                        *p.lock().unwrap() = Some(e);
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        // SAFETY: fork_join returns only after every job has run
        let jobs: Vec<Job> = unsafe { std::mem::transmute(wrapped) };
        s.fork_join(jobs);
    }
    if let Some(e) = panic.into_inner().unwrap() {
        resume_unwind(e);
    }
}
