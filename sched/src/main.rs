//! gssched: the schedules of the parallel parts of globalsearch-rs. `gssched C06 <quick|thorough>`
#![allow(dead_code, invalid_runtime_symbol_definitions)]
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/explore.rs"]
mod explore;
#[path = "../../harness/src/funs.rs"]
mod funs;
#[path = "../../harness/src/parcfg.rs"]
mod parcfg;
#[path = "../../harness/src/report.rs"]
mod report;
#[path = "../../harness/src/trace.rs"]
mod trace;
#[path = "../../harness/src/vclock.rs"]
mod vclock;

use explore::*;
use parcfg::*;
use report::Ctx;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// One controlled run. `pick` takes the decisions in the window of user calls given.
fn controlled(
    l: &Load,
    threads: usize,
    split: bool,
    shapes: bool,
    orders: bool,
    window: (u64, u64),
    pick: Box<dyn FnMut(usize) -> usize + Send>,
) -> (Option<Seen>, u64, u64) {
    let calls = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let c2 = calls.clone();
    let mut pick = pick;
    let gate = move |n: usize| {
        let c = c2.load(std::sync::atomic::Ordering::SeqCst);
        if c < window.0 || c >= window.1 { 0 } else { pick(n) }
    };
    let cfg = rayon::mc::Config { threads, split, shapes, orders };
    let c3 = calls.clone();
    let hook: Hook = Arc::new(move || {
        c3.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        rayon::mc::point();
    });
    let o = rayon::mc::run(cfg, Box::new(gate), || execute(l, Some(hook.clone())));
    let n = calls.load(std::sync::atomic::Ordering::SeqCst);
    if !o.controlled {
        return (None, o.points, n);
    }
    match o.value {
        Ok(s) => (Some(s), o.points, n),
        Err(e) => std::panic::resume_unwind(e),
    }
}

struct Job<'a> {
    l: &'a Load,
    mode: Mode,
    base: &'a Seen,
    window: (u64, u64),
    cap: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Orders,
    Shapes,
    ShapesSplit,
}
impl std::fmt::Debug for Job<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?} {:?} user calls {:?}", self.l, self.mode, self.window)
    }
}

fn sweep(ctx: &Ctx, jobs: &[Job], dev: usize) {
    explore_bounded(ctx.st, jobs, ctx.deadline, dev, || Box::new(()), |j, ch, _| {
        let shared = Arc::new(Mutex::new(std::mem::take(ch)));
        let s2 = shared.clone();
        let cap = j.cap;
        // alternatives beyond the cap: the last one stands for them
        let pick = Box::new(move |n: usize| {
            let k = s2.lock().unwrap().pick(n.min(cap));
            if k + 1 == cap && n > cap { n - 1 } else { k }
        });
        let (seen, points, _) = controlled(
            j.l,
            8,
            j.mode == Mode::ShapesSplit,
            j.mode != Mode::Orders,
            j.mode == Mode::Orders,
            j.window,
            pick,
        );
        *ch = std::mem::take(&mut *shared.lock().unwrap());
        ctx.st.step(points);
        ctx.st.state(hash(&(format!("{:?}", j.l), ch.path())));
        let Some(seen) = seen else {
            ctx.st.count("schedules that block on a lock of the library (not counted)", 1);
            return Ok(());
        };
        seen.agrees(j.base).map_err(|m| format!("a schedule changes the result: {m}"))
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    let ctx = Ctx::new("C06", thorough);
    let loads = loads(thorough);
    ctx.rule("every run of the library under a controlled scheduler (a stand-in for rayon takes each decision: which piece of parallel work starts or goes on at every start, end and user-function call, and how each reduction is split) ends with bitwise the same solutions, observer counts and checkpoints as the undisturbed run; real rayon pools of 1 to 8 threads give the same digests");
    ctx.assume("pieces of parallel work interact only at their start and end, or at calls of the user's functions");
    ctx.assume("an error that several pieces of work could raise may be any of theirs");
    // digests of the same loads from real rayon pools
    let real: HashMap<String, String> = std::env::var("GSMC_REAL")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().filter_map(|l| l.split_once('\t').map(|(a, b)| (a.into(), b.into()))).collect())
        .unwrap_or_default();
    if std::env::var("GSMC_DEBUG").is_ok() { debug_loads(&loads); }
    let base: Vec<(Seen, u64)> = loads
        .iter()
        .map(|l| {
            let (s, _, n) = controlled(l, 8, false, false, false, (0, 0), Box::new(|_| 0));
            (s.expect("the undisturbed run blocks"), n)
        })
        .collect();
    for (l, (s, n)) in loads.iter().zip(&base) {
        ctx.st.sample(|| format!("{l:?}: {n} user calls, {}", s.brief()));
        if let Some(r) = real.get(&l.name()) {
            ctx.st.count("loads compared with real rayon pools", 1);
            if *r != s.digest() {
                ctx.st.violation(
                    l.name(),
                    String::new(),
                    format!("real rayon pools give {r}, the stand-in gives {}", s.digest()),
                );
            }
        }
    }
    ctx.phase("thread counts and fixed strategies", || {
        let mut items = vec![];
        for (i, l) in loads.iter().enumerate() {
            for threads in [1, 2, 3, 5, 16, 64] {
                for strat in 0..8 {
                    items.push((i, l, threads, strat));
                }
            }
        }
        for_all(ctx.st, &items, ctx.deadline, |(i, l, threads, strat)| {
            let mut k = 0usize;
            let strat = *strat;
            let pick = Box::new(move |n: usize| {
                k += 1;
                match strat {
                    0 => 0,
                    1 => n - 1,
                    2 => 1 % n,
                    3 => k % n,
                    4 => (n - 1) * (k % 2),
                    5 => n / 2,
                    6 => (k / 3) % n,
                    _ => (k * 7 + k / 5) % n,
                }
            });
            let (s, p, _) = controlled(l, *threads, strat % 2 == 1, true, true, (0, u64::MAX), pick);
            ctx.st.step(p);
            ctx.st.state(hash(&(i, threads, strat)));
            match s {
                Some(s) => s.agrees(&base[*i].0).map_err(|m| format!("a schedule changes the result: {m}")),
                None => {
                    ctx.st.count("schedules that block on a lock of the library (not counted)", 1);
                    Ok(())
                }
            }
        });
    });
    let job = |i: usize, mode, window, cap| Job { l: &loads[i], mode, base: &base[i].0, window, cap };
    let small: Vec<usize> = (0..loads.len()).filter(|i| loads[*i].size == Size::Small).collect();
    let large: Vec<usize> = (0..loads.len()).filter(|i| loads[*i].size == Size::Large).collect();
    let all = (0, u64::MAX);
    ctx.phase("split of reductions, one or two deviations", || {
        let mut v = vec![];
        for m in [Mode::Shapes, Mode::ShapesSplit] {
            v.extend(small.iter().map(|i| job(*i, m, all, 2)));
        }
        sweep(&ctx, &v, 1);
        if thorough {
            sweep(&ctx, &v, 2);
        }
        let mut v = vec![];
        for m in [Mode::Shapes, Mode::ShapesSplit] {
            v.extend(large.iter().map(|i| job(*i, m, all, 2)));
        }
        sweep(&ctx, &v, 1);
    });
    ctx.phase("orders and preemptions, one deviation, small loads", || {
        let v: Vec<Job> = small.iter().map(|i| job(*i, Mode::Orders, all, usize::MAX)).collect();
        sweep(&ctx, &v, 1);
    });
    ctx.phase("orders and preemptions, one deviation, large loads", || {
        let cap = if thorough { 12 } else { 4 };
        let v: Vec<Job> = large.iter().map(|i| job(*i, Mode::Orders, all, cap)).collect();
        sweep(&ctx, &v, 1);
    });
    ctx.phase("orders and preemptions in Stage 2, more deviations", || {
        let tiny: Vec<usize> = small.iter().copied().filter(|i| loads[*i].tiny).collect();
        let v: Vec<Job> =
            tiny.iter().map(|i| job(*i, Mode::Orders, (loads[*i].stage1_calls(), u64::MAX), usize::MAX)).collect();
        sweep(&ctx, &v, if thorough { 4 } else { 3 });
    });
    ctx.phase("orders and preemptions, two deviations", || {
        let v: Vec<Job> = small
            .iter()
            .filter(|i| thorough || loads[**i].tiny)
            .map(|i| job(*i, Mode::Orders, all, usize::MAX))
            .collect();
        sweep(&ctx, &v, 2);
    });
    ctx.finish();
}
#[allow(unused)]
fn debug_loads(loads: &[Load]) {
    for l in loads {
        let n = Arc::new(Mutex::new((0u64, 0u64)));
        let n2 = n.clone();
        let (s, p, calls) = controlled(l, 8, false, false, true, (0, u64::MAX), Box::new(move |k| { let mut g = n2.lock().unwrap(); g.0 += 1; g.1 += k as u64 - 1; 0 }));
        let n3 = Arc::new(Mutex::new((0u64, 0u64)));
        let n4 = n3.clone();
        controlled(l, 8, false, false, true, (l.stage1_calls(), u64::MAX), Box::new(move |k| { let mut g = n4.lock().unwrap(); g.0 += 1; g.1 += k as u64 - 1; 0 }));
        eprintln!("points {p} {:?} stage2 {:?} calls {calls} s1 {} : {} {}", n.lock().unwrap(), n3.lock().unwrap(), l.stage1_calls(), s.map_or("-".into(), |s| s.brief()), l.name());
    }
}
