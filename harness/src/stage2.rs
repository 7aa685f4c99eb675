//! The refinement phase under every scripted landscape: C01 C02 C03 C05 C08 C09.
use crate::core::*;
use crate::explore::*;
use crate::funs::*;
use crate::model::*;
use crate::report::Ctx;
use crate::script::*;
use crate::trace::*;
use rand::SeedableRng;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use std::sync::Arc;

#[derive(Clone)]
pub struct Cfg {
    pub geo: Arc<Geo>,
    pub vals: Arc<Vec<Ans>>,
    pub fvals: Arc<Vec<Ans>>,
    pub spec: Spec,
}
impl std::fmt::Debug for Cfg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{} points={:?} basins={:?} values={:?} basin values={:?}; {}",
            self.geo.name,
            self.geo.pts,
            self.geo.targets,
            self.vals,
            self.fvals,
            self.spec.brief()
        )
    }
}

pub struct Worker {
    pub pool: rayon::ThreadPool,
    pub dir: Scratch,
}
pub fn worker() -> Box<dyn std::any::Any> {
    Box::new(Worker {
        pool: rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap(),
        dir: Scratch::new("w"),
    })
}

pub fn nums(v: &[f64]) -> Arc<Vec<Ans>> {
    Arc::new(v.iter().map(|x| Some(*x)).collect())
}

pub fn geo1(n: usize) -> Arc<Geo> {
    let c: [&[f64]; 4] = [&[2.5], &[8.0], &[6.0], &[1.5]];
    Arc::new(Geo::new("1d", &[(0.0, 10.0)], &c[..n], &[&[3.0], &[3.5], &[7.0], &[12.0]]))
}
/// three basins, all inside
pub fn geo1in(n: usize) -> Arc<Geo> {
    let c: [&[f64]; 4] = [&[2.5], &[8.0], &[6.0], &[1.5]];
    Arc::new(Geo::new("1d-in", &[(0.0, 10.0)], &c[..n], &[&[3.0], &[3.5], &[7.0]]))
}
pub fn geo2(n: usize) -> Arc<Geo> {
    let c: [&[f64]; 3] = [&[3.0, 4.0], &[9.0, 1.0], &[1.0, 8.0]];
    Arc::new(Geo::new(
        "2d",
        &[(0.0, 10.0), (0.0, 10.0)],
        &c[..n],
        &[&[6.0, 8.0], &[9.0, 4.0], &[4.0, -1.0]],
    ))
}

/// One complete run and everything read off it.
pub struct Exec {
    pub ran: Ran,
    pub log: Vec<Ev>,
    pub s1: Stage1,
    pub par: Parsed,
    /// trial orders under which the run may be explained (checkpointed order, shuffled order)
    pub orders: Vec<Vec<Pt>>,
    pub ck: Option<globalsearch::types::OQNLPCheckpoint>,
}

pub fn shuffled(s1: &Stage1, seed: u64) -> Option<Vec<Pt>> {
    let (rs, _) = s1.out.as_ref().ok()?;
    let mut v = rs.clone();
    v.shuffle(&mut StdRng::seed_from_u64(seed));
    Some(v.into_iter().map(|x| x.0).collect())
}

pub fn exec<P: Traced>(p: &P, spec: &Spec, w: &Worker) -> Exec {
    let mut spec = spec.clone();
    let mut own_ck = false;
    if spec.ck.is_none() {
        w.dir.clear();
        own_ck = true;
        spec.ck = Some(CkSpec {
            dir: w.dir.0.clone(),
            name: "c".into(),
            freq: usize::MAX,
            keep_all: false,
            auto: false,
        });
    }
    let log = p.log().clone();
    let (q, l2) = (p.clone(), log.clone());
    let (ran, s1) = w.pool.install(|| {
        let ran = run(q, &spec, &l2);
        (ran, stage1(p, &spec))
    });
    let log = log.take();
    let mut or = Oracle::new(p, &spec);
    let from = s1.log.len().min(log.len());
    let cands: Vec<Pt> = match (&s1.out, &spec.solver) {
        (Ok((rs, _)), globalsearch::types::LocalSolverType::COBYLA) => rs.iter().map(|r| r.0.clone()).collect(),
        _ => vec![],
    };
    let par = parse(&log, from, &mut or, &cands);
    let ckp = if own_ck { ck::latest(spec.ck.as_ref().unwrap()).ok() } else { None };
    let mut orders = vec![];
    if let Some(c) = &ckp {
        orders.push(ck::refset(c));
    }
    if let Some(o) = shuffled(&s1, spec.seed) {
        if !orders.iter().any(|x| x.iter().zip(&o).all(|(a, b)| same(a, b)) && x.len() == o.len()) {
            orders.push(o);
        }
    }
    Exec { ran, log, s1, par, orders, ck: ckp }
}

pub fn show(e: &Exec) -> String {
    format!(
        "result: {:?}\nlocal searches (start -> outcome): {:?}\ntrial orders: {:?}\nStage 1: {:?}\nthreshold at the end: {:?}",
        e.ran.end,
        e.par.searches.iter().map(|s| (s.start.clone(), s.outcome.clone())).collect::<Vec<_>>(),
        e.orders,
        e.s1.out,
        e.ck.as_ref().map(|c| c.merit_threshold)
    )
}

fn ctx_err(p: &Script, e: &Exec, m: String) -> String {
    format!("{m}\n{}\n{}", p.describe(), show(e))
}

/// Drive one script through the explorer.
pub fn drive(
    cx: &Ctx,
    configs: &[Cfg],
    check: impl Fn(&Cfg, &Script, &Worker, &Stats) -> Result<(), String> + Sync,
) {
    explore(cx.st, configs, cx.deadline, worker, |c, ch, w| {
        let w = w.downcast_ref::<Worker>().unwrap();
        let p = Script::new(c.geo.clone(), c.vals.clone(), c.fvals.clone(), std::mem::take(ch));
        let r = check(c, &p, w, cx.st);
        *ch = p.take_choices();
        r
    });
}

/// As `drive`, exploring every execution with at most `dev` answers other than the usual ones.
pub fn drive_dev(
    cx: &Ctx,
    configs: &[Cfg],
    dev: usize,
    check: impl Fn(&Cfg, &Script, &Worker, &Stats) -> Result<(), String> + Sync,
) {
    explore_bounded(cx.st, configs, cx.deadline, dev, worker, |c, ch, w| {
        let w = w.downcast_ref::<Worker>().unwrap();
        let p = Script::new(c.geo.clone(), c.vals.clone(), c.fvals.clone(), std::mem::take(ch));
        let r = check(c, &p, w, cx.st);
        *ch = p.take_choices();
        r
    });
}

/// Many points, each with a basin of its own next to it.
/// `v` and `f` give the index of the usual value of a point and of its basin.
pub fn crowd(n: usize, dim: usize, v: impl Fn(usize) -> usize, f: impl Fn(usize) -> usize) -> Arc<Geo> {
    let top = 8.0 * n as f64;
    let bounds = vec![(0.0, top); dim];
    let custom: Vec<Pt> = (0..n - 3)
        .map(|i| (0..dim).map(|d| 8.0 * (1.0 + ((i * (2 * d + 1)) % (n - 2)) as f64) + 0.5 * ((i + d) % 3) as f64).collect())
        .collect();
    let refs: Vec<&[f64]> = custom.iter().map(|c| &c[..]).collect();
    let mut g = Geo::new("crowd", &bounds, &refs, &[]);
    // one more basin, out of bounds
    g.targets = g.pts.iter().map(|p| p.iter().enumerate().map(|(d, x)| if *x == top { x - 0.25 } else { x + 0.25 * (d + 1) as f64 }).collect()).collect();
    g.targets.push((0..dim).map(|d| if d == 0 { top + 4.0 } else { 4.0 }).collect());
    g.base = Some(Base {
        v: (0..n).map(&v).collect(),
        tgts: (0..n).map(|i| {
            let mut t = vec![i, (i + 1) % n, n];
            if i > 1 { t.push(0) }
            t
        }).collect(),
        f: (0..=n).map(&f).collect(),
    });
    Arc::new(g)
}

/// Large landscapes of three shapes: a set that keeps growing, one that keeps being replaced,
/// and one where most trials are rejected.
pub fn crowds(n: usize, batches: &[Batch]) -> Vec<Cfg> {
    let mut out = vec![];
    for &batch in batches {
        for shape in 0..3 {
            for dim in [1, 3] {
                let (geo, vals, fvals, s) = match shape {
                    0 => (
                        crowd(n, dim, |_| 0, |_| 0),
                        vec![1.0, 2.0, 0.625],
                        vec![0.5, 0.75, 0.25, -1.0],
                        Spec { df: 1.0, wait: 1, tol: Some((0.25, 0.0)), ..Default::default() },
                    ),
                    1 => (
                        crowd(n, dim, |i| i % 3, |i| (i * 5) % 8),
                        vec![1.0, 2.0, 3.0],
                        vec![0.5, -0.5, -1.5, -2.0, -2.5, -3.0, -3.0 + 1e-9, -4.0],
                        Spec { df: 0.5, wait: 2, exclude: true, ..Default::default() },
                    ),
                    _ => (
                        crowd(n, dim, |i| (i * 7) % 5, |i| i % 3),
                        vec![1.0, 2.0, 3.0, 5.0, 20.0],
                        vec![0.75, 0.5, 0.0],
                        Spec { df: 9.0, wait: 3, tf: 0.3, tol: Some((0.0, 0.5)), ..Default::default() },
                    ),
                };
                // in the largest crowds, fewer alternatives
                out.push(Cfg {
                    spec: Spec { pop: n, iters: n, custom: Some(geo.custom()), batch, seed: 3 + shape, ..s },
                    geo,
                    vals: nums(&vals),
                    fvals: nums(&fvals),
                });
            }
        }
    }
    out
}

/// The crowds of a check and how many unusual answers each may contain.
pub fn crowd_sizes(thorough: bool) -> Vec<(usize, usize)> {
    if thorough { vec![(12, 3), (28, 2), (90, 1), (300, 1)] } else { vec![(16, 2), (72, 1), (300, 0)] }
}
pub fn crowd_phase(
    cx: &Ctx,
    tune: impl Fn(&mut Cfg),
    check: impl Fn(&Cfg, &Script, &Worker, &Stats) -> Result<(), String> + Sync,
) {
    crowd_runs(cx, &crowd_sizes(cx.thorough), tune, check)
}
pub fn crowd_runs(
    cx: &Ctx,
    sizes: &[(usize, usize)],
    tune: impl Fn(&mut Cfg),
    check: impl Fn(&Cfg, &Script, &Worker, &Stats) -> Result<(), String> + Sync,
) {
    for &(n, dev) in sizes {
        let mut cfgs = crowds(n, &[Batch::Off, Batch::N(3), Batch::N(8)]);
        cfgs.iter_mut().for_each(&tune);
        cx.bound(&format!("crowds of {n} points"), format!("{} configurations, at most {dev} unusual answers", cfgs.len()));
        cx.phase(&format!("crowds of {n}"), || drive_dev(cx, &cfgs, dev, &check));
    }
}

fn no_panic(e: &Exec) -> Result<(), String> {
    match &e.ran.end {
        End::Panic(m) => Err(format!("the search panicked: {m}")),
        _ => Ok(()),
    }
}

/// Replay the observed outcomes through the reference model.
pub fn replay(spec: &Spec, bounds: &[(f64, f64)], outs: &[(Pt, f64)], st: Option<&Stats>) -> Model {
    let mut m = Model::new(spec, bounds);
    for (i, o) in outs.iter().enumerate() {
        if i == 0 {
            m.stage1(o.clone());
        } else {
            m.process(o.clone());
        }
        if let Some(st) = st {
            st.state(m.key());
        }
    }
    m
}

pub fn batches(thorough: bool) -> Vec<Batch> {
    if thorough {
        vec![Batch::Off, Batch::N(1), Batch::N(2), Batch::N(3), Batch::N(4), Batch::N(9)]
    } else {
        vec![Batch::Off, Batch::N(2), Batch::N(4)]
    }
}

// ---------------------------------------------------------------- C01

pub fn oracle_c01(
    spec: &Spec,
    bounds: &[(f64, f64)],
    e: &Exec,
    f: impl Fn(&[f64]) -> Option<f64>,
) -> Result<(), String> {
    no_panic(e)?;
    let outs = e.par.outcomes();
    let eligible: Vec<&(Pt, f64)> =
        outs.iter().filter(|o| !spec.exclude || inside(&o.0, bounds)).collect();
    match &e.ran.end {
        End::Ok(set) => {
            let best = set.iter().fold(f64::NAN, |b, s| if rank(s.1, b).is_lt() { s.1 } else { b });
            let m = Model::new(spec, bounds);
            for o in &eligible {
                if m.better(o.1, best) {
                    return Err(format!(
                        "a local search found {o:?}, but the best solution returned has objective {best}"
                    ));
                }
            }
            for s in set {
                if !outs.iter().any(|o| same(&o.0, &s.0) && o.1.to_bits() == s.1.to_bits()) {
                    return Err(format!("returned solution {s:?} is no local search's outcome"));
                }
                let v = f(&s.0);
                if v.map(f64::to_bits) != Some(s.1.to_bits()) {
                    return Err(format!("returned solution {s:?}, but the objective there is {v:?}"));
                }
            }
            Ok(())
        }
        End::Err(x) => {
            if eligible.is_empty() {
                Ok(())
            } else {
                Err(format!("the search failed with '{x}' although local searches succeeded"))
            }
        }
        End::Panic(_) => unreachable!(),
    }
}

fn value_at(p: &Script, x: &[f64]) -> Option<f64> {
    let s = p.st.lock().unwrap();
    if let Some(i) = p.pt_index(x) {
        s.v[i].flatten()
    } else if let Some(i) = p.target_index(x) {
        s.ft[i].flatten()
    } else {
        None
    }
}

/// The outcome the script dictates for a search from `start`: independent of the local solver.
fn scripted_outcomes(p: &Script, e: &Exec) -> Result<(), String> {
    for s in &e.par.searches {
        let (Some(i), Ok(o)) = (p.pt_index(&s.start), &s.outcome) else { continue };
        let st = p.st.lock().unwrap();
        let (Some(v), Some(t)) = (st.v[i].flatten(), st.tgt[i]) else { continue };
        let want = match st.ft[t].flatten() {
            Some(f) if f < v => f,
            _ => v,
        };
        if o.1.to_bits() != want.to_bits() {
            return Err(format!(
                "the local search from {:?} visited objective {want} but its outcome is {o:?}",
                s.start
            ));
        }
    }
    Ok(())
}

/// The run again with targets that its outcomes reach, other than right after the first search.
fn aimed(c: &Cfg, p: &Script, w: &Worker, st: &Stats, e: &Exec, check: impl Fn(&Spec, &Exec) -> Result<(), String>) -> Result<(), String> {
    let outs = e.par.outcomes();
    let first = outs.first().map_or(f64::NAN, |o| o.1);
    let mut vals: Vec<f64> = outs.iter().map(|o| o.1).filter(|v| *v < first).collect();
    vals.sort_by(f64::total_cmp);
    vals.dedup();
    // the best of them is reached last: nothing better is left to be lost
    for &v in vals.iter().skip(1).rev().take(2) {
        let s = Spec { target: Some(v), ..c.spec.clone() };
        let q = p.again();
        let e = exec(&q, &s, w);
        st.step(1);
        check(&s, &e).map_err(|m| ctx_err(&q, &e, format!("with the target {v}: {m}")))?;
    }
    Ok(())
}

pub fn c01(cx: &Ctx) {
    cx.rule("stateless DFS over all answers of a scripted problem (objective of every reference point, basin reached from every start, value of every basin) x configuration lattice; a state is the model state (threshold, solution set, found solutions) after a local search");
    let mut cfgs = vec![];
    for b in batches(cx.thorough) {
        for (tol, fv) in [
            (None, vec![-1.0, 0.5, 1.5]),
            (Some((0.25, 0.0)), vec![0.5, 0.75, 0.25]),
            (Some((0.0, 0.5)), vec![-1.0, -0.5, -3.0]),
        ] {
            for df in [0.0, 1.0] {
                let mut tfs = vec![(1.0, 1)];
                if cx.thorough {
                    tfs.push((0.3, 2));
                }
                for (tf, wait) in tfs {
                    for exclude in [false, true] {
                        for geo in [geo1(1), geo2(1)] {
                            cfgs.push(Cfg {
                                spec: Spec {
                                    pop: geo.pts.len(),
                                    iters: geo.pts.len(),
                                    custom: Some(geo.custom()),
                                    df: if geo.name == "2d" { df * 5.0 } else { df },
                                    tf,
                                    wait,
                                    exclude,
                                    batch: b,
                                    tol,
                                    ..Default::default()
                                },
                                geo,
                                vals: nums(&[1.0, 2.0, 4.0]),
                                fvals: nums(&fv),
                            });
                        }
                    }
                }
            }
        }
    }
    cx.bound("configurations", cfgs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, |c, p, w, st| {
            let e = exec(p, &c.spec, w);
            replay(&c.spec, &c.geo.bounds, &e.par.outcomes(), Some(st));
            st.sample(|| ctx_err(p, &e, String::new()));
            oracle_c01(&c.spec, &c.geo.bounds, &e, |x| value_at(p, x))
                .and_then(|_| scripted_outcomes(p, &e))
                .map_err(|m| ctx_err(p, &e, m))?;
            aimed(c, p, w, st, &e, |s, e| oracle_c01(s, &c.geo.bounds, e, |x| value_at(p, x)))
        })
    });
    crowd_phase(cx, |_| (), |c, p, w, st| {
        let e = exec(p, &c.spec, w);
        oracle_c01(&c.spec, &c.geo.bounds, &e, |x| value_at(p, x))
            .and_then(|_| scripted_outcomes(p, &e))
            .map_err(|m| ctx_err(p, &e, m))?;
        aimed(c, p, w, st, &e, |s, e| oracle_c01(s, &c.geo.bounds, e, |x| value_at(p, x)))
    });
    let ls = lattice(cx.thorough, &batches(cx.thorough));
    cx.bound("ordinary runs", ls.len());
    cx.phase("ordinary functions", || {
        l_runs(cx, &ls, |c, e| oracle_c01(&c.spec, &c.fun.bounds, e, |x| c.fun.value(x)))
    });
}

// ---------------------------------------------------------------- lattice of ordinary runs

#[derive(Clone)]
pub struct LCase {
    pub fun: Fun,
    pub spec: Spec,
    pub tag: String,
}
impl std::fmt::Debug for LCase {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} on {:?} ({}) {}", self.fun.kind, self.fun.bounds, self.tag, self.spec.brief())
    }
}

pub fn boxes() -> Vec<Vec<(f64, f64)>> {
    vec![
        vec![(-2.0, 2.0)],
        vec![(-1.5, 3.0), (-2.0, 2.0)],
        vec![(-2.0, 2.5), (-1.25, 1.75), (0.1, 2.0)],
    ]
}

/// Ordinary functions x boxes x solvers x populations x batches x seeds.
pub fn lattice(thorough: bool, batches: &[Batch]) -> Vec<LCase> {
    let mut v = vec![];
    let pops: &[(usize, usize)] =
        if thorough { &[(4, 4), (5, 3), (8, 8), (12, 7), (20, 20), (27, 27)] } else { &[(4, 4), (7, 5), (21, 21)] };
    let seeds: &[u64] = if thorough { &[0, 1, 7, u64::MAX] } else { &[0, u64::MAX] };
    for kind in KINDS {
        for (bi, b) in boxes().into_iter().enumerate() {
            for (name, st, cfg) in solvers() {
                if kind == Kind::Patchy && name != "cobyla" {
                    continue;
                }
                for &(pop, iters) in pops {
                    for &batch in batches {
                        for &seed in seeds {
                            if !thorough && bi == 2 && pop > 10 && seed != 0 {
                                continue;
                            }
                            v.push(LCase {
                                fun: Fun::new(kind, &b),
                                spec: Spec {
                                    pop,
                                    iters,
                                    wait: 2,
                                    tf: 0.4,
                                    df: 0.3,
                                    seed,
                                    solver: st.clone(),
                                    config: cfg.clone(),
                                    batch,
                                    ..Default::default()
                                },
                                tag: name.into(),
                            });
                        }
                    }
                }
            }
        }
    }
    // large populations, and more dimensions
    let wide: Vec<(f64, f64)> = (0..8).map(|i| (-1.0 - 0.25 * i as f64, 2.0)).collect();
    for (kind, bounds, pop, iters) in [
        (Kind::Ripple, boxes()[0].clone(), 130, 130),
        (Kind::Wells, boxes()[1].clone(), 130, 101),
        (Kind::Slope, boxes()[1].clone(), 270, 260),
        (Kind::Ripple, wide.clone(), 24, 24),
        (Kind::Wells, wide, 70, 33),
    ] {
        for (name, st, cfg) in solvers() {
            for &batch in batches {
                v.push(LCase {
                    fun: Fun::new(kind, &bounds),
                    spec: Spec {
                        pop,
                        iters,
                        wait: 3,
                        tf: 0.4,
                        df: 0.05,
                        seed: 5,
                        solver: st.clone(),
                        config: cfg.clone(),
                        batch,
                        ..Default::default()
                    },
                    tag: name.into(),
                });
            }
        }
    }
    v
}

thread_local! {
    static WK: Worker = Worker {
        pool: rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap(),
        dir: Scratch::new("l"),
    };
}
pub fn with_worker<T>(f: impl FnOnce(&Worker) -> T) -> T {
    WK.with(|w| f(w))
}

pub fn l_runs(cx: &Ctx, cases: &[LCase], check: impl Fn(&LCase, &Exec) -> Result<(), String> + Sync) {
    for_all(cx.st, cases, cx.deadline, |c| {
        with_worker(|w| {
            let e = exec(&c.fun.again(), &c.spec, w);
            cx.st.step(e.log.len() as u64);
            if e.log.len() > CAP {
                cx.st.count(&format!("cut off after {CAP} calls: {:?} {}", c.fun.kind, c.tag), 1);
                return Ok(());
            }
            replay(&c.spec, &c.fun.bounds, &e.par.outcomes(), Some(cx.st));
            check(c, &e).map_err(|m| format!("{m}\n{}", show(&e)))
        })
    });
}

// ---------------------------------------------------------------- C02

fn as_multiset(s: &[(Pt, f64)]) -> Vec<(Vec<u64>, u64)> {
    let mut v: Vec<_> = s.iter().map(|x| (bits(&x.0), x.1.to_bits())).collect();
    v.sort();
    v
}

pub fn oracle_set(spec: &Spec, bounds: &[(f64, f64)], e: &Exec) -> Result<(), String> {
    no_panic(e)?;
    let m = replay(spec, bounds, &e.par.outcomes(), None);
    match &e.ran.end {
        End::Ok(set) => {
            if set.is_empty() {
                return Err("an empty solution set was returned".into());
            }
            for (i, a) in set.iter().enumerate() {
                if !m.tie(a.1, set[0].1) && !(a.1.is_nan() && set[0].1.is_nan()) {
                    return Err(format!("member {a:?} does not tie with {:?}", set[0]));
                }
                for b in &set[..i] {
                    if d2(&a.0, &b.0) < spec.df * spec.df {
                        return Err(format!("members {a:?} and {b:?} are closer than {}", spec.df));
                    }
                }
            }
            if as_multiset(set) != as_multiset(&m.set) {
                return Err(format!("returned {set:?}, but the local searches make it {:?}", m.set));
            }
            if set[0].1.to_bits() != m.set[0].1.to_bits() {
                return Err(format!("the first member is {:?} instead of {:?}", set[0], m.set[0]));
            }
        }
        End::Err(x) => {
            if !m.set.is_empty() && e.par.searches.iter().all(|s| s.outcome.is_ok()) && !e.log.is_empty() {
                let failed = e.log.iter().any(|l| matches!(l, Ev::Obj(_, None)));
                if !failed || !m.set.is_empty() {
                    return Err(format!("the search failed with '{x}' instead of returning {:?}", m.set));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn script_cfgs(
    geos: &[Arc<Geo>],
    vals: &[f64],
    fvals: &[Vec<f64>],
    specs: &[Spec],
) -> Vec<Cfg> {
    let mut v = vec![];
    for g in geos {
        for fv in fvals {
            for s in specs {
                v.push(Cfg {
                    spec: Spec {
                        pop: g.pts.len(),
                        iters: s.iters.min(g.pts.len()),
                        custom: Some(g.custom()),
                        df: if g.bounds.len() == 2 { s.df * 5.0 } else { s.df },
                        ..s.clone()
                    },
                    geo: g.clone(),
                    vals: nums(vals),
                    fvals: nums(fv),
                });
            }
        }
    }
    v
}

/// Every combination of the given alternatives.
pub struct Axes {
    pub batch: Vec<Batch>,
    pub wait: Vec<usize>,
    pub tf: Vec<f64>,
    pub df: Vec<f64>,
    pub exclude: Vec<bool>,
    pub tol: Vec<Option<(f64, f64)>>,
    pub target: Vec<Option<f64>>,
    pub seed: Vec<u64>,
    pub iters: Vec<usize>,
}
impl Default for Axes {
    fn default() -> Self {
        Axes {
            batch: vec![Batch::Off],
            wait: vec![1],
            tf: vec![1.0],
            df: vec![1.0],
            exclude: vec![false],
            tol: vec![None],
            target: vec![None],
            seed: vec![0],
            iters: vec![usize::MAX],
        }
    }
}
impl Axes {
    pub fn specs(&self) -> Vec<Spec> {
        let mut v = vec![];
        for &batch in &self.batch {
            for &wait in &self.wait {
                for &tf in &self.tf {
                    for &df in &self.df {
                        for &exclude in &self.exclude {
                            for &tol in &self.tol {
                                for &target in &self.target {
                                    for &seed in &self.seed {
                                        for &iters in &self.iters {
                                            v.push(Spec {
                                                batch,
                                                wait,
                                                tf,
                                                df,
                                                exclude,
                                                tol,
                                                target,
                                                seed,
                                                iters,
                                                ..Default::default()
                                            });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        v
    }
}

pub fn c02(cx: &Ctx) {
    cx.rule("stateless DFS over all answers of a scripted problem x configuration lattice; the returned set is compared with the set the reference model builds from the observed local-search outcomes; a state is the model state after a local search");
    let t = cx.thorough;
    let mut cfgs = vec![];
    // values exactly at, just inside and just outside the tolerances
    let eps = 2f64.powi(-30);
    for (tol, fvs) in [
        (None, vec![vec![-1.0, 0.5, 1.5], vec![0.5, 0.5 + 1e-9, 0.5 + 1e-6], vec![0.0, 1e-8, 1.0000001e-8]]),
        (Some((0.25, 0.0)), vec![vec![0.5, 0.75, 0.25], vec![0.5, 0.75 + eps, 0.25 - eps]]),
        (Some((0.0, 0.5)), vec![vec![-1.0, -0.5, -3.0], vec![-2.0, -1.0, -1.0 + eps], vec![0.5, 0.25, -0.5]]),
        (Some((0.0, 0.0)), vec![vec![0.5, 0.5 + eps, 0.0]]),
    ] {
        let a = Axes {
            batch: batches(t),
            wait: if t { vec![1, 2] } else { vec![1] },
            tf: vec![1.0],
            df: if t { vec![0.0, 0.5, 1.0, 2.0] } else { vec![0.5, 1.0] },
            exclude: vec![false],
            tol: vec![tol],
            ..Default::default()
        };
        cfgs.extend(script_cfgs(&[geo1in(1), geo2(1)], &[1.0, 2.0, 4.0], &fvs, &a.specs()));
    }
    // longer histories: more points, all of them start a search
    let a = Axes {
        batch: if t { vec![Batch::Off, Batch::N(3), Batch::N(6)] } else { vec![Batch::Off, Batch::N(3)] },
        df: vec![0.5],
        tol: vec![Some((0.25, 0.0))],
        ..Default::default()
    };
    cfgs.extend(script_cfgs(
        &[geo1in(if t { 3 } else { 2 })],
        &[1.0, 2.0],
        &[vec![0.5, 0.75, 1.0]],
        &a.specs(),
    ));
    cx.bound("configurations", cfgs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, |c, p, w, st| {
            let e = exec(p, &c.spec, w);
            replay(&c.spec, &c.geo.bounds, &e.par.outcomes(), Some(st));
            st.sample(|| ctx_err(p, &e, String::new()));
            oracle_set(&c.spec, &c.geo.bounds, &e).map_err(|m| ctx_err(p, &e, m))?;
            aimed(c, p, w, st, &e, |s, e| oracle_set(s, &c.geo.bounds, e))
        })
    });
    crowd_phase(cx, |_| (), |c, p, w, st| {
        let e = exec(p, &c.spec, w);
        oracle_set(&c.spec, &c.geo.bounds, &e).map_err(|m| ctx_err(p, &e, m))?;
        aimed(c, p, w, st, &e, |s, e| oracle_set(s, &c.geo.bounds, e))
    });
    let ls = lattice(t, &batches(t));
    cx.bound("ordinary runs", ls.len());
    cx.phase("ordinary functions", || {
        l_runs(cx, &ls, |c, e| oracle_set(&c.spec, &c.fun.bounds, e))
    });
}

// ---------------------------------------------------------------- C03

fn geo_edge() -> Arc<Geo> {
    let out = 10.0 + 2f64.powi(-20);
    Arc::new(Geo::new(
        "edge",
        &[(0.0, 10.0), (0.0, 10.0)],
        &[&[3.0, 4.0]],
        &[&[10.0, 4.0], &[out, 4.0], &[6.0, -(2f64.powi(-20))], &[0.0, 8.0]],
    ))
}
/// one unit in the last place outside
fn geo_ulp() -> Arc<Geo> {
    Arc::new(Geo::new(
        "ulp",
        &[(0.0, 10.0), (-1.0, 10.0)],
        &[&[3.0, 4.0]],
        &[&[10.0f64.next_up(), 4.0], &[6.0, (-1.0f64).next_down()], &[10.0, -1.0], &[-5e-324, 2.0]],
    ))
}
fn geo_edge1() -> Arc<Geo> {
    let g = Geo::new("edge1", &[(0.0, 10.0)], &[&[2.5]], &[&[3.0], &[-1.0], &[12.0]]);
    Arc::new(g)
}

pub fn oracle_c03(spec: &Spec, bounds: &[(f64, f64)], e: &Exec) -> Result<(), String> {
    no_panic(e)?;
    let outs = e.par.outcomes();
    if spec.exclude {
        if let End::Ok(set) = &e.ran.end {
            if let Some(s) = set.iter().find(|s| !inside(&s.0, bounds)) {
                return Err(format!("returned {s:?}, which is out of bounds"));
            }
        }
        if let Some(c) = &e.ck {
            if let Some(set) = &c.solution_set {
                if let Some(s) = set_of(set).iter().find(|s| !inside(&s.0, bounds)) {
                    return Err(format!("the checkpoint holds {s:?}, which is out of bounds"));
                }
            }
        }
        if !outs.is_empty() && outs.iter().all(|o| !inside(&o.0, bounds)) {
            match &e.ran.end {
                End::Err(m) if m.to_lowercase().contains("feasible") => return Ok(()),
                x => return Err(format!("every local search left the box, but the search ended with {x:?}")),
            }
        }
    }
    // what is kept: exactly as usual
    let m = replay(spec, bounds, &outs, None);
    if let End::Ok(set) = &e.ran.end {
        if as_multiset(set) != as_multiset(&m.set) {
            return Err(format!("returned {set:?}, but the kept local searches make it {:?}", m.set));
        }
    } else if !m.set.is_empty() && e.par.searches.iter().all(|s| s.outcome.is_ok()) {
        return Err(format!("ended with {:?} instead of {:?}", e.ran.end, m.set));
    }
    Ok(())
}

pub fn c03(cx: &Ctx) {
    cx.rule("stateless DFS over all answers of a scripted problem whose basins lie inside, exactly on and outside the bounds, with and without a target; a state is the model state after a local search");
    let t = cx.thorough;
    let a = Axes {
        batch: batches(t),
        wait: if t { vec![1, 2] } else { vec![1] },
        df: if t { vec![0.0, 1.0] } else { vec![0.2] },
        exclude: vec![true, false],
        target: vec![None, Some(0.5)],
        ..Default::default()
    };
    let cfgs = script_cfgs(
        &[geo_edge(), geo_ulp(), geo_edge1(), geo1(1)],
        &[1.0, 2.0, 4.0],
        &[vec![-1.0, 0.75, 1.5]],
        &a.specs(),
    );
    cx.bound("configurations", cfgs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, |c, p, w, st| {
            // without the target first: its run has all the answers the other needs
            let free = Spec { target: None, ..c.spec.clone() };
            let b = exec(p, &free, w);
            replay(&c.spec, &c.geo.bounds, &b.par.outcomes(), Some(st));
            st.sample(|| ctx_err(p, &b, String::new()));
            oracle_c03(&free, &c.geo.bounds, &b).map_err(|m| ctx_err(p, &b, m))?;
            if c.spec.target.is_some() {
                let q = p.again();
                let e = exec(&q, &c.spec, w);
                oracle_c03(&c.spec, &c.geo.bounds, &e)
                    .and_then(|_| {
                        // an excluded solution never ends the search early
                        let m = replay(&c.spec, &c.geo.bounds, &e.par.outcomes(), None);
                        if !m.hit(c.spec.target) && e.par.searches.len() < b.par.searches.len() {
                            return Err(format!(
                                "the search ended early without a kept solution at the target; without the target it ran {:?}",
                                b.par.starts()
                            ));
                        }
                        Ok(())
                    })
                    .map_err(|m| ctx_err(p, &e, m))?;
            }
            Ok(())
        })
    });
    crowd_phase(cx, |c| c.spec.exclude = true, |c, p, w, _| {
        let e = exec(p, &c.spec, w);
        oracle_c03(&c.spec, &c.geo.bounds, &e).map_err(|m| ctx_err(p, &e, m))
    });
    let mut ls = lattice(t, &batches(t));
    ls.retain(|c| matches!(c.fun.kind, Kind::Slope | Kind::Tilted | Kind::Sphere));
    let mut more = vec![];
    for c in &ls {
        let mut d = c.clone();
        d.spec.exclude = true;
        // minima outside of the box, too
        if d.fun.kind == Kind::Sphere {
            let n = d.fun.bounds.len() - 1;
            d.fun.bounds[n] = (0.5, 2.0);
        }
        more.push(d.clone());
        d.spec.target = Some(-0.3);
        more.push(d);
    }
    ls.extend(more);
    cx.bound("ordinary runs", ls.len());
    cx.phase("ordinary functions", || {
        l_runs(cx, &ls, |c, e| oracle_c03(&c.spec, &c.fun.bounds, e))
    });
}

// ---------------------------------------------------------------- C05

/// Predict the starts of local searches for a given trial order.
pub fn predict<P: Traced>(
    p: &P,
    spec: &Spec,
    bounds: &[(f64, f64)],
    e: &Exec,
    order: &[Pt],
    st: Option<&Stats>,
) -> Result<(Vec<Pt>, f64), String> {
    let (rs, cand) = e.s1.out.clone()?;
    let mut or = Oracle::new(p, spec);
    let mut m = Model::new(spec, bounds);
    let mut starts = vec![cand.clone()];
    m.stage1(or.solve(&cand).1.clone()?);
    let trials: Vec<(Pt, f64)> = order
        .iter()
        .take(spec.iters)
        .map(|x| {
            let v = rs.iter().find(|r| same(&r.0, x)).map(|r| r.1).unwrap_or(f64::NAN);
            (x.clone(), v)
        })
        .collect();
    for b in trials.chunks(spec.batch_len()) {
        if m.hit(spec.target) {
            break;
        }
        let s = m.batch(b, |x, _| or.solve(x).1.clone())?;
        starts.extend(s);
        if let Some(st) = st {
            st.state(m.key());
        }
    }
    Ok((starts, m.thr))
}

pub fn oracle_c05<P: Traced>(
    p: &P,
    spec: &Spec,
    bounds: &[(f64, f64)],
    e: &Exec,
    st: Option<&Stats>,
) -> Result<(), String> {
    no_panic(e)?;
    let got = e.par.starts();
    let mut why = String::new();
    for (i, order) in e.orders.iter().enumerate() {
        match predict(p, spec, bounds, e, order, if i == 0 { st } else { None }) {
            Ok((want, thr)) => {
                let ok = want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| same(a, b));
                if ok {
                    if let Some(c) = &e.ck {
                        if c.merit_threshold.to_bits() != thr.to_bits() {
                            why += &format!(
                                "the threshold ended at {} instead of {thr}\n",
                                c.merit_threshold
                            );
                            continue;
                        }
                    }
                    return Ok(());
                }
                why += &format!(
                    "with trials in the order {order:?} local searches must start at {want:?}\n"
                );
            }
            Err(x) => {
                // the model itself meets a failing local search: the run has to fail as well
                if matches!(e.ran.end, End::Err(_)) {
                    return Ok(());
                }
                why += &format!("a local search had to fail ({x})\n");
            }
        }
    }
    if e.orders.is_empty() && matches!(e.ran.end, End::Err(_)) {
        return Ok(());
    }
    Err(format!("local searches started at {got:?}\n{why}"))
}

pub fn c05(cx: &Ctx) {
    cx.rule("stateless DFS over all answers of a scripted problem x configuration lattice; the starts of local searches and the final threshold are compared with the reference model's; a state is the model state at the end of a batch");
    let t = cx.thorough;
    let a = Axes {
        batch: batches(t),
        wait: if t { vec![1, 2, 3] } else { vec![1, 2] },
        tf: if t { vec![1.0, 0.5] } else { vec![1.0] },
        df: vec![0.0, 1.0, 2.0],
        exclude: vec![false, true],
        ..Default::default()
    };
    let mut cfgs = script_cfgs(
        &[geo1(1), geo2(1)],
        &[1.0, 2.0, 3.0],
        &[vec![-1.0, 0.5, 1.5], vec![0.0, 1.0, 2.0]],
        &a.specs(),
    );
    let a = Axes {
        batch: if t { vec![Batch::Off, Batch::N(2), Batch::N(3)] } else { vec![Batch::Off, Batch::N(3)] },
        wait: vec![1, 2],
        df: vec![1.0],
        iters: vec![usize::MAX, 3],
        seed: vec![0, 5],
        ..Default::default()
    };
    cfgs.extend(script_cfgs(&[geo1in(if t { 3 } else { 2 })], &[1.0, 2.0, 4.0], &[vec![-1.0, 0.5]], &a.specs()));
    // values of very different size, and infinite ones
    let a = Axes { batch: batches(t), wait: vec![1, 2], df: vec![0.0, 1.0], ..Default::default() };
    for (vals, fv) in [
        ([1.0, 1e6, f64::INFINITY], vec![-1e5, 0.5, 2e5]),
        ([1e-12, 2e-12, 1e300], vec![0.0, -1e-12, 1.5e-12]),
        ([-1e9, -1e9 + 1.0, -3.0], vec![-1e12, -1e9 - 0.5, -5.0]),
        ([1.0, f64::INFINITY, f64::NAN], vec![f64::NEG_INFINITY, f64::INFINITY, f64::NAN]),
    ] {
        cfgs.extend(script_cfgs(&[geo1in(1)], &vals, &[fv], &a.specs()));
    }
    cx.bound("configurations", cfgs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, |c, p, w, st| {
            let e = exec(p, &c.spec, w);
            st.sample(|| ctx_err(p, &e, String::new()));
            oracle_c05(p, &c.spec, &c.geo.bounds, &e, Some(st)).map_err(|m| ctx_err(p, &e, m))
        })
    });
    crowd_phase(cx, |_| (), |c, p, w, st| {
        let e = exec(p, &c.spec, w);
        oracle_c05(p, &c.spec, &c.geo.bounds, &e, Some(st)).map_err(|m| ctx_err(p, &e, m))
    });
    let ls = lattice(t, &batches(t));
    cx.bound("ordinary runs", ls.len());
    cx.phase("ordinary functions", || {
        l_runs(cx, &ls, |c, e| oracle_c05(&c.fun, &c.spec, &c.fun.bounds, e, Some(cx.st)))
    });
}

// ---------------------------------------------------------------- C07

/// Parallel execution off, and on with a batch size of one, on every scripted landscape.
pub fn c07_scripts(cx: &Ctx) {
    let t = cx.thorough;
    let a = Axes {
        wait: vec![1, 2],
        tf: if t { vec![1.0, 0.5] } else { vec![1.0] },
        df: vec![0.0, 1.0],
        exclude: vec![false, true],
        tol: vec![None, Some((0.6, 0.1))],
        target: if t { vec![None, Some(0.5)] } else { vec![None] },
        ..Default::default()
    };
    let cfgs = script_cfgs(&[geo1(1), geo2(1)], &[1.0, 2.0, 3.0], &[vec![-1.0, 0.5, 1.5]], &a.specs());
    cx.bound("scripted configurations", cfgs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, c07_one)
    });
    crowd_phase(cx, |c| c.spec.batch = Batch::Off, c07_one);
}
fn c07_one(c: &Cfg, p: &Script, w: &Worker, st: &Stats) -> Result<(), String> {
            let o = Some(ObsSpec { mode: 3, freq: 1, callback: Cb::Rec, timing: false });
            let e = exec(p, &Spec { obs: o.clone(), ..c.spec.clone() }, w);
            let q = p.again();
            let f = exec(&q, &Spec { batch: Batch::N(1), obs: o, ..c.spec.clone() }, w);
            st.step(2);
            st.state(hash(&format!("{:?} {:?}", e.ran.end, e.par.starts())));
            let cb = |e: &Exec| {
                e.ran.cbs.iter().map(|c| format!("{:?} {:?}", c.s1.as_ref().map(|s| (s.evals, s.refset)), c.s2.as_ref().map(|s| (s.iter, s.evals, s.calls, s.improved, s.set_size, s.thr.to_bits(), s.unchanged)))).collect::<Vec<_>>()
            };
            if !e.ran.end.same(&f.ran.end) {
                return Err(ctx_err(p, &e, format!("with a batch size of one the search ends with {:?}", f.ran.end)));
            }
            if matches!(e.ran.end, End::Ok(_)) && cb(&e) != cb(&f) {
                return Err(ctx_err(p, &e, format!("with a batch size of one the observer reports {:?}\ninstead of {:?}", cb(&f), cb(&e))));
            }
            Ok(())
}

// ---------------------------------------------------------------- C08

/// Batch number of every local search of a run (0: Stage 1). `Some(None)`: a point that is in
/// the reference set more than once leaves it open.
fn batch_of(e: &Exec, n: usize) -> Option<Option<Vec<usize>>> {
    let twice = |x: &Pt, o: &[Pt]| o.iter().filter(|y| same(x, y)).count() > 1;
    let mut open = false;
    for o in &e.orders {
        let mut out = vec![0];
        let mut ok = true;
        for s in e.par.searches.iter().skip(1) {
            open |= twice(&s.start, o);
            match o.iter().position(|x| same(x, &s.start)) {
                Some(i) => out.push(1 + i / n),
                None => ok = false,
            }
        }
        if ok && !open && out.windows(2).all(|w| w[0] <= w[1]) {
            return Some(Some(out));
        }
    }
    if open { Some(None) } else { None }
}

/// `a` must be `b` cut after between `lo` and `hi` searches.
fn cut(a: &Exec, b: &Exec, lo: usize, hi: usize, why: &str) -> Result<(), String> {
    let (x, y) = (a.par.starts(), b.par.starts());
    let prefix = x.len() <= y.len() && x.iter().zip(&y).all(|(p, q)| same(p, q));
    if !prefix || x.len() < lo || x.len() > hi {
        return Err(format!(
            "{why}: expected the first {lo} to {hi} of the local searches of the unlimited run {y:?}, got {x:?}"
        ));
    }
    Ok(())
}

fn found_so_far(spec: &Spec, bounds: &[(f64, f64)], e: &Exec) -> Result<(), String> {
    let m = replay(spec, bounds, &e.par.outcomes(), None);
    match &e.ran.end {
        End::Ok(s) if as_multiset(s) == as_multiset(&m.set) => Ok(()),
        End::Err(_) if m.set.is_empty() => Ok(()),
        x => Err(format!("the stopped search returned {x:?} instead of everything found: {:?}", m.set)),
    }
}

pub fn c08(cx: &Ctx) {
    cx.rule("stateless DFS over all answers of a scripted problem and over the (virtual) duration of every local search; each run is repeated with every target / time limit and must be the unlimited run cut at the right batch; a state is the model state after a local search of the unlimited run");
    let t = cx.thorough;
    let a = Axes {
        batch: batches(t),
        exclude: vec![false, true],
        df: vec![0.0, 1.0],
        ..Default::default()
    };
    let mut cfgs = script_cfgs(&[geo1(1)], &[1.0, 2.0], &[vec![-1.0, 0.5, 1.5]], &a.specs());
    let a = Axes {
        batch: if t { vec![Batch::Off, Batch::N(2), Batch::N(3)] } else { vec![Batch::Off, Batch::N(3)] },
        df: vec![0.0],
        ..Default::default()
    };
    cfgs.extend(script_cfgs(&[geo1in(2)], &[1.0, 2.0], &[vec![-1.0, 0.5]], &a.specs()));
    // tied within the tolerance but below the target
    let a = Axes {
        batch: vec![Batch::Off, Batch::N(2)],
        df: vec![0.0],
        tol: vec![Some((0.5, 0.0))],
        ..Default::default()
    };
    cfgs.extend(script_cfgs(&[geo1in(1)], &[1.0, 2.0], &[vec![0.5, 0.25, 0.75]], &a.specs()));
    cx.bound("target configurations", cfgs.len());
    let targets = [-1.0, 0.5, 1.0, -1.5, 0.5 - 1e-12, 0.25, f64::NAN, f64::NEG_INFINITY, f64::INFINITY, 2.0];
    cx.bound("targets", format!("{targets:?}"));
    cx.phase("targets", || {
        drive(cx, &cfgs, |c, p, w, st| c08_targets(c, p, w, st, &targets))
    });
    let crowd_targets = [0.25, 0.5, -1.0, -2.0, -2.5, 0.0, -9.0];
    crowd_runs(cx, if t { &[(12, 2), (28, 1), (90, 1), (300, 0)] } else { &[(16, 1), (72, 0), (300, 0)] }, |_| (), |c, p, w, st| {
        c08_targets(c, p, w, st, &crowd_targets)
    });
    let mut timed = script_cfgs(
        &[geo1in(1)],
        &[1.0, 2.0],
        &[vec![0.5], vec![3.0]],
        &Axes { batch: batches(t), df: vec![0.0], ..Default::default() }.specs(),
    );
    timed.extend(script_cfgs(
        &[Arc::new(Geo::new("1d-one", &[(0.0, 10.0)], &[&[2.5], &[8.0], &[6.0]], &[&[3.0]]))],
        &[1.0],
        &[vec![3.0]],
        &Axes { batch: vec![Batch::Off, Batch::N(2), Batch::N(3)], df: vec![0.0], ..Default::default() }.specs(),
    ));
    let durs: &[i64] = &[0, 1000, 2500];
    let limits: &[f64] = &[0.0, 0.5, 1.0, 2.0, 3.5, 4.0, 100.0];
    cx.bound("time-limit configurations", timed.len());
    cx.bound("durations (ms) and limits (s)", format!("{durs:?} {limits:?}"));
    cx.phase("time limits", || {
        explore(cx.st, &timed, cx.deadline, worker, |c, ch, w| {
            let w = w.downcast_ref::<Worker>().unwrap();
            let mut p = Script::new(c.geo.clone(), c.vals.clone(), c.fvals.clone(), std::mem::take(ch));
            p.durs = Arc::new(durs.to_vec());
            w.pool.install(crate::vclock::on);
            let b = exec(&p, &c.spec, w);
            let n = c.spec.batch_len();
            let r = (|| {
                let Some(bs) = batch_of(&b, n) else {
                    return Err(ctx_err(&p, &b, "the local searches follow no trial order".into()));
                };
                let Some(bs) = bs else {
                    cx.st.count("left out: a point twice in the reference set", 1);
                    return Ok(());
                };
                for &lim in limits {
                    let s = Spec { max_time: Some(lim), ..c.spec.clone() };
                    let q = p.again();
                    w.pool.install(crate::vclock::on);
                    let e = exec(&q, &s, w);
                    cx.st.step(1);
                    // batches begin while no more than `lim` has passed since Stage 1 ended
                    let mut el = 0;
                    let mut keep = 1;
                    let last = c.spec.iters.div_ceil(n);
                    for k in 1..=last {
                        if el as f64 / 1000.0 > lim {
                            break;
                        }
                        for (i, x) in bs.iter().enumerate() {
                            if *x == k {
                                keep += 1;
                                let j = p.pt_index(&b.par.searches[i].start).unwrap();
                                el += p.st.lock().unwrap().dur[j].unwrap_or(0);
                            }
                        }
                    }
                    cx.st.state(hash(&(el, keep, bs.clone(), lim.to_bits())));
                    no_panic(&e)
                        .and_then(|_| cut(&e, &b, keep, keep, &format!("time limit {lim} s")))
                        .and_then(|_| found_so_far(&s, &c.geo.bounds, &e))
                        .map_err(|m| ctx_err(&q, &e, m))?;
                }
                Ok(())
            })();
            w.pool.install(crate::vclock::off);
            *ch = p.take_choices();
            r
        });
    });
}

fn c08_targets(c: &Cfg, p: &Script, w: &Worker, st: &Stats, targets: &[f64]) -> Result<(), String> {
            let b = exec(p, &c.spec, w);
            replay(&c.spec, &c.geo.bounds, &b.par.outcomes(), Some(st));
            let n = c.spec.batch_len();
            let Some(bs) = batch_of(&b, n) else {
                return Err(ctx_err(p, &b, "the local searches follow no trial order".into()));
            };
            let Some(bs) = bs else {
                st.count("left out: a point twice in the reference set", 1);
                return Ok(());
            };
            for &tg in targets {
                let s = Spec { target: Some(tg), ..c.spec.clone() };
                let q = p.again();
                let e = exec(&q, &s, w);
                st.step(1);
                let outs = b.par.outcomes();
                let mut m = Model::new(&s, &c.geo.bounds);
                let mut hit = None;
                for (i, o) in outs.iter().enumerate() {
                    m.process(o.clone());
                    if hit.is_none() && m.hit(Some(tg)) {
                        hit = Some(i);
                    }
                }
                let (lo, hi) = match hit {
                    Some(h) => (h + 1, bs.iter().filter(|x| **x <= bs[h]).count()),
                    None => (outs.len(), outs.len()),
                };
                no_panic(&e)
                    .and_then(|_| cut(&e, &b, lo, hi, &format!("target {tg}")))
                    .and_then(|_| found_so_far(&s, &c.geo.bounds, &e))
                    .map_err(|m| ctx_err(&q, &e, m))?;
            }
            Ok(())
}

// ---------------------------------------------------------------- C09

fn multiset(p: &[Pt]) -> Vec<Vec<u64>> {
    let mut v: Vec<_> = p.iter().map(|x| bits(x)).collect();
    v.sort();
    v
}

pub fn oracle_c09(spec: &Spec, e: &Exec) -> Result<(), String> {
    no_panic(e)?;
    let Ok((rs, _)) = &e.s1.out else { return Ok(()) };
    let pts: Vec<Pt> = rs.iter().map(|r| r.0.clone()).collect();
    let want = multiset(&pts);
    // no reference point is used twice
    let mut used: Vec<Vec<u64>> = vec![];
    for s in e.par.searches.iter().skip(1) {
        let b = bits(&s.start);
        let have = want.iter().filter(|x| **x == b).count();
        if have == 0 {
            return Err(format!("a local search started at {:?}, which is not in the reference set", s.start));
        }
        used.push(b.clone());
        if used.iter().filter(|x| **x == b).count() > have {
            return Err(format!("a local search started twice at {:?}", s.start));
        }
    }
    if let Some((i, x)) = e.par.outside.first() {
        return Err(format!("call {i} {x:?} is an evaluation outside local searches after Stage 1"));
    }
    if let Some(c) = &e.ck {
        if multiset(&ck::refset(c)) != want {
            return Err(format!("the trials {:?} are not the reference set {pts:?}", ck::refset(c)));
        }
    }
    if let End::Ok(_) = e.ran.end {
        let n = spec.iters.min(spec.pop);
        let its: Vec<usize> =
            e.ran.cbs.iter().filter_map(|c| c.s2.as_ref().map(|s| s.iter)).collect();
        if spec.obs.is_some() {
            let mut s = its.clone();
            s.sort();
            if s != (0..n).collect::<Vec<_>>() {
                return Err(format!("the iterations considered are {its:?}, not each of 0..{n} once"));
            }
        }
    }
    Ok(())
}

pub fn c09(cx: &Ctx) {
    cx.rule("runs over the lattice of population sizes, iteration budgets, batch sizes and seeds on landscapes where every trial is accepted, plus the scripted DFS and ordinary functions; a state is a trial order");
    let t = cx.thorough;
    let obs = Some(ObsSpec { mode: 2, freq: 1, callback: Cb::Rec, timing: false });
    // every trial is accepted: constant values, no descent, distance factor zero
    #[derive(Clone, Debug)]
    struct Full {
        pop: usize,
        iters: usize,
        batch: Batch,
        seed: u64,
        dim: usize,
        obs: bool,
    }
    let mut full = vec![];
    let maxpop = if t { 26 } else { 12 };
    for pop in 4..=maxpop {
        for iters in 0..=pop {
            for b in [1, 2, 3, 5, 8, 30] {
                for batch in if b == 1 { vec![Batch::Off, Batch::N(0), Batch::N(1)] } else { vec![Batch::N(b)] } {
                    for seed in if t { vec![0, 1, 2, 99, u64::MAX] } else { vec![0, 3, u64::MAX] } {
                        for obs in [false, true] {
                            full.push(Full { pop, iters, batch, seed, dim: 1 + (pop + iters) % 3, obs });
                        }
                    }
                }
            }
        }
    }
    cx.bound("all-accepting runs", full.len());
    cx.phase("all-accepting runs", || {
        for_all(cx.st, &full, cx.deadline, |f| {
            let fun = Fun::new(Kind::Flat, &boxes()[f.dim - 1]);
            let spec = Spec {
                pop: f.pop,
                iters: f.iters,
                df: 0.0,
                seed: f.seed,
                batch: f.batch,
                obs: if f.obs { obs.clone() } else { None },
                ..Default::default()
            };
            with_worker(|w| {
                let e = exec(&fun, &spec, w);
                cx.st.step(e.log.len() as u64);
                if let Some(o) = e.orders.first() {
                    cx.st.state(hash(&o.iter().map(|x| bits(x)).collect::<Vec<_>>()));
                }
                let r = oracle_c09(&spec, &e).and_then(|_| {
                    let Ok((_, cand)) = &e.s1.out else { return Err("Stage 1 failed".into()) };
                    let got = e.par.starts();
                    for o in &e.orders {
                        let mut want = vec![cand.clone()];
                        want.extend(o.iter().take(f.iters).filter(|x| !same(x, cand)).cloned());
                        if want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| same(a, b)) {
                            return Ok(());
                        }
                    }
                    Err(format!(
                        "every trial passes both filters, but local searches started at {} of {} expected points: {got:?}",
                        got.len(),
                        f.iters
                    ))
                });
                cx.st.sample(|| format!("{f:?}: local searches at {:?}", e.par.starts()));
                r.map_err(|m| format!("{m}\n{}", show(&e)))
            })
        });
    });
    // the order depends on the whole seed, in every position
    let mut orders = vec![];
    for pop in [5, 8, 12, 20, 40, 90, 150] {
        for shift in [0, 8, 16, 31, 32, 48, 60] {
            for batch in [Batch::Off, Batch::N(4)] {
                orders.push((pop, shift, batch));
            }
        }
    }
    cx.phase("seed dependence", || {
        for_all(cx.st, &orders, cx.deadline, |&(pop, shift, batch)| {
            with_worker(|w| {
                let mut orders = std::collections::HashSet::new();
                let mut at: Vec<std::collections::HashSet<Vec<u64>>> = vec![Default::default(); pop];
                for seed in 0..12u64 {
                    // the same reference set for every seed: all points are custom points
                    let custom: Vec<Pt> = (0..pop - 3).map(|i| vec![3.9 * (i as f64 + 0.45) / pop as f64 - 1.95]).collect();
                    let fun = Fun::new(Kind::Flat, &boxes()[0]);
                    let spec = Spec { pop, iters: pop, df: 0.0, seed: seed << shift, batch, custom: Some(custom), ..Default::default() };
                    let e = exec(&fun, &spec, w);
                    let o = e.orders.first().cloned().unwrap_or_default();
                    for (a, x) in at.iter_mut().zip(&o) {
                        a.insert(bits(x));
                    }
                    orders.insert(e.par.starts().iter().map(|x| bits(x)).collect::<Vec<_>>());
                }
                if orders.len() < 3 {
                    return Err(format!("12 seeds give only {} different trial orders", orders.len()));
                }
                if let Some(i) = at.iter().position(|a| a.len() < 2) {
                    return Err(format!("12 seeds all have the same point as trial {i}"));
                }
                Ok(())
            })
        });
    });
    let a = Axes {
        batch: batches(t),
        wait: vec![1, 2],
        df: vec![0.0, 1.0],
        iters: vec![usize::MAX, 3, 2],
        ..Default::default()
    };
    let mut cfgs = script_cfgs(&[geo1(1)], &[1.0, 2.0], &[vec![-1.0, 1.5]], &a.specs());
    for c in &mut cfgs {
        c.spec.obs = obs.clone();
    }
    cx.bound("scripted configurations", cfgs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, |c, p, w, _| {
            let e = exec(p, &c.spec, w);
            oracle_c09(&c.spec, &e).map_err(|m| ctx_err(p, &e, m))
        })
    });
    let ob = obs.clone();
    crowd_phase(cx, |c| c.spec.obs = ob.clone(), |c, p, w, _| {
        let e = exec(p, &c.spec, w);
        oracle_c09(&c.spec, &e).map_err(|m| ctx_err(p, &e, m))
    });
    let mut ls = lattice(t, &batches(t));
    for (i, c) in ls.iter_mut().enumerate() {
        if i % 2 == 0 {
            c.spec.obs = Some(ObsSpec { mode: 3, freq: 1, callback: Cb::Rec, timing: false });
        }
    }
    cx.bound("ordinary runs", ls.len());
    cx.phase("ordinary functions", || {
        l_runs(cx, &ls, |c, e| {
            oracle_c09(&c.spec, e)?;
            // Stage 1 evaluates each initial point and each generated trial point at most once
            let n = e.log[..e.s1.log.len().min(e.log.len())].len();
            if let Some(s1) = &e.ran.s1 {
                if n > c.spec.pop + s1.trials {
                    return Err(format!(
                        "Stage 1 made {n} evaluations for {} points and {} trial points",
                        c.spec.pop, s1.trials
                    ));
                }
            }
            Ok(())
        })
    });
}
