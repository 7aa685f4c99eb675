//! The initial phase: C04 (reference set) and C19 (constraints).
use crate::core::*;
use crate::explore::*;
use crate::funs::*;
use crate::report::Ctx;
use crate::stage2::*;
use crate::trace::*;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// Every evaluated point gets a value chosen by the explorer.
#[derive(Clone)]
pub struct Vals {
    pub bounds: Vec<(f64, f64)>,
    pub vals: Arc<Vec<Ans>>,
    /// answers only the first `pop` evaluations choose from
    pub first: (usize, Arc<Vec<Ans>>),
    pub st: Arc<Mutex<(Choices, HashMap<Vec<u64>, Ans>)>>,
    pub log: Log,
}
type Ans = Option<f64>;
impl Vals {
    pub fn new(bounds: &[(f64, f64)], first: (usize, Arc<Vec<Ans>>), vals: Arc<Vec<Ans>>, ch: Choices) -> Vals {
        Vals {
            bounds: bounds.to_vec(),
            vals,
            first,
            st: Arc::new(Mutex::new((ch, HashMap::new()))),
            log: Log::default(),
        }
    }
    pub fn value(&self, x: &[f64]) -> Ans {
        self.st.lock().unwrap().1.get(&bits(x)).copied().flatten()
    }
}
impl Problem for Vals {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let x = x.to_vec();
        let mut s = self.st.lock().unwrap();
        let s = &mut *s;
        let menu = if s.1.len() < self.first.0 { &self.first.1 } else { &self.vals };
        let n = menu.len();
        let v = *s.1.entry(bits(&x)).or_insert_with(|| menu[s.0.pick(n)]);
        self.log.push(Ev::Obj(x, v));
        v.ok_or_else(err)
    }
    fn variable_bounds(&self) -> Array2<f64> {
        arr2(&self.bounds.iter().map(|b| vec![b.0, b.1]).collect::<Vec<_>>(), 2)
    }
}
impl Traced for Vals {
    fn log(&self) -> &Log {
        &self.log
    }
    fn again(&self) -> Vals {
        let s = self.st.lock().unwrap();
        Vals {
            st: Arc::new(Mutex::new((Choices::default(), s.1.clone()))),
            log: Log::default(),
            bounds: self.bounds.clone(),
            vals: self.vals.clone(),
            first: self.first.clone(),
        }
    }
}

/// What Stage 1 must have done, given the calls it made.
pub fn oracle_c04(
    bounds: &[(f64, f64)],
    pop: usize,
    custom: &[Pt],
    feasible: impl Fn(&[f64]) -> bool,
    s1: &Stage1,
) -> Result<(), String> {
    let (rs, best) = match &s1.out {
        Ok(x) => x,
        Err(m) if m.starts_with("panic") => return Err(format!("Stage 1 panicked: {m}")),
        // an error is fine only if an evaluation failed or feasible points ran out
        Err(m) => {
            let failed = s1.log.iter().any(|e| matches!(e, Ev::Obj(_, None)));
            return if failed || m.contains("feasible") {
                Ok(())
            } else {
                Err(format!("Stage 1 failed: {m}"))
            };
        }
    };
    if rs.len() != pop {
        return Err(format!("the reference set has {} points, not {pop}", rs.len()));
    }
    if let Some(p) = rs.iter().find(|p| !inside(&p.0, bounds) || p.0.len() != bounds.len()) {
        return Err(format!("reference point {p:?} is outside of the bounds"));
    }
    let evals: Vec<(&Pt, f64)> = s1
        .log
        .iter()
        .filter_map(|e| if let Ev::Obj(p, Some(v)) = e { Some((p, *v)) } else { None })
        .collect();
    for r in rs {
        let Some(e) = evals.iter().find(|e| same(e.0, &r.0)) else {
            return Err(format!("reference point {r:?} was never evaluated"));
        };
        if e.1.to_bits() != r.1.to_bits() {
            return Err(format!("reference point {:?} carries objective {} instead of {}", r.0, r.1, e.1));
        }
        let n = evals.iter().filter(|e| same(e.0, &r.0)).count();
        if rs.iter().filter(|q| same(&q.0, &r.0)).count() > n {
            return Err(format!("point {r:?} is in the reference set more often than it was evaluated"));
        }
    }
    let mut must: Vec<Pt> = vec![
        bounds.iter().map(|b| b.0).collect(),
        bounds.iter().map(|b| b.1).collect(),
    ];
    must.extend(custom.iter().cloned());
    for m in must.iter().filter(|m| feasible(m)) {
        if !s1.log.iter().any(|e| matches!(e, Ev::Obj(p, _) if same(p, m))) {
            return Err(format!("point {m:?} was not evaluated"));
        }
    }
    let mid: Pt = bounds.iter().map(|b| b.0 * 0.5 + b.1 * 0.5).collect();
    let near = |p: &Pt| {
        p.iter().zip(&mid).zip(bounds).all(|((a, m), b)| {
            let scale = b.0.abs().max(b.1.abs());
            (a - m).abs() <= 4.0 * f64::EPSILON * scale
        })
    };
    if feasible(&mid) && !s1.log.iter().any(|e| matches!(e, Ev::Obj(p, _) if near(p))) {
        return Err(format!("the midpoint {mid:?} was not evaluated"));
    }
    let mut all: Vec<f64> = evals.iter().map(|e| e.1).collect();
    all.sort_by(|a, b| rank(*a, *b));
    let mut kept: Vec<f64> = rs.iter().map(|r| r.1).collect();
    kept.sort_by(|a, b| rank(*a, *b));
    if kept.iter().zip(&all).any(|(a, b)| rank(*a, *b).is_ne()) {
        return Err(format!("the reference set keeps objectives {kept:?}, but the best evaluated are {:?}", &all[..pop.min(all.len())]));
    }
    let Some(b) = rs.iter().find(|r| same(&r.0, best)) else {
        return Err(format!("the starting point {best:?} is not in the reference set"));
    };
    if rank(b.1, all[0]).is_ne() {
        return Err(format!("the starting point {b:?} is not the best, {}", all[0]));
    }
    Ok(())
}

#[derive(Clone)]
pub struct S1Cfg {
    pub bounds: Vec<(f64, f64)>,
    pub pop: usize,
    pub custom: Vec<Pt>,
    pub seed: u64,
    pub par: bool,
    pub vals: Vec<Ans>,
    pub first: Vec<Ans>,
}
impl std::fmt::Debug for S1Cfg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "bounds={:?} pop={} seed={} parallel={} custom={:?} values={:?}/{:?}",
            self.bounds, self.pop, self.seed, self.par, self.custom, self.first, self.vals
        )
    }
}

fn some(v: &[f64]) -> Vec<Ans> {
    v.iter().map(|x| Some(*x)).collect()
}

pub fn c04(cx: &Ctx) {
    cx.rule("stateless DFS over the objective of every point Stage 1 evaluates (initial points and trial points, including evaluation errors at trials), plus a lattice of populations, boxes, seeds, custom points and functions; a state is a reference set with objectives");
    let t = cx.thorough;
    let mut cfgs = vec![];
    for par in [false, true] {
        for (bounds, seed) in [
            (vec![(0.0, 10.0)], 0u64),
            (vec![(-2.0, 2.0), (1.0, 4.0)], 1),
            (vec![(-1.0, 3.0), (0.0, 1.0), (5.0, 6.0)], u64::MAX),
        ] {
            for (pop, nc) in [(4, 0), (4, 1), (4, 3), (5, 1)] {
                if !t && pop == 5 && par {
                    continue;
                }
                let custom: Vec<Pt> = (0..nc)
                    .map(|i| {
                        bounds.iter().map(|b| b.0 + (b.1 - b.0) * (0.125 + 0.25 * i as f64)).collect()
                    })
                    .collect();
                cfgs.push(S1Cfg {
                    bounds: bounds.clone(),
                    pop,
                    custom,
                    seed,
                    par,
                    first: some(&[1.0, 2.0, 3.0]),
                    vals: vec![Some(2.0), Some(0.5), None, Some(2.5)],
                });
            }
        }
    }
    let check = |c: &S1Cfg, ch: &mut Choices, w: &mut dyn std::any::Any| -> Result<(), String> {
        let w = w.downcast_ref::<Worker>().unwrap();
        let init = c.pop.max(3 + c.custom.len());
        let p = Vals::new(
            &c.bounds,
            (init, Arc::new(c.first.clone())),
            Arc::new(c.vals.clone()),
            std::mem::take(ch),
        );
        let spec = Spec {
            pop: c.pop,
            iters: c.pop,
            seed: c.seed,
            custom: if c.custom.is_empty() { None } else { Some(c.custom.clone()) },
            ..Default::default()
        };
        let run = Live { p: p.clone() };
        let s1 = w.pool.install(|| stage1_live(&run.p, &spec, c.par));
        if let Ok((rs, _)) = &s1.out {
            cx.st.state(hash(&rs.iter().map(|r| (bits(&r.0), r.1.to_bits())).collect::<Vec<_>>()));
        }
        *ch = std::mem::take(&mut p.st.lock().unwrap().0);
        cx.st.sample(|| format!("{c:?}: evaluated {:?}, result {:?}", s1.log, s1.out));
        oracle_c04(&c.bounds, c.pop, &c.custom, |_| true, &s1)
            .map_err(|m| format!("{m}\nevaluated {:?}\nresult {:?}", s1.log, s1.out))
    };
    cx.bound("small configurations (all value assignments)", cfgs.len());
    cx.phase("all assignments", || explore(cx.st, &cfgs, cx.deadline, worker, check));
    // larger populations: all assignments with few deviations from "all equal"
    let mut big = vec![];
    for par in [false, true] {
        for (pop, nc) in [(9, 0), (10, 9), (16, 2), (21, 0), (25, 5)] {
            let bounds = vec![(-2.0, 2.0), (1.0, 4.0)];
            let custom: Vec<Pt> = (0..nc)
                .map(|i| bounds.iter().map(|b: &(f64, f64)| b.0 + (b.1 - b.0) * (0.07 + 0.09 * i as f64)).collect())
                .collect();
            big.push(S1Cfg {
                bounds,
                pop,
                custom,
                seed: pop as u64,
                par,
                first: some(&[2.0, 1.0, 3.0]),
                vals: vec![Some(2.5), Some(0.5), None, Some(2.0)],
            });
        }
    }
    let dev = if t { 3 } else { 2 };
    cx.bound("larger configurations", format!("{} with at most {dev} deviations", big.len()));
    cx.phase("few deviations", || explore_bounded(cx.st, &big, cx.deadline, dev, worker, check));

    // lattice through both the public Stage 1 and complete searches
    #[derive(Clone, Debug)]
    struct L {
        kind: Kind,
        bounds: Vec<(f64, f64)>,
        pop: usize,
        nc: usize,
        seed: u64,
        batch: Batch,
        threads: usize,
    }
    let mut ls = vec![];
    let mut bx = boxes();
    bx.push(vec![(1e9, 1e9 + 1.0), (-1e-9, 1e-9)]);
    bx.push(vec![(-1e300, 1e300)]);
    bx.push(vec![(0.0, f64::MIN_POSITIVE)]);
    bx.push(vec![(0.0, 8e307), (-1.0, 1.0)]);
    bx.push((0..7).map(|i| (-1.0 - i as f64, 2.0)).collect());
    bx.push((0..17).map(|i| (-1.0 - i as f64, 2.0)).collect());
    let pops: Vec<usize> = if t { (4..=45).chain([64, 101, 130, 260]).collect() } else { vec![4, 5, 8, 9, 16, 19, 20, 26, 37, 130, 260] };
    for b in &bx {
        for kind in [Kind::Wells, Kind::Slope, Kind::Flat, Kind::Ripple] {
            for &pop in &pops {
                for nc in [0, 1, 4, pop - 3, pop, pop + 7, 120] {
                    for (batch, threads) in [(Batch::Off, 1), (Batch::N(4), 1), (Batch::N(4), 3)] {
                        let seeds: &[u64] = if t { &[0, 11, u64::MAX] } else { &[3, u64::MAX] };
                        for &seed in seeds {
                            if !t && seed != 3 && nc > 4 {
                                continue;
                            }
                            ls.push(L { kind, bounds: b.clone(), pop, nc, seed, batch, threads });
                        }
                    }
                }
            }
        }
    }
    cx.bound("lattice runs", ls.len());
    cx.phase("lattice", || {
        for_all(cx.st, &ls, cx.deadline, |l| {
            let fun = Fun::new(l.kind, &l.bounds);
            let custom: Vec<Pt> = (0..l.nc)
                .map(|i| {
                    l.bounds
                        .iter()
                        .enumerate()
                        .map(|(d, b)| {
                            let f = ((i * (7 + 2 * d) + 3 * d + 1) % 131) as f64 / 131.0;
                            (b.0 * (1.0 - f) + b.1 * f).clamp(b.0, b.1)
                        })
                        .collect()
                })
                .collect();
            let spec = Spec {
                pop: l.pop,
                iters: l.pop,
                seed: l.seed,
                custom: if l.nc > 0 { Some(custom.clone()) } else { None },
                batch: l.batch,
                ..Default::default()
            };
            let pool = rayon::ThreadPoolBuilder::new().num_threads(l.threads).build().unwrap();
            let s1 = pool.install(|| stage1(&fun, &spec));
            cx.st.step(s1.log.len() as u64);
            if let Ok((rs, _)) = &s1.out {
                cx.st.state(hash(&rs.iter().map(|r| (bits(&r.0), r.1.to_bits())).collect::<Vec<_>>()));
            }
            oracle_c04(&l.bounds, l.pop, &custom, |_| true, &s1)?;
            // the search itself makes the same Stage 1 and starts from its best point
            if l.threads == 1 && l.pop <= 12 {
                return with_worker(|w| {
                    let e = exec(&fun, &spec, w);
                    first_start(&e)
                });
            }
            Ok(())
        })
    });
}

/// The first local search of a run starts at the best of everything evaluated before it.
fn first_start(e: &Exec) -> Result<(), String> {
    let (Ok((rs, _)), Some(s)) = (&e.s1.out, e.par.searches.first()) else {
        return match &e.ran.end {
            End::Ok(_) => Err("a search without a local search in Stage 1".into()),
            End::Panic(m) => Err(format!("panic: {m}")),
            _ => Ok(()),
        };
    };
    let best = rs.iter().map(|r| r.1).fold(f64::NAN, |a, b| if rank(b, a).is_lt() { b } else { a });
    let before = e.log[..s.pos].iter().filter_map(|x| if let Ev::Obj(p, Some(v)) = x { Some((p, *v)) } else { None });
    let low = before.clone().map(|x| x.1).fold(f64::NAN, |a, b| if rank(b, a).is_lt() { b } else { a });
    let at = before.filter(|x| same(x.0, &s.start)).map(|x| x.1).next();
    if at.map(f64::to_bits) != Some(low.to_bits()) {
        return Err(format!(
            "the first local search starts at {:?} with objective {at:?}, but Stage 1 evaluated {low} (reference set minimum {best})",
            s.start
        ));
    }
    Ok(())
}

struct Live {
    p: Vals,
}

/// Stage 1 on the problem itself (not a replay), so that it makes the choices.
fn stage1_live(p: &Vals, s: &Spec, par: bool) -> Stage1 {
    use globalsearch::scatter_search::ScatterSearch;
    use std::panic::{AssertUnwindSafe, catch_unwind};
    let log = p.log.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut ss = ScatterSearch::new(p.clone(), s.params()).map_err(|e| e.to_string())?;
        #[cfg(feature = "rayon")]
        {
            ss = ss.parallel(par);
        }
        if let Some(c) = &s.custom {
            ss = ss.with_custom_points(c.iter().map(|p| a1(p)).collect());
        }
        let (rs, best) = ss.run().map_err(|e| e.to_string())?;
        Ok((rs.into_iter().map(|(p, v)| (p.to_vec(), v)).collect(), best.to_vec()))
    }));
    let out = match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    };
    Stage1 { out, log: log.take() }
}

// ---------------------------------------------------------------- C19

type Con = fn(&[f64], &mut ()) -> f64;
pub const CONS: [(&str, Con); 10] = [
    ("x0 >= 0", |x, _| x[0]),
    ("x0 <= 1", |x, _| 1.0 - x[0]),
    ("ball of radius 1.5", |x, _| 2.25 - x.iter().map(|v| v * v).sum::<f64>()),
    ("outside of radius 0.7", |x, _| x.iter().map(|v| v * v).sum::<f64>() - 0.49),
    ("nan for x0 < -0.5", |x, _| if x[0] < -0.5 { f64::NAN } else { 1.0 }),
    ("narrow strip", |x, _| 0.02 - (x[0] - 0.5).abs()),
    ("impossible", |_, _| -1.0),
    ("always", |_, _| 0.0),
    ("last >= 0.2", |x, _| x[x.len() - 1] - 0.2),
    ("x0 >= 0.25, a small step", |x, _| if x[0] < 0.25 { -1e-15 } else { 1.0 }),
];

fn ok_all(cons: &[Con], x: &[f64]) -> bool {
    cons.iter().all(|c| c(x, &mut ()) >= 0.0)
}

pub fn c19(cx: &Ctx) {
    cx.rule("every subset of up to three of ten constraints x functions x boxes x populations x custom points x solvers x batch sizes; a state is a feasible reference set; every evaluated Stage 1 point, reference point and local-search start is checked, and constrained local searches are compared with COBYLA driven directly");
    let t = cx.thorough;
    let mut sets: Vec<Vec<usize>> = vec![];
    for a in 0..CONS.len() {
        sets.push(vec![a]);
        for b in 0..CONS.len() {
            if a != b {
                sets.push(vec![a, b]);
            }
            for c in b + 1..CONS.len() {
                if a < b && (t || (a + b + c) % 3 == 0) {
                    sets.push(vec![a, b, c]);
                }
            }
        }
    }
    // many constraints at once; in twelve of them the order matters to nobody but the solver
    let mut many: Vec<Vec<usize>> = vec![
        vec![0, 1, 2, 3],
        vec![7, 7, 7, 0],
        vec![0, 1, 2, 4, 7],
        vec![7, 4, 3, 2, 1, 0],
        vec![0, 1, 2, 3, 4, 7, 8],
        vec![8, 7, 5, 4, 3, 2, 1, 0],
    ];
    for k in 0..12 {
        // one that matters among eleven that always hold
        many.push((0..12).map(|i| if i == k { [0, 3, 5, 8][k % 4] } else { 7 }).collect());
        if k % 3 == 0 {
            many.push((0..12).map(|i| if i == k { 6 } else { 7 }).collect());
        }
    }
    let first_many = sets.len();
    sets.extend(many);
    #[derive(Clone, Debug)]
    struct L {
        cons: Vec<usize>,
        kind: Kind,
        bounds: Vec<(f64, f64)>,
        pop: usize,
        nc: usize,
        seed: u64,
        batch: Batch,
        solver: usize,
        obs: bool,
    }
    let sol: Vec<_> = solvers().into_iter().filter(|s| s.0 == "cobyla" || s.0 == "nm").collect();
    let mut ls = vec![];
    for (ci, cons) in sets.iter().enumerate() {
        for kind in [Kind::Sphere, Kind::Slope, Kind::Wells] {
            let mut bs = boxes();
            if ci >= first_many || ci % 11 == 0 {
                bs.push((0..7).map(|i| (-1.0 - 0.1 * i as f64, 1.0)).collect());
            }
            for bounds in bs {
                for (pop, nc) in if bounds.len() == 7 {
                    vec![(6, 0), (70, 0)]
                } else if ci >= first_many {
                    vec![(6, 2), (40, 0)]
                } else if t { vec![(4, 0), (6, 2), (10, 4), (22, 0), (24, 110)] } else { vec![(4, 0), (6, 2), (22, 105)] } {
                    for seed in if t { vec![0, 1, 9] } else { vec![0] } {
                        for batch in [Batch::Off, Batch::N(3)] {
                            for solver in 0..sol.len() {
                                if !t && solver == 1 && batch != Batch::Off {
                                    continue;
                                }
                                ls.push(L {
                                    cons: cons.clone(),
                                    kind,
                                    bounds: bounds.clone(),
                                    pop,
                                    nc,
                                    seed,
                                    batch,
                                    solver,
                                    obs: pop == 6,
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    // barely enough, exactly enough and one too few feasible points
    for pop in 4..if t { 40 } else { 16 } {
        for seed in 0..if t { 60 } else { 25 } {
            for nc in [0, 2] {
                ls.push(L { cons: vec![5], kind: Kind::Sphere, bounds: boxes()[seed as usize % 2].clone(), pop, nc, seed, batch: Batch::Off, solver: 1, obs: false });
            }
        }
    }
    cx.bound("constraint sets", sets.len());
    cx.bound("runs", ls.len());
    cx.phase("constrained searches", || {
        for_all(cx.st, &ls, cx.deadline, |l| {
            let mut fun = Fun::new(l.kind, &l.bounds);
            let cons: Vec<Con> = l.cons.iter().map(|i| CONS[*i].1).collect();
            fun.cons = cons.clone();
            let custom: Vec<Pt> = (0..l.nc)
                .map(|i| {
                    l.bounds
                        .iter()
                        .enumerate()
                        .map(|(d, b)| {
                            let f = ((i * (7 + 2 * d) + 5 * d + 3) % 113) as f64 / 113.0;
                            (b.0 * (1.0 - f) + b.1 * f).clamp(b.0, b.1)
                        })
                        .collect()
                })
                .collect();
            let (_, st, cfg) = sol[l.solver].clone();
            let spec = Spec {
                pop: l.pop,
                iters: l.pop,
                seed: l.seed,
                df: 0.2,
                custom: if l.nc > 0 { Some(custom.clone()) } else { None },
                batch: l.batch,
                solver: st,
                config: cfg,
                obs: if l.obs { Some(ObsSpec { mode: 3, freq: 1, callback: Cb::Default, timing: false }) } else { None },
                ..Default::default()
            };
            with_worker(|w| {
                let e = exec(&fun, &spec, w);
                cx.st.step(e.log.len() as u64);
                cx.st.sample(|| format!("{l:?}: reference set {:?}, starts {:?}", e.s1.out, e.par.starts()));
                let names: Vec<&str> = l.cons.iter().map(|i| CONS[*i].0).collect();
                (|| {
                    if let End::Panic(m) = &e.ran.end {
                        return Err(format!("panic: {m}"));
                    }
                    // nothing infeasible is evaluated before the first local search
                    let n1 = e.s1.log.len().min(e.log.len());
                    for ev in &e.log[..n1] {
                        if let Ev::Obj(p, _) = ev {
                            if !ok_all(&cons, p) {
                                return Err(format!("infeasible point {p:?} was evaluated in Stage 1"));
                            }
                        }
                    }
                    oracle_c04(&l.bounds, l.pop, &custom, |x| ok_all(&cons, x), &e.s1)?;
                    if let Ok((rs, best)) = &e.s1.out {
                        cx.st.state(hash(&rs.iter().map(|r| bits(&r.0)).collect::<Vec<_>>()));
                        if let Some(r) = rs.iter().find(|r| !ok_all(&cons, &r.0)) {
                            return Err(format!("reference point {r:?} is infeasible"));
                        }
                        if !ok_all(&cons, best) {
                            return Err(format!("the starting point {best:?} is infeasible"));
                        }
                    }
                    if let Some(c) = &e.ck {
                        if let Some(r) = ck::refset(c).iter().find(|r| !ok_all(&cons, r)) {
                            return Err(format!("trial {r:?} is infeasible"));
                        }
                    }
                    for s in &e.par.searches {
                        if !ok_all(&cons, &s.start) {
                            return Err(format!("a local search starts at infeasible {:?}", s.start));
                        }
                    }
                    match (&e.ran.end, &e.s1.out) {
                        (End::Ok(_), Err(m)) => return Err(format!("Stage 1 alone fails ({m}), the search does not")),
                        (End::Err(m), Err(_)) if !m.to_lowercase().contains("feasible") => {
                            return Err(format!("too few feasible points are reported as '{m}'"));
                        }
                        (End::Err(_), Err(_)) => {}
                        (End::Ok(_), Ok(_)) if l.cons.contains(&6) => {
                            return Err("a search with an impossible constraint succeeded".into());
                        }
                        _ => {}
                    }
                    if let LocalSolverType::COBYLA = spec.solver {
                        for s in &e.par.searches {
                            direct_cobyla(&fun, &spec, s)?;
                        }
                    }
                    Ok(())
                })()
                .map_err(|m| format!("constraints {names:?}: {m}\nresult {:?}\nStage 1 {:?}\nlocal searches {:?}", e.ran.end, e.s1.out, e.par.searches))
            })
        })
    });
}

/// The same constrained local search with COBYLA driven directly: all constraints, the bounds.
fn direct_cobyla(fun: &Fun, spec: &Spec, s: &Found) -> Result<(), String> {
    let globalsearch::local_solver::builders::LocalSolverConfig::COBYLA {
        max_iter,
        initial_step_size,
        ftol_rel,
        ftol_abs,
        xtol_rel,
        xtol_abs,
    } = spec.config.clone()
    else {
        return Ok(());
    };
    let f = fun.again();
    let b = f.bounds.clone();
    let r = cobyla::minimize(
        |x: &[f64], _: &mut ()| f.value(x).unwrap_or(f64::INFINITY),
        &s.start,
        &b,
        &f.cons,
        (),
        max_iter as usize,
        cobyla::RhoBeg::All(initial_step_size),
        Some(cobyla::StopTols { ftol_rel, ftol_abs, xtol_rel, xtol_abs }),
    );
    let want = match r {
        Ok((_, x, v)) => Ok((x, v)),
        Err(_) => Err(()),
    };
    match (&want, &s.outcome) {
        (Ok((x, v)), Ok((y, u))) if same(x, y) && v.to_bits() == u.to_bits() => Ok(()),
        (Err(()), Err(_)) => Ok(()),
        _ => Err(format!(
            "the local search from {:?} gave {:?}, COBYLA with all constraints and bounds gives {want:?}",
            s.start, s.outcome
        )),
    }
}
