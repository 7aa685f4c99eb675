//! C10: every single failing or non-numeric evaluation (and pairs) at every call of a run.
use crate::core::*;
use crate::explore::*;
use crate::funs::*;
use crate::report::Ctx;
use crate::stage2::*;
use crate::trace::*;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Error,
    Nan,
    NegNan,
    Inf,
    NegInf,
}
pub const FAULTS: [Fault; 5] = [Fault::Error, Fault::Nan, Fault::NegNan, Fault::Inf, Fault::NegInf];
impl Fault {
    pub fn val(self) -> Option<f64> {
        match self {
            Fault::Error => None,
            Fault::Nan => Some(f64::NAN),
            Fault::NegNan => Some(-f64::NAN),
            Fault::Inf => Some(f64::INFINITY),
            Fault::NegInf => Some(f64::NEG_INFINITY),
        }
    }
}

/// A function that answers wrongly at the given calls, or always from one call on.
#[derive(Clone)]
pub struct Faulty {
    pub f: Fun,
    pub n: Arc<AtomicUsize>,
    pub at: Arc<Vec<(usize, Fault)>>,
    /// the last fault persists: every later call fails as well
    pub sticky: bool,
}
impl Faulty {
    fn fault(&self) -> Option<Fault> {
        let k = self.n.fetch_add(1, Ordering::SeqCst);
        if let Some(f) = self.at.iter().find(|a| a.0 == k) {
            return Some(f.1);
        }
        if self.sticky { self.at.last().filter(|a| k > a.0).map(|a| a.1) } else { None }
    }
}
impl Traced for Faulty {
    fn log(&self) -> &Log {
        &self.f.log
    }
    fn again(&self) -> Faulty {
        pt_faulty(&self.f, &self.at, self.sticky)
    }
}
impl Problem for Faulty {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let p = x.to_vec();
        let v = match self.fault() {
            Some(f) => f.val(),
            None => self.f.value(&p),
        };
        let v = if self.f.log.len() > CAP { None } else { v };
        self.f.log.push(Ev::Obj(p, v));
        v.ok_or_else(err)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let f = self.fault();
        if f == Some(Fault::Error) || self.f.log.len() > CAP {
            self.f.log.push(Ev::Mark("gradient error".into()));
            return Err(err());
        }
        let mut g = self.f.gradient(x)?;
        if let Some(v) = f.and_then(|f| f.val()) {
            let n = g.len();
            g[n - 1] = v;
        }
        Ok(g)
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        let f = self.fault();
        if f == Some(Fault::Error) {
            self.f.log.push(Ev::Mark("hessian error".into()));
            return Err(err());
        }
        let mut h = self.f.hessian(x)?;
        if let Some(v) = f.and_then(|f| f.val()) {
            h[[0, 0]] = v;
        }
        Ok(h)
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.f.variable_bounds()
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        self.f.constraints()
    }
}

fn pt_faulty(f: &Fun, at: &[(usize, Fault)], sticky: bool) -> Faulty {
    Faulty { f: f.again(), n: Default::default(), at: Arc::new(at.to_vec()), sticky }
}

#[derive(Clone)]
struct Case {
    fun: Fun,
    spec: Spec,
    tag: String,
    at: Vec<(usize, Fault)>,
    sticky: bool,
    calls: usize,
}
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{:?} on {:?} with {} faults {:?} sticky={} of {} calls; {}",
            self.fun.kind,
            self.fun.bounds,
            self.tag,
            self.at,
            self.sticky,
            self.calls,
            self.spec.brief()
        )
    }
}

fn check(c: &Case, st: &Stats) -> Result<(), String> {
    let p = pt_faulty(&c.fun, &c.at, c.sticky);
    let log = p.f.log.clone();
    let ran = with_worker(|w| w.pool.install(|| run(p, &c.spec, &log)));
    let log = log.take();
    let detail = |m: String| {
        let tail: Vec<_> = log.iter().rev().take(25).collect();
        Err(format!("{m}\nresult {:?}\ncalls {} (last first): {tail:?}", ran.end, log.len()))
    };
    if let End::Panic(m) = &ran.end {
        return detail(format!("the search panicked: {m}"));
    }
    if log.len() > CAP {
        // only non-finite answers can be a listed finding
        let key = if c.at.iter().any(|a| a.1 != Fault::Error) { format!("[endless:{}] ", c.tag) } else { String::new() };
        return detail(format!("{key}the search does not end: it made more than {CAP} calls instead of about {}", c.calls));
    }
    let nan_evals = log.iter().any(|e| matches!(e, Ev::Obj(_, Some(v)) if v.is_nan()));
    if let End::Ok(set) = &ran.end {
        if set.is_empty() {
            return detail("an empty solution set".into());
        }
        let nan = set.iter().filter(|s| s.1.is_nan()).count();
        if nan > 0 {
            st.count("runs that return not-a-number solutions", 1);
        }
        // one faulty call affects one local search: any other one found a number
        if nan > 0 {
            let searches = ran.s2.as_ref().map_or(0, |s| s.calls) + 1;
            if nan < set.len() {
                return detail("not-a-number solutions next to numeric ones".into());
            }
            if !nan_evals && !c.at.iter().any(|a| a.1 != Fault::Error) {
                return detail("a not-a-number solution without a not-a-number evaluation".into());
            }
            if c.at.len() == 1 && !c.sticky && searches == 1 {
                // it must not have kept the other trials from starting a search
                let s1 = with_worker(|w| w.pool.install(|| stage1(&c.fun.again(), &c.spec)));
                if let (Ok((rs, _)), true) = (&s1.out, c.at[0].0 >= s1.log.len()) {
                    let far = rs.iter().filter(|r| !r.1.is_nan() && d2(&r.0, &set[0].0) > c.spec.df * c.spec.df).count();
                    if far > rs.len() - c.spec.iters.min(rs.len()) {
                        return detail("the first local search found no number, and no other was started although trials are far enough and numeric".into());
                    }
                }
            }
            if c.at.len() == 1 && !c.sticky && searches > 1 {
                return detail(format!("{searches} local searches ran and one evaluation was faulty, but the best reported is not a number"));
            }
        }
        for s in set {
            let seen = log
                .iter()
                .any(|e| matches!(e, Ev::Obj(p, Some(v)) if same(p, &s.0) && (v.to_bits() == s.1.to_bits() || v.is_nan() && s.1.is_nan())));
            // argmin reports an infinite best cost with the initial point when nothing better was seen
            if !seen && s.1.is_finite() {
                return detail(format!("solution {s:?} was never evaluated"));
            }
        }
    }
    Ok(())
}

pub fn c10(cx: &Ctx) {
    cx.level("fault_enumeration");
    cx.rule("every call of every base run (4 functions x solvers x batch sizes) answers with an error, +NaN, -NaN, +inf or -inf, once or from then on; pairs of such calls on the smaller runs; plus a DFS over scripted landscapes whose values include NaN and infinities, compared with the reference model. Non-trivial: distinct (base run, fault set) executions");
    let t = cx.thorough;
    let obs = Some(ObsSpec { mode: 3, freq: 1, callback: Cb::Rec, timing: false });
    let mut bases = vec![];
    for kind in [Kind::Sphere, Kind::Wells, Kind::Slope, Kind::Ripple] {
        for (bi, b) in boxes().into_iter().enumerate() {
            for (name, st, cfg) in solvers() {
                for batch in [Batch::Off, Batch::N(3)] {
                    if !t && (bi == 2 || (kind == Kind::Ripple && batch != Batch::Off)) {
                        continue;
                    }
                    for (pop, iters) in if t { vec![(4, 4), (9, 7)] } else { vec![(5, 4)] } {
                        bases.push(Case {
                            fun: Fun::new(kind, &b),
                            spec: Spec {
                                pop,
                                iters,
                                wait: 1,
                                tf: 2.0,
                                df: 0.1,
                                batch,
                                solver: st.clone(),
                                config: cfg.clone(),
                                obs: obs.clone(),
                                ..Default::default()
                            },
                            tag: name.into(),
                            at: vec![],
                            sticky: false,
                            calls: 0,
                        });
                    }
                }
            }
        }
    }
    // populations that are evaluated in parallel
    for kind in [Kind::Wells, Kind::Slope] {
        for (name, st, cfg) in solvers() {
            for batch in [Batch::Off, Batch::N(5)] {
                if !["tr", "nm", "cobyla"].contains(&name) || (!t && name == "nm") {
                    continue;
                }
                for (pop, iters) in if t { vec![(24, 8), (60, 12)] } else { vec![(24, 5)] } {
                    bases.push(Case {
                        fun: Fun::new(kind, &boxes()[0]),
                        spec: Spec { pop, iters, wait: 1, tf: 2.0, df: 0.1, batch, solver: st.clone(), config: cfg.clone(), obs: obs.clone(), ..Default::default() },
                        tag: name.into(),
                        at: vec![],
                        sticky: false,
                        calls: 0,
                    });
                }
            }
        }
    }
    let mut cases = vec![];
    let mut pairs = vec![];
    for b in &bases {
        let p = pt_faulty(&b.fun, &[], false);
        let (log, n) = (p.f.log.clone(), p.n.clone());
        with_worker(|w| w.pool.install(|| run(p, &b.spec, &log)));
        let calls = n.load(Ordering::SeqCst);
        for k in 0..calls {
            for f in FAULTS {
                for sticky in [false, true] {
                    cases.push(Case { at: vec![(k, f)], sticky, calls, ..b.clone() });
                }
            }
        }
        if calls <= if t { 140 } else { 45 } && b.fun.bounds.len() == 1 && b.spec.pop < 20 {
            for k in 0..calls {
                for l in k + 1..calls {
                    for f in FAULTS {
                        for g in FAULTS {
                            pairs.push(Case { at: vec![(k, f), (l, g)], sticky: false, calls, ..b.clone() });
                        }
                    }
                }
            }
        }
    }
    cx.bound("base runs", bases.len());
    cx.bound("single faults", cases.len());
    cx.bound("pairs of faults", pairs.len());
    let go = |cases: &[Case]| {
        for_all(cx.st, cases, cx.deadline, |c| {
            cx.st.state(hash(&format!("{c:?}")));
            cx.st.step(1);
            cx.st.sample(|| format!("{c:?}"));
            check(c, cx.st)
        })
    };
    cx.phase("single faults", || go(&cases));
    cx.phase("pairs of faults", || go(&pairs));
    // landscapes with non-numeric values, against the model
    let (nan, inf) = (f64::NAN, f64::INFINITY);
    let mut cfgs = vec![];
    for batch in if t { vec![Batch::Off, Batch::N(2), Batch::N(3)] } else { vec![Batch::Off, Batch::N(3)] } {
        for (v, fv) in [
            (vec![1.0, nan, 2.0], vec![0.5, nan, -1.0]),
            (vec![1.0, inf, -inf], vec![0.5, inf, -inf]),
            (vec![nan, inf, 1.0], vec![nan, -inf, 0.5]),
            (vec![-nan, 1.0], vec![-nan, 0.5]),
        ] {
            for wait in if t { vec![1, 2] } else { vec![1] } {
                let geo = geo1in(1);
                cfgs.push(Cfg {
                    spec: Spec {
                        pop: geo.pts.len(),
                        iters: geo.pts.len(),
                        custom: Some(geo.custom()),
                        df: 0.5,
                        batch,
                        wait,
                        ..Default::default()
                    },
                    geo,
                    vals: nums(&v),
                    fvals: nums(&fv),
                });
            }
        }
    }
    cx.bound("scripted configurations", cfgs.len());
    cx.phase("scripted non-numeric landscapes", || {
        drive(cx, &cfgs, |c, p, w, st| {
            let e = exec(p, &c.spec, w);
            replay(&c.spec, &c.geo.bounds, &e.par.outcomes(), Some(st));
            let r = (|| {
                if let End::Panic(m) = &e.ran.end {
                    return Err(format!("the search panicked: {m}"));
                }
                if let End::Ok(s) = &e.ran.end {
                    if s.iter().any(|s| s.1.is_nan()) && e.par.outcomes().iter().any(|o| !o.1.is_nan()) {
                        return Err("a not-a-number solution is reported although a numeric one was found".into());
                    }
                }
                no_failed(&e.s1)?;
                if let (End::Err(m), true) = (&e.ran.end, !e.par.searches.is_empty() && e.par.searches.iter().all(|s| s.outcome.is_ok())) {
                    return Err(format!("every local search succeeded, but the search failed: {m}"));
                }
                oracle_nan_set(&c.spec, &c.geo.bounds, &e)?;
                // nor do they keep other searches from being started
                oracle_c05(p, &c.spec, &c.geo.bounds, &e, None)
            })();
            r.map_err(|m| format!("{m}\n{}\n{}", p.describe(), show(&e)))
        })
    });
    // errors at trial points are skipped: no other effect
    let mut ls = lattice(false, &[Batch::Off, Batch::N(4)]);
    ls.retain(|l| l.fun.kind == Kind::Wells && (l.tag == "tr" || l.tag == "cobyla" || l.tag == "nm"));
    #[derive(Clone, Debug)]
    struct Skip {
        l: LCase,
        mask: usize,
    }
    let mut sk = vec![];
    for l in ls {
        for mask in 0..64 {
            sk.push(Skip { l: l.clone(), mask });
        }
    }
    cx.bound("runs with failing trial points", sk.len());
    cx.phase("failing trial points", || {
        for_all(cx.st, &sk, cx.deadline, |s| {
            let pop = s.l.spec.pop;
            let at: Vec<(usize, Fault)> =
                (0..6).filter(|i| s.mask >> i & 1 == 1).map(|i| (pop + i, Fault::Error)).collect();
            // only the calls Stage 1 makes for trial points
            let n1 = with_worker(|w| w.pool.install(|| stage1(&s.l.fun.again(), &s.l.spec))).log.len();
            let at: Vec<_> = at.into_iter().filter(|a| a.0 < n1).collect();
            let p = pt_faulty(&s.l.fun, &at, false);
            with_worker(|w| w.pool.install(|| no_failed(&stage1(&p, &s.l.spec))))?;
            let p = pt_faulty(&s.l.fun, &at, false);
            let log = p.f.log.clone();
            let ran = with_worker(|w| w.pool.install(|| run(p, &s.l.spec, &log)));
            cx.st.state(hash(&format!("{:?} {at:?}", s.l)));
            match &ran.end {
                End::Ok(_) => Ok(()),
                x => Err(format!("errors at trial points {at:?} of Stage 1 ended the search: {x:?}")),
            }
        })
    });
}

/// Points whose evaluation failed are not in the reference set.
fn no_failed(s1: &Stage1) -> Result<(), String> {
    let Ok((rs, _)) = &s1.out else { return Ok(()) };
    for (x, v) in rs {
        if !s1.log.iter().any(|e| matches!(e, Ev::Obj(p, Some(_)) if same(p, x))) {
            return Err(format!("the reference set holds {x:?} with {v}, whose evaluation failed; calls {:?}", s1.log));
        }
    }
    Ok(())
}

fn oracle_nan_set(spec: &Spec, bounds: &[(f64, f64)], e: &Exec) -> Result<(), String> {
    if e.par.searches.iter().any(|s| s.outcome.is_err()) {
        return Ok(());
    }
    let m = replay(spec, bounds, &e.par.outcomes(), None);
    if let End::Ok(set) = &e.ran.end {
        let key = |s: &[(Pt, f64)]| {
            let mut v: Vec<_> = s
                .iter()
                .map(|x| (bits(&x.0), if x.1.is_nan() { f64::NAN.to_bits() } else { x.1.to_bits() }))
                .collect();
            v.sort();
            v
        };
        if key(set) != key(&m.set) {
            return Err(format!("returned {set:?}, but the local searches make it {:?}", m.set));
        }
    }
    Ok(())
}
