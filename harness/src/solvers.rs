//! C18: a local search is exactly the underlying solver's run with the configured settings.
use crate::core::*;
use crate::explore::*;
use crate::funs::*;
use crate::report::Ctx;
use crate::trace::*;
use argmin::core::{CostFunction, Error, Executor, Gradient, Hessian, IterState, Solver, State};
use argmin::solver::gradientdescent::SteepestDescent;
use argmin::solver::linesearch::{HagerZhangLineSearch, MoreThuenteLineSearch};
use argmin::solver::neldermead::NelderMead;
use argmin::solver::newton::NewtonCG;
use argmin::solver::quasinewton::LBFGS;
use argmin::solver::trustregion::{CauchyPoint, Steihaug, TrustRegion};
use globalsearch::local_solver::builders::*;
use globalsearch::local_solver::runner::{LocalSolver, LocalSolverError};
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};

type V = Array1<f64>;
type MT = MoreThuenteLineSearch<V, V, f64>;
type HZ = HagerZhangLineSearch<V, V, f64>;

thread_local! {
    /// points the constraints were evaluated at
    static CONS: RefCell<Vec<(u8, Pt)>> = const { RefCell::new(vec![]) };
}
fn con0(x: &[f64], _: &mut ()) -> f64 {
    CONS.with(|c| c.borrow_mut().push((0, x.to_vec())));
    0.9 - x[0]
}
fn con1(x: &[f64], _: &mut ()) -> f64 {
    CONS.with(|c| c.borrow_mut().push((1, x.to_vec())));
    x.iter().sum::<f64>() + 1.2
}

/// A solver and its line search with one value per setting.
#[derive(Clone, Debug, PartialEq)]
pub struct Conf {
    pub solver: &'static str,
    pub v: Vec<f64>,
}

const MTP: &[(&str, &[f64])] = &[
    ("c1", &[1e-4, 0.1, 0.3, 0.9, 0.0, -0.1, 1.0]),
    ("c2", &[0.9, 0.5, 0.11, 1e-4, 1.0, 1.5]),
    ("width", &[1e-10, 0.5, 0.05, 0.0, -1e-3]),
    ("min", &[1.4901161193847656e-8, 0.05, 0.0, -1.0, 2.0]),
    ("max", &[1e5, 0.2, 1.0, 2.0, 0.0, f64::INFINITY]),
    ("nbounds", &[2.0, 0.0, 1.0, 3.0]),
];
const HZP: &[(&str, &[f64])] = &[
    ("delta", &[0.1, 0.01, 0.45, 0.9, 0.0, 1.0]),
    ("sigma", &[0.9, 0.5, 0.1, 0.05, 1.0]),
    ("epsilon", &[1e-6, 0.1, 0.0, -1e-6]),
    ("theta", &[0.5, 0.1, 0.9, 0.0, 1.0]),
    ("gamma", &[0.66, 0.2, 0.95, 0.0, 1.0]),
    ("eta", &[0.01, 0.5, 0.0]),
    ("min", &[2.220446049250313e-16, 0.05, 0.0, -1.0, 2.0]),
    ("max", &[1e5, 0.2, 1.0, 2.0, 0.0]),
    ("nbounds", &[2.0, 0.0, 1.0, 3.0]),
];
/// Every setting of a solver: default, other legal values, values the solver rejects.
fn settings(solver: &str) -> Vec<(&'static str, &'static [f64])> {
    let own: &[(&'static str, &'static [f64])] = match &solver[..solver.find('-').unwrap_or(solver.len())] {
        "lbfgs" => &[
            ("max_iter", &[40.0, 0.0, 1.0, 5.0, 4000.0]),
            ("tol_grad", &[1.4901161193847656e-8, 0.1, 3.0, 0.0, -1.0]),
            ("tol_cost", &[2.220446049250313e-16, 1e-2, 0.5, 0.0, -1.0]),
            ("history", &[10.0, 0.0, 1.0, 3.0, 60.0]),
            ("l1", &[f64::NEG_INFINITY, 0.05, 0.7, 0.0, -0.5]),
        ],
        "sd" => &[("max_iter", &[7.0, 0.0, 1.0, 3.0, 150.0])],
        "ncg" => &[
            ("max_iter", &[20.0, 0.0, 1.0, 3.0, 300.0]),
            ("curvature", &[0.0, 1.0, 30.0, -30.0]),
            ("tol", &[1.4901161193847656e-8, 0.05, 0.5, 0.0, -1.0]),
        ],
        "nm" => &[
            ("delta", &[0.1, 0.5, -0.3, 0.0, 1e-6, 40.0]),
            ("sd_tol", &[2.220446049250313e-16, 1e-2, 0.3, 0.0, -1.0]),
            ("max_iter", &[40.0, 0.0, 1.0, 9.0, 2000.0]),
            ("alpha", &[1.0, 0.5, 1.5, 0.0, -1.0]),
            ("gamma", &[2.0, 1.2, 3.0, 1.0, 0.5]),
            ("rho", &[0.5, 0.2, 0.0, 0.6]),
            ("sigma", &[0.5, 0.2, 1.0, 0.0, 1.1]),
        ],
        "tr" => &[
            ("max_iter", &[30.0, 0.0, 1.0, 4.0, 1500.0]),
            ("radius", &[1.0, 0.1, 5.0, 0.0, -1.0, 60.0]),
            ("max_radius", &[100.0, 0.3, 1.0, 0.0, -1.0, 1e7]),
            ("eta", &[0.125, 0.0, 0.24, 0.25, -0.1, 0.5]),
        ],
        "cobyla" => &[
            ("max_iter", &[60.0, 1.0, 3.0, 17.0, 2500.0]),
            ("step", &[0.5, 0.1, 1.5, 1e-3, 60.0, 2e4]),
            ("ftol_rel", &[1e-6, 0.2, 1e-2, 0.0]),
            ("ftol_abs", &[1e-8, 0.3, 1e-2, 0.0]),
            ("xtol_rel", &[0.0, 0.2, 1e-2]),
            ("xtol_abs", &[0.0, 0.2, 1e-2]),
            ("nxtol", &[0.0, 9.0, 1.0, 2.0, 4.0]),
        ],
        _ => unreachable!(),
    };
    let mut out = own.to_vec();
    if solver.ends_with("-mt") {
        out.extend_from_slice(MTP)
    } else if solver.ends_with("-hz") {
        out.extend_from_slice(HZP)
    }
    out
}
pub const SOLVERS: &[&str] =
    &["lbfgs-mt", "lbfgs-hz", "sd-mt", "sd-hz", "ncg-mt", "ncg-hz", "nm", "tr-cauchy", "tr-steihaug", "cobyla"];

impl Conf {
    fn base(solver: &'static str) -> Conf {
        Conf { solver, v: settings(solver).iter().map(|s| s.1[0]).collect() }
    }
    fn get(&self, name: &str) -> f64 {
        let i = settings(self.solver).iter().position(|s| s.0 == name).unwrap();
        self.v[i]
    }
    fn bounds(&self) -> Pt {
        match self.get("nbounds") as usize {
            0 => vec![],
            1 => vec![self.get("min")],
            2 => vec![self.get("min"), self.get("max")],
            _ => vec![self.get("min"), self.get("max"), 0.123],
        }
    }
    fn l1(&self) -> Option<f64> {
        let l = self.get("l1");
        if l == f64::NEG_INFINITY { None } else { Some(l) }
    }
    /// absolute tolerances of COBYLA; 9 stands for one per variable
    fn xtol(&self, d: usize) -> Pt {
        let n = self.get("nxtol") as usize;
        (0..if n == 9 { d } else { n }).map(|i| self.get("xtol_abs") * (1.0 + i as f64 / 2.0)).collect()
    }
    pub fn ty(&self) -> LocalSolverType {
        match &self.solver[..2] {
            "lb" => LocalSolverType::LBFGS,
            "sd" => LocalSolverType::SteepestDescent,
            "nc" => LocalSolverType::NewtonCG,
            "nm" => LocalSolverType::NelderMead,
            "tr" => LocalSolverType::TrustRegion,
            _ => LocalSolverType::COBYLA,
        }
    }
    pub fn config(&self, d: usize) -> LocalSolverConfig {
        let g = |n: &str| self.get(n);
        let ls = || LineSearchParams {
            method: if self.solver.ends_with("-mt") {
                LineSearchMethod::MoreThuente {
                    c1: g("c1"),
                    c2: g("c2"),
                    width_tolerance: g("width"),
                    bounds: Array1::from(self.bounds()),
                }
            } else {
                LineSearchMethod::HagerZhang {
                    delta: g("delta"),
                    sigma: g("sigma"),
                    epsilon: g("epsilon"),
                    theta: g("theta"),
                    gamma: g("gamma"),
                    eta: g("eta"),
                    bounds: Array1::from(self.bounds()),
                }
            },
        };
        let max_iter = g("max_iter") as u64;
        match &self.solver[..2] {
            "lb" => LocalSolverConfig::LBFGS {
                max_iter,
                tolerance_grad: g("tol_grad"),
                tolerance_cost: g("tol_cost"),
                history_size: g("history") as usize,
                l1_coefficient: self.l1(),
                line_search_params: ls(),
            },
            "sd" => LocalSolverConfig::SteepestDescent { max_iter, line_search_params: ls() },
            "nc" => LocalSolverConfig::NewtonCG {
                max_iter,
                curvature_threshold: g("curvature"),
                tolerance: g("tol"),
                line_search_params: ls(),
            },
            "nm" => LocalSolverConfig::NelderMead {
                simplex_delta: g("delta"),
                sd_tolerance: g("sd_tol"),
                max_iter,
                alpha: g("alpha"),
                gamma: g("gamma"),
                rho: g("rho"),
                sigma: g("sigma"),
            },
            "tr" => LocalSolverConfig::TrustRegion {
                trust_region_radius_method: if self.solver == "tr-cauchy" {
                    TrustRegionRadiusMethod::Cauchy
                } else {
                    TrustRegionRadiusMethod::Steihaug
                },
                max_iter,
                radius: g("radius"),
                max_radius: g("max_radius"),
                eta: g("eta"),
            },
            _ => LocalSolverConfig::COBYLA {
                max_iter,
                initial_step_size: g("step"),
                ftol_rel: g("ftol_rel"),
                ftol_abs: g("ftol_abs"),
                xtol_rel: g("xtol_rel"),
                xtol_abs: self.xtol(d),
            },
        }
    }
}

/// What the underlying solver does.
#[derive(Clone, Debug)]
enum Want {
    /// the solver refuses the settings
    Rejected,
    /// the run ends with an error or has no best point
    Failed,
    /// the underlying solver itself crashes
    Crash,
    Found(Pt, f64),
}

struct Direct {
    f: Fun,
}
impl CostFunction for Direct {
    type Param = V;
    type Output = f64;
    fn cost(&self, x: &V) -> Result<f64, Error> {
        self.f.objective(x).map_err(|e| Error::msg(e.to_string()))
    }
}
impl Gradient for Direct {
    type Param = V;
    type Gradient = V;
    fn gradient(&self, x: &V) -> Result<V, Error> {
        self.f.gradient(x).map_err(|e| Error::msg(e.to_string()))
    }
}
impl Hessian for Direct {
    type Param = V;
    type Hessian = Array2<f64>;
    fn hessian(&self, x: &V) -> Result<Array2<f64>, Error> {
        self.f.hessian(x).map_err(|e| Error::msg(e.to_string()))
    }
}

fn drive<S, G, H>(f: &Fun, s: Result<S, Error>, x: Option<&[f64]>, max: u64) -> Want
where
    S: Solver<Direct, IterState<V, G, (), H, (), f64>>,
    IterState<V, G, (), H, (), f64>: State<Param = V, Float = f64>,
{
    let Ok(s) = s else { return Want::Rejected };
    let r = Executor::new(Direct { f: f.clone() }, s)
        .configure(|st| {
            let st = match x {
                Some(x) => st.param(a1(x)),
                None => st,
            };
            st.max_iters(max)
        })
        .run();
    match r {
        Ok(r) => match r.state().best_param.as_ref() {
            Some(p) => Want::Found(p.to_vec(), r.state().best_cost),
            None => Want::Failed,
        },
        Err(_) => Want::Failed,
    }
}

fn mt(c: &Conf) -> Result<MT, Error> {
    let b = c.bounds();
    if b.len() < 2 {
        return Err(Error::msg("bounds"));
    }
    MT::new().with_c(c.get("c1"), c.get("c2"))?.with_bounds(b[0], b[1])?.with_width_tolerance(c.get("width"))
}
fn hz(c: &Conf) -> Result<HZ, Error> {
    let b = c.bounds();
    if b.len() < 2 {
        return Err(Error::msg("bounds"));
    }
    HZ::new()
        .with_delta_sigma(c.get("delta"), c.get("sigma"))?
        .with_epsilon(c.get("epsilon"))?
        .with_theta(c.get("theta"))?
        .with_gamma(c.get("gamma"))?
        .with_eta(c.get("eta"))?
        .with_bounds(b[0], b[1])
}

fn direct(c: &Conf, f: &Fun, x: &[f64]) -> Want {
    let g = |n: &str| c.get(n);
    let max = g("max_iter") as u64;
    fn lb<L>(c: &Conf, l: Result<L, Error>) -> Result<LBFGS<L, V, V, f64>, Error> {
        let s = LBFGS::new(l?, c.get("history") as usize)
            .with_tolerance_cost(c.get("tol_cost"))?
            .with_tolerance_grad(c.get("tol_grad"))?;
        match c.l1() {
            Some(l) => s.with_l1_regularization(l),
            None => Ok(s),
        }
    }
    fn nc<L>(c: &Conf, l: Result<L, Error>) -> Result<NewtonCG<L, f64>, Error> {
        NewtonCG::new(l?).with_curvature_threshold(c.get("curvature")).with_tolerance(c.get("tol"))
    }
    fn tr<R>(c: &Conf, r: R) -> Result<TrustRegion<R, f64>, Error>
    where
        R: Clone + argmin::core::TrustRegionRadius<f64>,
    {
        TrustRegion::new(r).with_radius(c.get("radius"))?.with_max_radius(c.get("max_radius"))?.with_eta(c.get("eta"))
    }
    match c.solver {
        "lbfgs-mt" => drive(f, lb(c, mt(c)), Some(x), max),
        "lbfgs-hz" => drive(f, lb(c, hz(c)), Some(x), max),
        "sd-mt" => drive(f, mt(c).map(SteepestDescent::new), Some(x), max),
        "sd-hz" => drive(f, hz(c).map(SteepestDescent::new), Some(x), max),
        "ncg-mt" => drive(f, nc(c, mt(c)), Some(x), max),
        "ncg-hz" => drive(f, nc(c, hz(c)), Some(x), max),
        "tr-cauchy" => drive(f, tr(c, CauchyPoint::new()), Some(x), max),
        "tr-steihaug" => drive(f, tr(c, Steihaug::<V, f64>::new()), Some(x), max),
        "nm" => {
            let mut simplex = vec![a1(x)];
            for i in 0..x.len() {
                let mut p = a1(x);
                p[i] += g("delta");
                simplex.push(p);
            }
            let s = (|| {
                NelderMead::new(simplex)
                    .with_sd_tolerance(g("sd_tol"))?
                    .with_alpha(g("alpha"))?
                    .with_gamma(g("gamma"))?
                    .with_rho(g("rho"))?
                    .with_sigma(g("sigma"))
            })();
            drive(f, s, None, max)
        }
        _ => {
            let xt = c.xtol(x.len());
            if !xt.is_empty() && xt.len() != x.len() {
                return Want::Rejected;
            }
            let obj = |y: &[f64], _: &mut ()| f.objective(&a1(y)).unwrap_or(f64::INFINITY);
            match cobyla::minimize(
                obj,
                x,
                &f.bounds,
                &f.cons,
                (),
                max as usize,
                cobyla::RhoBeg::All(g("step")),
                Some(cobyla::StopTols {
                    ftol_rel: g("ftol_rel"),
                    ftol_abs: g("ftol_abs"),
                    xtol_rel: g("xtol_rel"),
                    xtol_abs: xt,
                }),
            ) {
                Ok((_, p, v)) => Want::Found(p, v),
                Err(_) => Want::Failed,
            }
        }
    }
}

fn is_config_error(t: &LocalSolverType, e: &LocalSolverError) -> bool {
    matches!(
        (t, e),
        (LocalSolverType::LBFGS, LocalSolverError::InvalidLBFGSConfig { .. })
            | (LocalSolverType::NelderMead, LocalSolverError::InvalidNelderMeadConfig { .. })
            | (LocalSolverType::SteepestDescent, LocalSolverError::InvalidSteepestDescentConfig { .. })
            | (LocalSolverType::TrustRegion, LocalSolverError::InvalidTrustRegionConfig { .. })
            | (LocalSolverType::NewtonCG, LocalSolverError::InvalidNewtonCG { .. })
            | (LocalSolverType::COBYLA, LocalSolverError::InvalidCOBYLAConfig { .. })
    )
}
fn any_config_error(e: &LocalSolverError) -> bool {
    ALL_TYPES.iter().any(|t| is_config_error(t, e))
}
const ALL_TYPES: [LocalSolverType; 6] = [
    LocalSolverType::LBFGS,
    LocalSolverType::NelderMead,
    LocalSolverType::SteepestDescent,
    LocalSolverType::TrustRegion,
    LocalSolverType::NewtonCG,
    LocalSolverType::COBYLA,
];

type Got = Result<Result<((Pt, f64), u64), LocalSolverError>, String>;
/// mode 0: `solve`, 1: tracking off, 2: tracking on
fn actual(f: &Fun, t: &LocalSolverType, c: &LocalSolverConfig, x: &[f64], mode: u8) -> (Got, Vec<Ev>, Vec<(u8, Pt)>) {
    CONS.with(|c| c.borrow_mut().clear());
    let q = f.again();
    let log = q.log.clone();
    let ls = LocalSolver::new(q, t.clone(), c.clone());
    let r = catch_unwind(AssertUnwindSafe(|| match mode {
        0 => ls.solve(a1(x)).map(|s| (s, 0)),
        m => ls.solve_with_tracking(a1(x), m == 2),
    }));
    let r = r.map(|r| r.map(|(s, n)| ((s.point.to_vec(), s.objective), n))).map_err(panic_text);
    (r, log.take(), CONS.with(|c| c.take()))
}

fn off_numbers(e: &Ev) -> bool {
    match e {
        Ev::Obj(p, v) => p.iter().chain(v.iter()).any(|x| !x.is_finite()),
        Ev::Grad(p) | Ev::Hess(p) => p.iter().any(|x| !x.is_finite()),
        Ev::Mark(_) => false,
    }
}
fn differ(a: &[Ev], b: &[Ev]) -> Option<String> {
    let n = a.iter().zip(b).take_while(|(x, y)| x.same(y)).count();
    if n == a.len() && n == b.len() {
        return None;
    }
    Some(format!(
        "call {n}: {:?} instead of {:?} (the solver itself makes {} calls, the local search made {})",
        a.get(n),
        b.get(n),
        b.len(),
        a.len()
    ))
}

#[derive(Clone, Debug)]
struct Case {
    c: Conf,
    kind: Kind,
    cons: usize,
    bounds: Vec<(f64, f64)>,
    x: Pt,
}
impl Case {
    fn fun(&self) -> Fun {
        let mut f = Fun::new(self.kind, &self.bounds);
        f.cons = [con0 as fn(&[f64], &mut ()) -> f64, con1][..self.cons].to_vec();
        // argmin's Newton-CG does not end on some of them (a zero gradient and a negative threshold)
        f.ends = self.c.solver.starts_with("ncg").then(|| self.c.get("curvature"));
        f
    }
}

fn judge(k: &Case, st: &Stats) -> Result<(), String> {
    let f = k.fun();
    let (t, conf) = (k.c.ty(), k.c.config(k.x.len()));
    CONS.with(|c| c.borrow_mut().clear());
    let want = catch_unwind(AssertUnwindSafe(|| direct(&k.c, &f, &k.x))).unwrap_or(Want::Crash);
    let wlog = f.log.take();
    let wcons = CONS.with(|c| c.take());
    st.state(hash(&format!("{:?}{:?}", k.c.solver, wlog)));
    st.step(wlog.len() as u64);
    st.count(
        match &want {
            Want::Rejected => "rejected_configurations",
            Want::Found(..) => "runs_with_a_solution",
            _ => "failed_runs",
        },
        1,
    );
    for mode in 0..3 {
        let (r, log, cons) = actual(&f, &t, &conf, &k.x, mode);
        let how = ["solve", "solve_with_tracking(false)", "solve_with_tracking(true)"][mode as usize];
        let r = match r {
            Ok(r) => r,
            Err(m) => return Err(format!("{how} panicked: {m} (the solver itself: {want:?})")),
        };
        match (&want, &r) {
            (Want::Rejected, Err(e)) if is_config_error(&t, e) => {
                if !log.is_empty() {
                    return Err(format!("{how}: a rejected configuration evaluates the problem: {log:?}"));
                }
            }
            (Want::Rejected, r) => {
                return Err(format!("{how}: a configuration {t:?} rejects gives {r:?} instead of its configuration error"));
            }
            (Want::Crash, Err(e)) if !any_config_error(e) => {}
            // a run that leaves the numbers has no value to compare: ending it early is an improvement
            (_, Err(e)) if !any_config_error(e) && wlog.iter().any(off_numbers) => st.count("runs_through_non_numbers", 1),
            (Want::Failed, Err(e)) if !any_config_error(e) => {
                if let Some(d) = differ(&log, &wlog) {
                    return Err(format!("{how}: {d}"));
                }
            }
            (Want::Found(p, v), Ok(((q, w), n))) => {
                if let Some(d) = differ(&log, &wlog) {
                    return Err(format!("{how}: {d}"));
                }
                if !same(p, q) || v.to_bits() != w.to_bits() {
                    return Err(format!("{how} returns {q:?} -> {w}, the solver's best point is {p:?} -> {v}"));
                }
                let objs = log.iter().filter(|e| matches!(e, Ev::Obj(..))).count() as u64;
                if mode == 2 && *n != objs {
                    return Err(format!("{how} reports {n} evaluations, the objective was called {objs} times"));
                }
                if mode != 2 && *n != 0 {
                    return Err(format!("{how} reports {n} evaluations although they are not tracked"));
                }
                if cons.len() != wcons.len() || cons.iter().zip(&wcons).any(|(a, b)| a.0 != b.0 || !same(&a.1, &b.1)) {
                    return Err(format!("{how}: {} constraint evaluations, the solver itself makes {}, or at other points", cons.len(), wcons.len()));
                }
            }
            (w, r) => return Err(format!("{how} gives {r:?}, the solver itself {w:?}")),
        }
    }
    Ok(())
}

/// All configurations that differ from the default in at most `k` settings.
fn lattice(solver: &'static str, k: usize) -> Vec<Conf> {
    let s = settings(solver);
    let mut out = vec![];
    fn rec(s: &[(&str, &[f64])], i: usize, k: usize, c: &mut Conf, out: &mut Vec<Conf>) {
        if i == s.len() {
            out.push(c.clone());
            return;
        }
        rec(s, i + 1, k, c, out);
        if k > 0 {
            for &v in &s[i].1[1..] {
                let old = std::mem::replace(&mut c.v[i], v);
                rec(s, i + 1, k - 1, c, out);
                c.v[i] = old;
            }
        }
    }
    rec(&s, 0, k, &mut Conf::base(solver), &mut out);
    out
}

/// Do all settings of this configuration lie within what the solver accepts?
fn problems(solver: &str, thorough: bool) -> Vec<(Kind, usize, Vec<(f64, f64)>, Pt)> {
    let mut out = vec![];
    let mut kinds = vec![Kind::Sphere, Kind::Tilted, Kind::Rosen, Kind::Steep, Kind::Ripple];
    if thorough {
        kinds.extend([Kind::Wells, Kind::Slope, Kind::Patchy, Kind::Flat]);
    } else {
        kinds.push(Kind::Patchy);
    }
    for kind in kinds {
        for x in [vec![-0.7, 0.4], vec![1.3, -1.1], vec![0.37], vec![0.3, -0.2, 0.9]] {
            if x.len() != 2 && !thorough && kind != Kind::Rosen {
                continue;
            }
            let b = vec![(-2.0, 1.5); x.len()];
            if solver == "cobyla" {
                for cons in 0..3 {
                    out.push((kind, cons, b.clone(), x.clone()));
                }
            } else {
                out.push((kind, 0, b, x));
            }
        }
    }
    out
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("one execution: one solver configuration, problem and start; the local search (solve, tracked and untracked) is compared call by call with the underlying solver driven directly");
    ctx.assume("the underlying solvers (argmin, cobyla) are the reference: their own correctness is not judged");
    ctx.assume("with L1 regularisation argmin's cost, and so the reported objective, includes the penalty");
    let k = if ctx.thorough { 3 } else { 2 };
    ctx.bound("settings varied at once", format!("{} (all settings, all combinations)", k));
    for &s in SOLVERS {
        ctx.phase(s, || {
            let mut cases = vec![];
            let ps = problems(s, ctx.thorough);
            for c in lattice(s, k) {
                for (kind, cons, b, x) in &ps {
                    cases.push(Case { c: c.clone(), kind: *kind, cons: *cons, bounds: b.clone(), x: x.clone() });
                }
            }
            // far starts, starts on the bounds, many variables: fewer settings at once
            for c in lattice(s, k - 1) {
                for kind in [Kind::Sphere, Kind::Tilted, Kind::Rosen, Kind::Ripple] {
                    for (b, x) in [
                        (vec![(-1000.0, 1000.0); 2], vec![312.5, -450.25]),
                        (vec![(-2.0, 1.5); 2], vec![1.5, -2.0]),
                        (vec![(-2.0, 1.5); 2], vec![0.0, 0.0]),
                        (vec![(-1e6, 1e6); 2], vec![1e5, 1e-5]),
                        (vec![(-2.0, 1.5); 5], vec![0.3, -0.2, 0.9, -1.4, 0.6]),
                        (vec![(-2.0, 1.5); 13], (0..13).map(|i| (i * 5 % 13) as f64 / 5.0 - 1.3).collect()),
                    ] {
                        // the solver itself does not end
                        if kind == Kind::Ripple && (c.get("max_iter") > 100.0 || s.starts_with("ncg")) {
                            continue;
                        }
                        for cons in if s == "cobyla" { vec![0, 2] } else { vec![0] } {
                            cases.push(Case { c: c.clone(), kind, cons, bounds: b.clone(), x: x.clone() });
                        }
                    }
                }
            }
            for_all(ctx.st, &cases, ctx.deadline, |c| judge(c, ctx.st));
            ctx.st.sample(|| format!("{:?}", cases[cases.len() / 2]));
            // every setting must matter somewhere, or comparing runs says nothing about it
            let base = Conf::base(s);
            let run = |c: &Conf| -> Vec<u64> {
                ps.iter()
                    .map(|(kind, cons, b, x)| {
                        let k = Case { c: c.clone(), kind: *kind, cons: *cons, bounds: b.clone(), x: x.clone() };
                        let f = k.fun();
                        let w = catch_unwind(AssertUnwindSafe(|| direct(c, &f, x))).unwrap_or(Want::Crash);
                        hash(&format!("{w:?}{:?}", f.log.take()))
                    })
                    .collect()
            };
            let b0 = run(&base);
            let mut dead = vec![];
            for (i, (name, vals)) in settings(s).iter().enumerate() {
                let n = vals[1..]
                    .iter()
                    .filter(|v| {
                        let mut c = base.clone();
                        c.v[i] = **v;
                        run(&c) != b0
                    })
                    .count();
                if n == 0 {
                    dead.push(*name);
                }
            }
            if !dead.is_empty() {
                ctx.bound(&format!("settings of {s} without effect in the underlying solver"), dead.join(" "));
            }
        });
    }
    ctx.phase("mismatch", || {
        let mut cases = vec![];
        for &s in SOLVERS {
            for t in &ALL_TYPES {
                if Conf::base(s).ty() != *t {
                    cases.push((s, t.clone()));
                }
            }
        }
        for_all(ctx.st, &cases, ctx.deadline, |(s, t)| {
            for d in 1..=3 {
                let f = Fun::new(Kind::Sphere, &vec![(-2.0, 2.0); d]);
                for mode in 0..3 {
                    let (r, log, _) = actual(&f, t, &Conf::base(s).config(d), &vec![0.5; d], mode);
                    match r {
                        Ok(Err(e)) if is_config_error(t, &e) && log.is_empty() => {}
                        r => return Err(format!("{t:?} with the configuration of {s} gives {r:?} after {} calls", log.len())),
                    }
                }
                ctx.st.state(hash(&(s, format!("{t:?}"), d)));
            }
            Ok(())
        });
    });
    ctx.phase("search", || {
        // the same configurations inside a whole search
        let mut cases = vec![];
        for &s in SOLVERS {
            for c in lattice(s, 1) {
                cases.push(c);
            }
        }
        for_all(ctx.st, &cases, ctx.deadline, |c| {
            let bounds = vec![(-2.0, 1.5); 2];
            let p = Fun::new(Kind::Rosen, &bounds);
            let spec = Spec {
                solver: c.ty(),
                config: c.config(2),
                pop: 8,
                iters: 3,
                ..Default::default()
            };
            let s1 = stage1(&p, &spec);
            let Ok((_, start)) = &s1.out else { return Err("Stage 1 fails".into()) };
            let q = p.again();
            let log = q.log.clone();
            let ran = run(q, &spec, &Log::default());
            let log = log.take();
            let f = Case { c: c.clone(), kind: Kind::Rosen, cons: 0, bounds, x: start.clone() }.fun();
            let want = catch_unwind(AssertUnwindSafe(|| direct(c, &f, start))).unwrap_or(Want::Crash);
            let wlog = f.log.take();
            let n = s1.log.len();
            if n + wlog.len() >= CAP {
                // cut off by the harness: an endless run of the solver itself
                ctx.st.count("runs_cut_off", 1);
                return Ok(());
            }
            let got = &log[n.min(log.len())..(n + wlog.len()).min(log.len())];
            if let (Want::Found(..), Some(d)) = (&want, differ(got, &wlog)) {
                return Err(format!("the first local search of a run: {d}"));
            }
            match (&want, &ran.end) {
                (_, End::Panic(m)) => Err(format!("the search panicked: {m}")),
                (Want::Found(..), End::Err(e)) => Err(format!("the search fails: {e}")),
                (Want::Rejected, End::Err(_)) if log.len() == n => Ok(()),
                (Want::Rejected, e) => Err(format!("rejected settings: the search ends with {e:?} after {} calls of local searches", log.len() - n)),
                _ => Ok(()),
            }
        });
    });
}
