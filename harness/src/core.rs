//! Building blocks shared by all checks: run specifications, call logs, captured results.
use globalsearch::local_solver::builders::*;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::OQNLP;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

pub type Pt = Vec<f64>;

pub fn bits(p: &[f64]) -> Vec<u64> {
    p.iter().map(|x| x.to_bits()).collect()
}
pub fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
pub fn same_sets(a: &[(Pt, f64)], b: &[(Pt, f64)]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| same(&x.0, &y.0) && x.1.to_bits() == y.1.to_bits())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// objective call: point, value (None: the call returned an error)
    Obj(Pt, Option<f64>),
    Grad(Pt),
    Hess(Pt),
    Mark(String),
}
impl Ev {
    pub fn same(&self, o: &Ev) -> bool {
        match (self, o) {
            (Ev::Obj(a, x), Ev::Obj(b, y)) => {
                same(a, b) && x.map(f64::to_bits) == y.map(f64::to_bits)
            }
            (Ev::Grad(a), Ev::Grad(b)) | (Ev::Hess(a), Ev::Hess(b)) => same(a, b),
            (Ev::Mark(a), Ev::Mark(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<Ev>>>);
impl Log {
    pub fn push(&self, e: Ev) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).push(e)
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Batch {
    /// parallel execution switched off
    Off,
    /// parallel execution on, batch size left to the library
    Auto,
    N(usize),
}

#[derive(Clone, Debug)]
pub struct ObsSpec {
    pub mode: u8, // 0 none, 1 stage1 only, 2 stage2 only, 3 both
    pub freq: usize,
    pub callback: Cb,
    pub timing: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cb {
    None,
    /// our own, recording what it sees
    Rec,
    Default,
    Stage1,
    Stage2,
    Unique,
}

#[derive(Clone, Debug)]
pub struct CkSpec {
    pub dir: std::path::PathBuf,
    pub name: String,
    pub freq: usize,
    pub keep_all: bool,
    pub auto: bool,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub pop: usize,
    pub iters: usize,
    pub wait: usize,
    pub tf: f64,
    pub df: f64,
    pub seed: u64,
    pub solver: LocalSolverType,
    pub config: LocalSolverConfig,
    pub custom: Option<Vec<Pt>>,
    pub batch: Batch,
    pub target: Option<f64>,
    pub max_time: Option<f64>,
    pub exclude: bool,
    pub tol: Option<(f64, f64)>,
    pub verbose: bool,
    pub obs: Option<ObsSpec>,
    pub ck: Option<CkSpec>,
}

pub fn tr_config() -> (LocalSolverType, LocalSolverConfig) {
    (
        LocalSolverType::TrustRegion,
        LocalSolverConfig::TrustRegion {
            trust_region_radius_method: TrustRegionRadiusMethod::Steihaug,
            max_iter: 1,
            radius: 1e6,
            max_radius: 1e7,
            eta: 0.0,
        },
    )
}

impl Default for Spec {
    fn default() -> Self {
        let (solver, config) = tr_config();
        Spec {
            pop: 4,
            iters: 4,
            wait: 2,
            tf: 1.0,
            df: 1.0,
            seed: 0,
            solver,
            config,
            custom: None,
            batch: Batch::Off,
            target: None,
            max_time: None,
            exclude: false,
            tol: None,
            verbose: false,
            obs: None,
            ck: None,
        }
    }
}

impl Spec {
    pub fn params(&self) -> OQNLPParams {
        OQNLPParams {
            iterations: self.iters,
            population_size: self.pop,
            wait_cycle: self.wait,
            threshold_factor: self.tf,
            distance_factor: self.df,
            local_solver_type: self.solver.clone(),
            local_solver_config: self.config.clone(),
            seed: self.seed,
        }
    }
    pub fn tols(&self) -> (f64, f64) {
        self.tol.unwrap_or((1e-8, 1e-6))
    }
    pub fn batch_len(&self) -> usize {
        match self.batch {
            Batch::Off => 1,
            Batch::N(n) => n.max(1),
            Batch::Auto => panic!("no fixed batch size"),
        }
    }
    pub fn brief(&self) -> String {
        let cfg = format!("{:?}", self.config);
        format!(
            "pop={} iters={} wait={} tf={} df={} seed={} solver={} custom={} batch={:?} target={:?} max_time={:?} exclude={} tol={:?} verbose={} obs={:?} ck={:?}",
            self.pop, self.iters, self.wait, self.tf, self.df, self.seed, cfg,
            self.custom.as_ref().map_or("-".into(), |c| if c.len() > 6 { format!("{} points", c.len()) } else { format!("{c:?}") }),
            self.batch, self.target, self.max_time, self.exclude, self.tol, self.verbose, self.obs, self.ck.as_ref().map(|c| (c.freq, c.keep_all, c.auto))
        )
    }
}

pub fn arr2(rows: &[Pt], ncols: usize) -> Array2<f64> {
    let flat: Vec<f64> = rows.iter().flatten().copied().collect();
    Array2::from_shape_vec((rows.len(), ncols), flat).unwrap()
}

/// How a run ended.
#[derive(Clone, Debug)]
pub enum End {
    Ok(Vec<(Pt, f64)>),
    Err(String),
    Panic(String),
}
impl End {
    pub fn same(&self, o: &End) -> bool {
        match (self, o) {
            (End::Ok(a), End::Ok(b)) => same_sets(a, b),
            (End::Err(a), End::Err(b)) => a == b,
            _ => false,
        }
    }
    pub fn ok(&self) -> Option<&Vec<(Pt, f64)>> {
        if let End::Ok(s) = self { Some(s) } else { None }
    }
}

pub fn set_of(s: &SolutionSet) -> Vec<(Pt, f64)> {
    s.solutions.iter().map(|l| (l.point.to_vec(), l.objective)).collect()
}

#[derive(Clone, Debug, Default)]
pub struct CbRec {
    pub log_pos: usize,
    pub s1: Option<S1>,
    pub s2: Option<S2>,
}
#[derive(Clone, Debug, Default)]
pub struct S1 {
    pub substage: String,
    pub evals: usize,
    pub trials: usize,
    pub refset: usize,
    pub best: f64,
    pub best_pt: Option<Pt>,
    pub time: Option<f64>,
}
#[derive(Clone, Debug, Default)]
pub struct S2 {
    pub iter: usize,
    pub evals: usize,
    pub calls: usize,
    pub improved: usize,
    pub set_size: usize,
    pub best: f64,
    pub best_pt: Option<Pt>,
    pub thr: f64,
    pub unchanged: usize,
    pub last_added: Option<Pt>,
    pub time: Option<f64>,
}
pub fn s1_of(o: &Observer) -> Option<S1> {
    o.stage1().map(s1_rec)
}
pub fn s1_rec(s: &globalsearch::observers::Stage1State) -> S1 {
    S1 {
        substage: s.current_substage().to_string(),
        evals: s.function_evaluations(),
        trials: s.trial_points_generated(),
        refset: s.reference_set_size(),
        best: s.best_objective(),
        best_pt: s.best_point().map(|p| p.to_vec()),
        time: s.total_time(),
    }
}
pub fn s2_of(o: &Observer) -> Option<S2> {
    o.stage2().map(|s| S2 {
        iter: s.current_iteration(),
        evals: s.function_evaluations(),
        calls: s.local_solver_calls(),
        improved: s.improved_local_calls(),
        set_size: s.solution_set_size(),
        best: s.best_objective(),
        best_pt: s.best_point().map(|p| p.to_vec()),
        thr: s.threshold_value(),
        unchanged: s.unchanged_cycles(),
        last_added: s.last_added_point().map(|p| p.to_vec()),
        time: s.total_time(),
    })
}

pub struct Ran {
    pub end: End,
    pub cbs: Vec<CbRec>,
    pub s1: Option<S1>,
    pub s2: Option<S2>,
    /// durations of the stages, read again some (virtual) time after the run
    pub later: (Option<f64>, Option<f64>),
}

pub fn observer(o: &ObsSpec, log: &Log, cbs: &Arc<Mutex<Vec<CbRec>>>) -> Observer {
    let mut ob = Observer::new();
    match o.mode {
        1 => ob = ob.with_stage1_tracking().with_mode(ObserverMode::Stage1Only),
        2 => ob = ob.with_stage2_tracking().with_mode(ObserverMode::Stage2Only),
        3 => ob = ob.with_stage1_tracking().with_stage2_tracking().with_mode(ObserverMode::Both),
        _ => {}
    }
    if o.timing {
        ob = ob.with_timing();
    }
    match o.callback {
        Cb::None => return ob,
        Cb::Rec => {
            let (l, c) = (log.clone(), cbs.clone());
            ob = ob.with_callback(move |ob| {
                let r = CbRec { log_pos: l.len(), s1: s1_of(ob), s2: s2_of(ob) };
                c.lock().unwrap().push(r);
            });
        }
        Cb::Default => ob = ob.with_default_callback(),
        Cb::Stage1 => ob = ob.with_stage1_callback(),
        Cb::Stage2 => ob = ob.with_stage2_callback(),
        Cb::Unique => ob = ob.with_default_callback().unique_updates(),
    }
    ob.with_callback_frequency(o.freq)
}

pub fn build<P: Problem + Clone + Send + Sync>(
    p: P,
    s: &Spec,
    log: &Log,
    cbs: &Arc<Mutex<Vec<CbRec>>>,
) -> Result<OQNLP<P>, String> {
    let ncols = p.variable_bounds().nrows();
    let mut o = OQNLP::new(p, s.params()).map_err(|e| e.to_string())?;
    if let Some(c) = &s.custom {
        o = o.with_points(arr2(c, ncols)).map_err(|e| e.to_string())?;
    }
    #[cfg(feature = "rayon")]
    match s.batch {
        Batch::Off => o = o.parallel(false),
        Batch::Auto => {}
        Batch::N(n) => o = o.batch_iterations(n),
    }
    if let Some(t) = s.target {
        o = o.target_objective(t);
    }
    if let Some(t) = s.max_time {
        o = o.max_time(t);
    }
    if s.exclude {
        o = o.exclude_out_of_bounds();
    }
    if let Some((a, r)) = s.tol {
        o = o.with_tolerance(a, r);
    }
    if s.verbose {
        o = o.verbose();
    }
    if let Some(ob) = &s.obs {
        o = o.add_observer(observer(ob, log, cbs));
    }
    #[cfg(feature = "ckpt")]
    if let Some(c) = &s.ck {
        o = o.with_checkpointing(ck_config(c)).map_err(|e| e.to_string())?;
    }
    Ok(o)
}

#[cfg(feature = "ckpt")]
pub fn ck_config(c: &CkSpec) -> CheckpointConfig {
    CheckpointConfig {
        checkpoint_dir: c.dir.clone(),
        checkpoint_name: c.name.clone(),
        save_frequency: c.freq,
        keep_all: c.keep_all,
        auto_resume: c.auto,
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

pub fn run_built<P: Problem + Clone + Send + Sync>(o: &mut OQNLP<P>) -> End {
    match catch_unwind(AssertUnwindSafe(|| o.run())) {
        Ok(Ok(s)) => End::Ok(set_of(&s)),
        Ok(Err(e)) => End::Err(e.to_string()),
        Err(e) => End::Panic(panic_text(e)),
    }
}

/// Build and run a search; the caller reads the call log from the problem it passed in.
pub fn run<P: Problem + Clone + Send + Sync>(p: P, s: &Spec, log: &Log) -> Ran {
    let cbs = Arc::new(Mutex::new(Vec::new()));
    let built = catch_unwind(AssertUnwindSafe(|| build(p, s, log, &cbs)));
    let mut o = match built {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => {
            return Ran { end: End::Err(e), cbs: vec![], s1: None, s2: None, later: (None, None) };
        }
        Err(e) => return Ran { end: End::Panic(panic_text(e)), cbs: vec![], s1: None, s2: None, later: (None, None) },
    };
    let end = run_built(&mut o);
    let s1 = o.observer().and_then(|o| o.stage1_final().map(s1_rec));
    let s2 = o.observer().and_then(s2_of);
    crate::vclock::advance_ms(5000);
    let later = (
        o.observer().and_then(|o| o.stage1_final().and_then(|s| s.total_time())),
        o.observer().and_then(|o| o.stage2().and_then(|s| s.total_time())),
    );
    let cbs = std::mem::take(&mut *cbs.lock().unwrap_or_else(|e| e.into_inner()));
    Ran { end, cbs, s1, s2, later }
}

pub fn err() -> EvaluationError {
    EvaluationError::InvalidInput { reason: "scripted".into() }
}

pub fn a1(p: &[f64]) -> Array1<f64> {
    Array1::from(p.to_vec())
}

/// Distance as the library's documentation defines it: Euclidean, compared squared.
pub fn d2(a: &[f64], b: &[f64]) -> f64 {
    let x = a1(a) - a1(b);
    x.dot(&x)
}

pub fn inside(p: &[f64], b: &[(f64, f64)]) -> bool {
    p.iter().zip(b).all(|(x, (l, u))| *x >= *l && *x <= *u)
}

/// Numbers in order, then every not-a-number.
pub fn rank(a: f64, b: f64) -> std::cmp::Ordering {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => std::cmp::Ordering::Equal,
        (true, false) => std::cmp::Ordering::Greater,
        (false, true) => std::cmp::Ordering::Less,
        _ => a.partial_cmp(&b).unwrap(),
    }
}

#[cfg(feature = "ckpt")]
pub mod ck {
    use super::*;
    pub use globalsearch::checkpoint::*;
    pub fn latest(c: &CkSpec) -> Result<OQNLPCheckpoint, String> {
        let m = CheckpointManager::new(ck_config(c)).map_err(|e| e.to_string())?;
        m.load_latest_checkpoint().map_err(|e| e.to_string())
    }
    pub fn refset(c: &OQNLPCheckpoint) -> Vec<Pt> {
        c.reference_set.iter().map(|p| p.to_vec()).collect()
    }
    pub fn filter(c: &OQNLPCheckpoint) -> Vec<(Pt, f64)> {
        c.distance_filter_solutions.iter().map(|l| (l.point.to_vec(), l.objective)).collect()
    }
}

/// Scratch space for one worker, removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = std::path::PathBuf::from(format!(
            "{base}/gsmc-{}-{}-{}",
            std::process::id(),
            tag,
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn clear(&self) {
        if let Ok(rd) = std::fs::read_dir(&self.0) {
            for e in rd.flatten() {
                if e.path().is_dir() {
                    let _ = std::fs::remove_dir_all(e.path());
                } else {
                    let _ = std::fs::remove_file(e.path());
                }
            }
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A local solver configuration in every field.
pub fn cfg_repr(c: &LocalSolverConfig) -> String {
    let ls = |l: &LineSearchParams| match &l.method {
        LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
            format!("MoreThuente c1={c1:?} c2={c2:?} width={width_tolerance:?} bounds={:?}", bounds.to_vec())
        }
        LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => format!(
            "HagerZhang delta={delta:?} sigma={sigma:?} epsilon={epsilon:?} theta={theta:?} gamma={gamma:?} eta={eta:?} bounds={:?}",
            bounds.to_vec()
        ),
    };
    match c {
        LocalSolverConfig::LBFGS { max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params } => format!(
            "LBFGS max_iter={max_iter} grad={tolerance_grad:?} cost={tolerance_cost:?} history={history_size} l1={l1_coefficient:?} {}",
            ls(line_search_params)
        ),
        LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } => format!(
            "NelderMead delta={simplex_delta:?} sd={sd_tolerance:?} max_iter={max_iter} alpha={alpha:?} gamma={gamma:?} rho={rho:?} sigma={sigma:?}"
        ),
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => {
            format!("SteepestDescent max_iter={max_iter} {}", ls(line_search_params))
        }
        LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } => format!(
            "TrustRegion {trust_region_radius_method:?} max_iter={max_iter} radius={radius:?} max_radius={max_radius:?} eta={eta:?}"
        ),
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => format!(
            "NewtonCG max_iter={max_iter} curvature={curvature_threshold:?} tol={tolerance:?} {}",
            ls(line_search_params)
        ),
        LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs } => format!(
            "COBYLA max_iter={max_iter} step={initial_step_size:?} ftol_rel={ftol_rel:?} ftol_abs={ftol_abs:?} xtol_rel={xtol_rel:?} xtol_abs={xtol_abs:?}"
        ),
    }
}

#[cfg(feature = "ckpt")]
/// A checkpoint in every field.
pub fn ck_repr(c: &OQNLPCheckpoint) -> String {
    let sol = |l: &LocalSolution| format!("({:?}, {:?})", l.point.to_vec(), l.objective);
    let p = &c.params;
    format!(
        "iterations={} population={} wait={} tf={:?} df={:?} solver={:?} config={} seed={} | it={} thr={:?} set={:?} ref={:?} unchanged={} elapsed={:?} filter={:?} cseed={} target={:?} exclude={} batch={:?} par={} abs={:?} rel={:?} ts={:?}",
        p.iterations,
        p.population_size,
        p.wait_cycle,
        p.threshold_factor,
        p.distance_factor,
        p.local_solver_type,
        cfg_repr(&p.local_solver_config),
        p.seed,
        c.current_iteration,
        c.merit_threshold,
        c.solution_set.as_ref().map(|s| s.solutions.iter().map(sol).collect::<Vec<_>>()),
        c.reference_set.iter().map(|a| a.to_vec()).collect::<Vec<_>>(),
        c.unchanged_cycles,
        c.elapsed_time,
        c.distance_filter_solutions.iter().map(sol).collect::<Vec<_>>(),
        c.current_seed,
        c.target_objective,
        c.exclude_out_of_bounds,
        c.batch_iterations,
        c.enable_parallel,
        c.abs_tol,
        c.rel_tol,
        c.timestamp
    )
}
