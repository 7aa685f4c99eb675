//! C23: the Python bindings do what the Rust library does. Scripted uses of the extension module
//! are enumerated here, executed by driver processes (py/driver.py), and compared operation by
//! operation with the same use of the Rust library.
use crate::core::*;
use crate::explore::*;
use crate::funs::{Fun, Kind};
use crate::report::Ctx;
use globalsearch::local_solver::builders::*;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::OQNLP;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, LazyLock, Mutex, mpsc};
use std::time::Duration;

const THREADS: usize = 3;
const ANSWER: Duration = Duration::from_secs(60);

// ------------------------------------------------------------------ JSON
fn num(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else if v.is_infinite() {
        if v > 0.0 { "Infinity".into() } else { "-Infinity".into() }
    } else {
        format!("{v:?}")
    }
}
fn nums(v: &[f64]) -> String {
    format!("[{}]", v.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","))
}
fn rows(v: &[Pt]) -> String {
    format!("[{}]", v.iter().map(|r| nums(r)).collect::<Vec<_>>().join(","))
}
fn q(s: &str) -> String {
    crate::report::js(s)
}
fn rf(s: &str) -> String {
    format!("{{\"ref\":{}}}", q(s))
}
fn kwargs(kv: &[(&str, String)]) -> String {
    format!("{{{}}}", kv.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect::<Vec<_>>().join(","))
}

// ------------------------------------------------------------------ the driver processes
struct Driver {
    child: Child,
    to: ChildStdin,
    from: mpsc::Receiver<String>,
}
impl Driver {
    fn start() -> Driver {
        use std::os::unix::process::CommandExt;
        let py = std::env::var("GSMC_PYTHON").unwrap_or("python3".into());
        let m = std::env::var("GSMC_PYMOD").expect("GSMC_PYMOD");
        let d = crate::report::verif_dir().join("py/driver.py");
        let mut c = Command::new(py);
        c.arg("-B").arg(d).arg(m).env("RAYON_NUM_THREADS", THREADS.to_string());
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("python");
        let to = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, from) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            return;
                        }
                    }
                    Err(_) => return,
                }
            }
        });
        Driver { child, to, from }
    }
}
impl Drop for Driver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static DRIVER: RefCell<Option<Driver>> = const { RefCell::new(None) };
}

/// The answers to the operations of one case.
fn ask(ops: &[String]) -> Result<Vec<String>, String> {
    DRIVER.with(|d| {
        let mut d = d.borrow_mut();
        let dr = d.get_or_insert_with(Driver::start);
        let line = format!("[{}]\n", ops.join(","));
        let sent = dr.to.write_all(line.as_bytes()).and_then(|_| dr.to.flush());
        let r = match sent {
            Err(_) => Err("the Python process is gone".to_string()),
            Ok(()) => match dr.from.recv_timeout(ANSWER) {
                Ok(l) => Ok(l.split('\x1f').map(|s| s.replace('\x1e', "\n")).collect::<Vec<_>>()),
                Err(mpsc::RecvTimeoutError::Timeout) => Err(format!("no answer from Python within {ANSWER:?} (deadlock)")),
                Err(mpsc::RecvTimeoutError::Disconnected) => Err("the Python process died".to_string()),
            },
        };
        if r.is_err() {
            *d = None;
        }
        r
    })
}

// ------------------------------------------------------------------ cases
#[derive(Clone, Default)]
struct Case {
    ops: Vec<String>,
    expect: Vec<String>,
}
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "[{}]", self.ops.join(",\n "))
    }
}
impl Case {
    fn op(&mut self, o: String, e: impl Into<String>) {
        self.ops.push(o);
        self.expect.push(e.into());
    }
    fn ok(&mut self, o: String) {
        self.op(o, "ok");
    }
}
/// `*`: anything but a panic; `E`: any exception.
fn agrees(want: &str, got: &str) -> bool {
    if got.contains("P:PanicException") || got.starts_with("P:") {
        return false;
    }
    match want {
        "*" => true,
        "E" => got.starts_with("E:"),
        w => w == got,
    }
}
fn check(st: &Stats, c: &Case) -> Result<(), String> {
    st.step(c.ops.len() as u64);
    let got = ask(&c.ops)?;
    for (i, (w, g)) in c.expect.iter().zip(&got).enumerate() {
        if !agrees(w, g) {
            return Err(format!("operation {i} {}\n  Rust:   {w}\n  Python: {g}", c.ops[i]));
        }
        st.state(hash(g));
    }
    if got.len() != c.ops.len() {
        return Err("answers are missing".into());
    }
    for (o, g) in c.ops.iter().zip(&got) {
        if o.starts_with("[\"run\"") {
            st.count(if g.starts_with('E') { "runs that raised" } else { "runs that returned" }, 1);
        }
    }
    st.sample(|| format!("{c:?} -> {}", got.last().cloned().unwrap_or_default()));
    Ok(())
}

// ------------------------------------------------------------------ problems
type Bx = &'static [(f64, f64)];
const BOX1: Bx = &[(-2.0, 2.0)];
const BOX2: Bx = &[(-2.0, 2.0), (-1.5, 1.8)];
const BOX3: Bx = &[(-2.0, 1.0), (-1.0, 2.0), (-1.5, 1.5)];

#[derive(Clone, Debug)]
struct Fault {
    /// obj, grad, hess, con (the first of them), bounds, cb
    what: &'static str,
    /// the call, or 0 for every call
    k: usize,
    how: &'static str,
}
#[derive(Clone, Debug)]
struct Prob {
    kind: Kind,
    b: Bx,
    grad: bool,
    hess: bool,
    cons: Vec<usize>,
    cons_as: &'static str,
    /// how the functions return vectors: "", tuple, numpy
    conv: &'static str,
    fault: Option<Fault>,
}
impl Prob {
    fn new(kind: Kind, b: Bx) -> Prob {
        Prob { kind, b, grad: true, hess: true, cons: vec![], cons_as: "list", conv: "", fault: None }
    }
    fn cons(mut self, c: &[usize]) -> Prob {
        self.cons = c.to_vec();
        self
    }
    fn fault(mut self, what: &'static str, k: usize, how: &'static str) -> Prob {
        self.fault = Some(Fault { what, k, how });
        self
    }
    fn key(&self) -> String {
        format!("{:?} {:?} {} {} {:?} {:?}", self.kind, self.b, self.grad, self.hess, self.cons, self.fault.as_ref().map(|f| (f.what, f.k, if f.how == "do" { "do" } else { "bad" })))
    }
    fn fn_op(&self, id: &str, what: &str, extra: &[(&str, String)], inner: &str) -> String {
        let mut kv = vec![("what", q(if what.starts_with("con") { "con" } else { what })), ("kind", q(&format!("{:?}", self.kind)))];
        if !self.conv.is_empty() {
            kv.push(("as", q(self.conv)));
        }
        kv.extend(extra.iter().cloned());
        if let Some(f) = &self.fault
            && (f.what == what || (f.what == "con" && what == "con0"))
        {
            let mut x = vec![("k", f.k.to_string()), ("how", q(f.how))];
            if f.how == "do" {
                x.push(("ops", inner.to_string()));
            }
            kv.push(("fault", kwargs(&x)));
        }
        format!("[\"fn\",{},{}]", q(&format!("{id}.{what}")), kwargs(&kv))
    }
    /// The operations that define the problem's functions.
    fn fns(&self, id: &str, inner: &str) -> Vec<String> {
        let b: Vec<Pt> = self.b.iter().map(|b| vec![b.0, b.1]).collect();
        let mut v = vec![
            self.fn_op(id, "obj", &[], inner),
            self.fn_op(id, "bounds", &[("bounds", rows(&b))], inner),
        ];
        if self.grad {
            v.push(self.fn_op(id, "grad", &[], inner));
        }
        if self.hess {
            v.push(self.fn_op(id, "hess", &[], inner));
        }
        for (i, c) in self.cons.iter().enumerate() {
            v.push(self.fn_op(id, &format!("con{i}"), &[("i", c.to_string())], inner));
        }
        v
    }
    fn cons_val(&self, id: &str) -> String {
        let l: Vec<String> = (0..self.cons.len()).map(|i| rf(&format!("{id}.con{i}"))).collect();
        match self.cons_as {
            "tuple" => format!("{{\"tuple\":[{}]}}", l.join(",")),
            "single" if l.len() == 1 => l[0].clone(),
            _ => format!("[{}]", l.join(",")),
        }
    }
    fn define(&self, c: &mut Case, id: &str) {
        self.define_in(c, id, "[]")
    }
    fn define_in(&self, c: &mut Case, id: &str, inner: &str) {
        for o in self.fns(id, inner) {
            c.ok(o);
        }
        let mut kv = vec![];
        if self.grad {
            kv.push(("gradient", rf(&format!("{id}.grad"))));
        }
        if self.hess {
            kv.push(("hessian", rf(&format!("{id}.hess"))));
        }
        if !self.cons.is_empty() || self.cons_as == "tuple" {
            kv.push(("constraints", self.cons_val(id)));
        }
        c.ok(format!(
            "[\"new\",{},\"PyProblem\",[{},{}],{}]",
            q(id),
            rf(&format!("{id}.obj")),
            rf(&format!("{id}.bounds")),
            kwargs(&kv)
        ));
    }
}

thread_local! {
    static CON_CALLS: Cell<usize> = const { Cell::new(0) };
    static CON_FAULT: Cell<Option<usize>> = const { Cell::new(None) };
    static CON_FIRST: Cell<usize> = const { Cell::new(99) };
}
fn con_value(i: usize, x: &[f64]) -> f64 {
    if CON_FIRST.get() == i {
        CON_CALLS.set(CON_CALLS.get() + 1);
        if let Some(k) = CON_FAULT.get()
            && (k == 0 || k == CON_CALLS.get())
        {
            return f64::NAN;
        }
    }
    match i {
        0 => x[0] - 0.5,
        1 => -x[0] - 0.25,
        2 => x[0] + x[x.len() - 1] - 1.0,
        3 => 1.0 - x[0] * x[0],
        _ => f64::NAN,
    }
}
const CONS: [fn(&[f64], &mut ()) -> f64; 7] = [
    |x, _| con_value(0, x),
    |x, _| con_value(1, x),
    |x, _| con_value(2, x),
    |x, _| con_value(3, x),
    |x, _| con_value(4, x),
    |x, _| con_value(5, x),
    |x, _| con_value(6, x),
];

#[derive(Default)]
struct Calls {
    n: [AtomicUsize; 3],
    hashes: Mutex<(u64, u64, usize)>,
}
/// Runs with more calls than this are cut off by failing evaluations.
const CAP: usize = 4000;
const P: u64 = 0x100000001B3;
const H0: u64 = 0xCBF29CE484222325;

/// The problem as the Rust library would be given it.
#[derive(Clone)]
struct Pf {
    p: Prob,
    f: Fun,
    calls: Arc<Calls>,
}
impl Pf {
    fn new(p: &Prob) -> Pf {
        Pf { p: p.clone(), f: Fun::new(p.kind, p.b), calls: Arc::new(Calls { hashes: Mutex::new((H0, 0, 0)), ..Default::default() }) }
    }
    fn call(&self, w: usize, x: &Array1<f64>) -> bool {
        let n = self.calls.n[w].fetch_add(1, Ordering::SeqCst) + 1;
        let mut e = (H0 ^ (w as u64 + 1)).wrapping_mul(P);
        for v in x {
            e = (e ^ v.to_bits()).wrapping_mul(P);
        }
        let mut h = self.calls.hashes.lock().unwrap();
        h.0 = h.0.wrapping_mul(P) ^ e;
        h.1 = h.1.wrapping_add(e);
        h.2 += 1;
        if h.2 > CAP {
            return false;
        }
        match &self.p.fault {
            Some(f) if f.what == ["obj", "grad", "hess"][w] && f.how != "do" => !(f.k == 0 || f.k == n),
            _ => true,
        }
    }
}
impl Problem for Pf {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        if !self.call(0, x) {
            return Err(err());
        }
        self.f.value(&x.to_vec()).ok_or_else(err)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        if !self.p.grad {
            return Err(EvaluationError::GradientNotImplemented);
        }
        if !self.call(1, x) {
            return Err(err());
        }
        Ok(Array1::from(self.f.grad(&x.to_vec())))
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        if !self.p.hess {
            return Err(EvaluationError::HessianNotImplemented);
        }
        if !self.call(2, x) {
            return Err(err());
        }
        Ok(self.f.hess(&x.to_vec()))
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.f.variable_bounds()
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        self.p.cons.iter().map(|i| CONS[*i]).collect()
    }
}

// ------------------------------------------------------------------ runs
#[derive(Clone, Debug)]
struct Par {
    iters: usize,
    pop: usize,
    wait: usize,
    tf: f64,
    df: f64,
    abs: f64,
    rel: f64,
}
const PAR: Par = Par { iters: 5, pop: 7, wait: 2, tf: 0.2, df: 0.75, abs: 1e-8, rel: 1e-6 };
impl Par {
    fn define(&self, c: &mut Case, id: &str) {
        let kv = [
            ("iterations", self.iters.to_string()),
            ("population_size", self.pop.to_string()),
            ("wait_cycle", self.wait.to_string()),
            ("threshold_factor", num(self.tf)),
            ("distance_factor", num(self.df)),
            ("abs_tol", num(self.abs)),
            ("rel_tol", num(self.rel)),
        ];
        c.ok(format!("[\"new\",{},\"PyOQNLPParams\",[],{}]", q(id), kwargs(&kv)));
    }
}

/// A solver configuration: how Python makes it, and what it is in Rust.
#[derive(Clone, Debug)]
struct Conf {
    /// operations that leave the configuration in `c`
    py: Vec<String>,
    rust: LocalSolverConfig,
}

#[derive(Clone, Debug)]
struct Run {
    prob: Prob,
    par: Par,
    solver: Option<&'static str>,
    conf: Option<LocalSolverConfig>,
    seed: Option<u64>,
    target: Option<f64>,
    max_time: Option<f64>,
    exclude: Option<bool>,
    parallel: Option<bool>,
    points: Option<Vec<Pt>>,
}
impl Run {
    fn new(prob: Prob) -> Run {
        Run { prob, par: PAR, solver: None, conf: None, seed: None, target: None, max_time: None, exclude: None, parallel: None, points: None }
    }
    fn solver(mut self, s: &'static str) -> Run {
        self.solver = Some(s);
        self
    }
    fn par(mut self) -> Run {
        self.parallel = Some(true);
        self
    }
    fn is_par(&self) -> bool {
        self.parallel == Some(true)
    }
    fn kw(&self, conf: Option<&str>, obs: Option<&str>) -> Vec<(&'static str, String)> {
        let mut kv = vec![];
        let b = |x: bool| if x { "true".to_string() } else { "false".to_string() };
        if let Some(o) = obs {
            kv.push(("observer", rf(o)));
        }
        if let Some(s) = self.solver {
            kv.push(("local_solver", q(s)));
        }
        if let Some(c) = conf {
            kv.push(("local_solver_config", rf(c)));
        }
        if let Some(s) = self.seed {
            kv.push(("seed", s.to_string()));
        }
        if let Some(t) = self.target {
            kv.push(("target_objective", num(t)));
        }
        if let Some(t) = self.max_time {
            kv.push(("max_time", num(t)));
        }
        if let Some(x) = self.exclude {
            kv.push(("exclude_out_of_bounds", b(x)));
        }
        if let Some(x) = self.parallel {
            kv.push(("parallel", b(x)));
        }
        if let Some(p) = &self.points {
            kv.push(("with_points", rows(p)));
        }
        kv
    }
    fn op(&self, p: &str, par: &str, conf: Option<&str>, obs: Option<&str>) -> String {
        format!("[\"run\",[{},{}],{}]", rf(p), rf(par), kwargs(&self.kw(conf, obs)))
    }
    fn key(&self) -> String {
        format!(
            "{} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
            self.prob.key(),
            self.par,
            self.solver,
            self.conf.as_ref().map(cfg_repr),
            self.seed,
            self.target,
            self.max_time,
            self.exclude,
            self.parallel,
            self.points
        )
    }
}

fn pt(v: &[f64]) -> String {
    format!("[{}]", v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(","))
}
fn sol(p: &[f64], f: f64) -> String {
    format!("{}={:016x}", pt(p), f.to_bits())
}
fn set_text(s: &[(Pt, f64)]) -> String {
    format!("{{{}}}", s.iter().map(|(p, f)| sol(p, *f)).collect::<Vec<_>>().join(";"))
}
fn opt_pt(p: &Option<Pt>) -> String {
    p.as_ref().map_or("None".into(), |p| pt(p))
}
fn some<T>(o: &Option<T>) -> &'static str {
    if o.is_some() { "Some" } else { "None" }
}
fn s1_text(s: Option<S1>) -> String {
    s.map_or("None".into(), |s| {
        format!("S1({},{},{},{},{:016x},{},{})", s.substage, s.evals, s.trials, s.refset, s.best.to_bits(), opt_pt(&s.best_pt), some(&s.time))
    })
}
fn s2_text(s: Option<S2>) -> String {
    s.map_or("None".into(), |s| {
        format!(
            "S2({},{},{},{},{},{:016x},{},{:016x},{},{},{})",
            s.iter,
            s.evals,
            s.calls,
            s.improved,
            s.set_size,
            s.best.to_bits(),
            opt_pt(&s.best_pt),
            s.thr.to_bits(),
            s.unchanged,
            opt_pt(&s.last_added),
            some(&s.time)
        )
    })
}
fn obs_text(o: &Observer) -> String {
    let b = |x: bool| if x { "True" } else { "False" };
    format!(
        "O({},{},{},{},{},{},{})",
        b(o.should_observe_stage1()),
        b(o.should_observe_stage2()),
        b(o.is_timing_enabled()),
        some(&o.elapsed_time()),
        s1_text(s1_of(o)),
        s1_text(o.stage1_final().map(s1_rec)),
        s2_text(s2_of(o))
    )
}
fn text_hash(s: &str) -> u64 {
    s.bytes().fold(H0, |h, b| (h ^ b as u64).wrapping_mul(P))
}

/// An observer object of the bindings, in terms of the library's observer.
#[derive(Clone)]
struct PyObs {
    inner: Observer,
    rec: bool,
}
impl PyObs {
    fn new() -> PyObs {
        PyObs { inner: Observer::new(), rec: false }
    }
    fn call(&mut self, c: &str) {
        let o = self.inner.clone();
        self.inner = match c {
            "s1" => o.with_stage1_tracking(),
            "s2" => o.with_stage2_tracking(),
            "time" => o.with_timing(),
            "m1" => o.with_mode(ObserverMode::Stage1Only),
            "m2" => o.with_mode(ObserverMode::Stage2Only),
            "mb" => o.with_mode(ObserverMode::Both),
            "f1" => o.with_callback_frequency(1),
            "f2" => o.with_callback_frequency(2),
            "f3" => o.with_callback_frequency(3),
            "uniq" => o.unique_updates(),
            "rec" => {
                self.rec = true;
                return;
            }
            "dflt" => o.with_default_callback(),
            "cb1" => o.with_stage1_callback(),
            "cb2" => o.with_stage2_callback(),
            _ => panic!(),
        };
        if ["dflt", "cb1", "cb2"].contains(&c) {
            self.rec = false;
        }
    }
}
fn obs_op(id: &str, c: &str) -> String {
    let path = |m: &str| format!("{{\"ref\":\"gs\",\"path\":[\"observers\",\"PyObserverMode\",\"{m}\"]}}");
    let (m, a) = match c {
        "s1" => ("with_stage1_tracking", String::new()),
        "s2" => ("with_stage2_tracking", String::new()),
        "time" => ("with_timing", String::new()),
        "m1" => ("with_mode", path("Stage1Only")),
        "m2" => ("with_mode", path("Stage2Only")),
        "mb" => ("with_mode", path("Both")),
        "f1" => ("with_callback_frequency", "1".into()),
        "f2" => ("with_callback_frequency", "2".into()),
        "f3" => ("with_callback_frequency", "3".into()),
        "uniq" => ("unique_updates", String::new()),
        "rec" => ("with_callback", rf("cb")),
        "dflt" => ("with_default_callback", String::new()),
        "cb1" => ("with_stage1_callback", String::new()),
        "cb2" => ("with_stage2_callback", String::new()),
        _ => panic!(),
    };
    format!("[\"call\",{},\"{m}\",[{a}]]", q(id))
}

#[derive(Clone, Debug)]
struct Out {
    /// solutions, or E
    res: String,
    ordered: u64,
    total: u64,
    calls: usize,
    by_fn: [usize; 3],
    cons: usize,
    cb: (usize, u64),
}
impl Out {
    fn log(&self, unordered: bool) -> String {
        let h = if unordered { self.total } else { self.ordered };
        format!("{}:{:016x}:{}:{:016x}", self.calls, h, self.cb.0, self.cb.1)
    }
}

thread_local! {
    static POOL: rayon::ThreadPool = rayon::ThreadPoolBuilder::new().num_threads(THREADS).build().unwrap();
}

fn optimizer(r: &Run, pf: Pf, obs: Option<Observer>) -> Result<OQNLP<Pf>, String> {
    let t = LocalSolverType::from_string(r.solver.unwrap_or("cobyla"))?;
    let config = r.conf.clone().unwrap_or_else(|| match t {
        LocalSolverType::LBFGS => LBFGSBuilder::default().build(),
        LocalSolverType::NelderMead => NelderMeadBuilder::default().build(),
        LocalSolverType::SteepestDescent => SteepestDescentBuilder::default().build(),
        LocalSolverType::TrustRegion => TrustRegionBuilder::default().build(),
        LocalSolverType::NewtonCG => NewtonCGBuilder::default().build(),
        LocalSolverType::COBYLA => COBYLABuilder::default().build(),
    });
    // a configuration of another solver is refused
    let same = matches!(
        (&t, &config),
        (LocalSolverType::LBFGS, LocalSolverConfig::LBFGS { .. })
            | (LocalSolverType::NelderMead, LocalSolverConfig::NelderMead { .. })
            | (LocalSolverType::SteepestDescent, LocalSolverConfig::SteepestDescent { .. })
            | (LocalSolverType::TrustRegion, LocalSolverConfig::TrustRegion { .. })
            | (LocalSolverType::NewtonCG, LocalSolverConfig::NewtonCG { .. })
            | (LocalSolverType::COBYLA, LocalSolverConfig::COBYLA { .. })
    );
    if !same {
        return Err("configuration of another solver".into());
    }
    let p = OQNLPParams {
        iterations: r.par.iters,
        population_size: r.par.pop,
        wait_cycle: r.par.wait,
        threshold_factor: r.par.tf,
        distance_factor: r.par.df,
        local_solver_type: t,
        local_solver_config: config,
        seed: r.seed.unwrap_or(0),
    };
    let mut o = OQNLP::new(pf, p).map_err(|e| e.to_string())?;
    if let Some(p) = &r.points {
        let n = p.first().map_or(0, |r| r.len());
        if p.iter().any(|r| r.len() != n) {
            return Err("ragged".into());
        }
        o = o.with_points(arr2(p, n)).map_err(|e| e.to_string())?;
    }
    o = o.parallel(r.is_par()).with_tolerance(r.par.abs, r.par.rel);
    if let Some(t) = r.target {
        o = o.target_objective(t);
    }
    if let Some(t) = r.max_time {
        o = o.max_time(t);
    }
    if r.exclude == Some(true) {
        o = o.exclude_out_of_bounds();
    }
    if let Some(ob) = obs {
        o = o.add_observer(ob);
    }
    Ok(o)
}

/// What the library does, with an observer that is updated in place.
fn rust_run(r: &Run, obs: Option<&mut PyObs>, cb_faulty: bool) -> Out {
    let _ = cb_faulty;
    let pf = Pf::new(&r.prob);
    let calls = pf.calls.clone();
    CON_CALLS.set(0);
    CON_FIRST.set(r.prob.cons.first().copied().unwrap_or(99));
    CON_FAULT.set(match &r.prob.fault {
        Some(f) if f.what == "con" && f.how != "do" => Some(f.k),
        _ => None,
    });
    let cb = Arc::new(Mutex::new((0usize, H0)));
    let given = obs.as_ref().map(|o| {
        let mut ob = o.inner.clone();
        if o.rec {
            let cb = cb.clone();
            ob = ob.with_callback(move |ob: &mut Observer| {
                let s = format!("{}/{}", s1_text(s1_of(ob)), s2_text(s2_of(ob)));
                let mut c = cb.lock().unwrap();
                c.0 += 1;
                c.1 = c.1.wrapping_mul(P) ^ text_hash(&s);
            });
        }
        ob
    });
    let go = || -> Result<(Vec<(Pt, f64)>, Option<Observer>), String> {
        let mut o = optimizer(r, pf.clone(), given.clone())?;
        match run_built(&mut o) {
            End::Ok(s) => Ok((s, o.observer().cloned())),
            End::Err(e) => Err(e),
            End::Panic(e) => panic!("the Rust library: {e}"),
        }
    };
    // the pool of the extension module has THREADS threads
    let res = if r.is_par() { POOL.with(|p| catch_unwind(AssertUnwindSafe(|| p.install(go)))) } else { Ok(go()) };
    let res = res.unwrap_or_else(|e| Err(panic_text(e)));
    let h = *calls.hashes.lock().unwrap();
    let cb = *cb.lock().unwrap();
    let text = match res {
        Ok((s, o)) => {
            if let (Some(x), Some(o)) = (obs, o) {
                x.inner = o;
            }
            set_text(&s)
        }
        Err(_) => "E".into(),
    };
    let n = |i: usize| calls.n[i].load(Ordering::SeqCst);
    Out { res: text, ordered: h.0, total: h.1, calls: h.2, by_fn: [n(0), n(1), n(2)], cons: CON_CALLS.get(), cb }
}

static MEMO: LazyLock<Mutex<HashMap<String, Out>>> = LazyLock::new(|| Mutex::new(HashMap::new()));
fn rust_of(r: &Run) -> Out {
    let k = r.key();
    if let Some(o) = MEMO.lock().unwrap().get(&k) {
        return o.clone();
    }
    let o = rust_run(r, None, false);
    MEMO.lock().unwrap().insert(k, o.clone());
    o
}

/// One run, from scratch.
fn simple(r: &Run) -> Case {
    let mut c = Case::default();
    r.prob.define(&mut c, "p");
    r.par.define(&mut c, "q");
    let o = rust_of(r);
    c.op(r.op("p", "q", None, None), o.res.clone());
    let log = if r.is_par() && o.res == "E" { "*".into() } else { o.log(r.is_par()) };
    c.op(format!("[\"log\",{}]", r.is_par()), log);
    c
}

// ------------------------------------------------------------------ solver configurations
#[derive(Clone, Debug, PartialEq)]
enum V {
    U(u64),
    F(f64),
    O(Option<f64>),
    L(Vec<f64>),
    Lo(Option<Vec<f64>>),
    Steihaug(bool),
    Ls(Line),
}
#[derive(Clone, Debug, PartialEq)]
struct Line {
    hz: bool,
    f: Vec<V>,
    /// raw, params, static
    wrap: &'static str,
}
impl V {
    fn json(&self) -> String {
        match self {
            V::U(n) => n.to_string(),
            V::F(x) => num(*x),
            V::O(x) => x.map_or("null".into(), num),
            V::L(x) => nums(x),
            V::Lo(x) => x.as_ref().map_or("null".into(), |x| nums(x)),
            V::Steihaug(s) => format!(
                "{{\"ref\":\"gs\",\"path\":[\"builders\",\"PyTrustRegionRadiusMethod\",\"{}\"]}}",
                if *s { "Steihaug" } else { "Cauchy" }
            ),
            V::Ls(_) => rf("ls"),
        }
    }
    /// as the attribute reads
    fn shown(&self) -> String {
        let f = |x: &f64| format!("f{:016x}", x.to_bits());
        let l = |x: &Vec<f64>| format!("[{}]", x.iter().map(f).collect::<Vec<_>>().join(","));
        match self {
            V::U(n) => format!("i{n}"),
            V::F(x) => f(x),
            V::O(x) => x.as_ref().map_or("None".into(), f),
            V::L(x) => l(x),
            V::Lo(x) => x.as_ref().map_or("None".into(), l),
            V::Steihaug(_) => "<PyTrustRegionRadiusMethod>".into(),
            V::Ls(_) => "<PyLineSearchParams>".into(),
        }
    }
    fn u(&self) -> u64 {
        if let V::U(n) = self { *n } else { panic!() }
    }
    fn f(&self) -> f64 {
        if let V::F(n) = self { *n } else { panic!() }
    }
    fn o(&self) -> Option<f64> {
        if let V::O(n) = self { *n } else { panic!() }
    }
    fn line(&self) -> LineSearchParams {
        if let V::Ls(l) = self { l.rust() } else { panic!() }
    }
}
impl Line {
    fn default_mt() -> Line {
        Line { hz: false, f: MT.iter().map(|f| f.1()).collect(), wrap: "raw" }
    }
    fn rust(&self) -> LineSearchParams {
        let f = |i: usize| self.f[i].f();
        let b = |i: usize| if let V::L(b) = &self.f[i] { Array1::from(b.clone()) } else { panic!() };
        let method = if self.hz {
            LineSearchMethod::HagerZhang { delta: f(0), sigma: f(1), epsilon: f(2), theta: f(3), gamma: f(4), eta: f(5), bounds: b(6) }
        } else {
            LineSearchMethod::MoreThuente { c1: f(0), c2: f(1), width_tolerance: f(2), bounds: b(3) }
        };
        LineSearchParams { method }
    }
    fn names(&self) -> Vec<&'static str> {
        if self.hz { HZ.iter().map(|f| f.0).collect() } else { MT.iter().map(|f| f.0).collect() }
    }
    /// Make the line search `ls0`, wrapped as `ls`.
    fn define(&self, c: &mut Case, way: Way) {
        let (cls, func) = if self.hz { ("PyHagerZhang", "hagerzhang") } else { ("PyMoreThuente", "morethuente") };
        let defaults: Vec<V> = if self.hz { HZ.iter().map(|f| f.1()).collect() } else { MT.iter().map(|f| f.1()).collect() };
        make(c, "ls0", cls, func, &self.names(), &defaults, &self.f, way);
        for (n, v) in self.names().iter().zip(&self.f) {
            c.op(format!("[\"get\",\"ls0\",\"{n}\"]"), v.shown());
        }
        self.wrap(c);
    }
    fn wrap(&self, c: &mut Case) {
        match self.wrap {
            "params" => c.ok(format!("[\"new\",\"ls\",\"builders.PyLineSearchParams\",[{}],{{}}]", rf("ls0"))),
            "static" => c.ok(format!(
                "[\"new\",\"ls\",\"builders.PyLineSearchParams.{}\",[{}],{{}}]",
                if self.hz { "hagerzhang" } else { "morethuente" },
                rf("ls0")
            )),
            _ => {
                // the object itself, under the name `ls`
                let last = c.ops.iter().rposition(|o| o.starts_with("[\"new\",\"ls0\"")).unwrap();
                let again: Vec<(String, String)> = c.ops[last..]
                    .iter()
                    .zip(&c.expect[last..])
                    .filter(|(o, _)| !o.starts_with("[\"get\""))
                    .map(|(o, e)| (o.replace("\"ls0\"", "\"ls\""), e.clone()))
                    .collect();
                for (o, e) in again {
                    c.op(o, e);
                }
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    /// constructor, keyword arguments for what differs from the defaults
    New,
    /// constructor, all arguments by position
    NewPos,
    /// builder function, keyword arguments
    Func,
    FuncPos,
    /// default object, attributes set afterwards
    Set,
}
const WAYS: [Way; 5] = [Way::New, Way::NewPos, Way::Func, Way::FuncPos, Way::Set];

/// Operations that make an object with the given fields.
#[allow(clippy::too_many_arguments)]
fn make(c: &mut Case, id: &str, cls: &str, func: &str, names: &[&str], defaults: &[V], vals: &[V], way: Way) {
    let differ: Vec<usize> = (0..vals.len()).filter(|&i| vals[i] != defaults[i]).collect();
    let kw: Vec<(&str, String)> = differ.iter().map(|&i| (names[i], vals[i].json())).collect();
    let new = |f: &str, pos: String, kw: &[(&str, String)]| format!("[\"new\",\"{id}\",\"builders.{f}\",[{pos}],{}]", kwargs(kw));
    let mut order: Vec<usize> = (0..vals.len()).collect();
    if way == Way::FuncPos && func == "lbfgs" {
        order.swap(4, 5); // the builder function has the line search before the l1 coefficient
    }
    let pos = order.iter().map(|&i| vals[i].json()).collect::<Vec<_>>().join(",");
    match way {
        Way::New => c.ok(new(cls, String::new(), &kw)),
        Way::Func => c.ok(new(func, String::new(), &kw)),
        Way::NewPos => c.ok(new(cls, pos, &[])),
        Way::FuncPos => c.ok(new(func, pos, &[])),
        Way::Set => {
            c.ok(new(cls, String::new(), &[]));
            for (n, v) in kw {
                c.ok(format!("[\"set\",\"{id}\",\"{n}\",{v}]"));
            }
        }
    }
}

type Field = (&'static str, fn() -> V, fn() -> Vec<V>);
fn step_bounds() -> V {
    V::L(vec![f64::EPSILON.sqrt(), f64::INFINITY])
}
const MT: [Field; 4] = [
    ("c1", || V::F(1e-4), || vec![V::F(0.3), V::F(1e-2), V::F(-1.0)]),
    ("c2", || V::F(0.9), || vec![V::F(0.4), V::F(0.7), V::F(2.0)]),
    ("width_tolerance", || V::F(1e-10), || vec![V::F(0.5), V::F(1e-3)]),
    ("bounds", step_bounds, || vec![V::L(vec![0.01, 0.1]), V::L(vec![0.0, 5.0]), V::L(vec![1.0]), V::L(vec![2.0, 1.0])]),
];
const HZ: [Field; 7] = [
    ("delta", || V::F(0.1), || vec![V::F(0.3), V::F(0.01)]),
    ("sigma", || V::F(0.9), || vec![V::F(0.4), V::F(0.99)]),
    ("epsilon", || V::F(1e-6), || vec![V::F(1e-2)]),
    ("theta", || V::F(0.5), || vec![V::F(0.2), V::F(0.9)]),
    ("gamma", || V::F(0.66), || vec![V::F(0.3), V::F(0.9)]),
    ("eta", || V::F(0.01), || vec![V::F(0.3)]),
    ("bounds", step_bounds, || vec![V::L(vec![0.01, 0.1]), V::L(vec![0.0, 5.0]), V::L(vec![])]),
];
fn line_values() -> Vec<V> {
    let mut v = vec![];
    for wrap in ["raw", "params", "static"] {
        let mut mt = Line::default_mt();
        mt.f[3] = V::L(vec![0.01, 0.1]);
        mt.wrap = wrap;
        let mut hz = Line { hz: true, f: HZ.iter().map(|f| f.1()).collect(), wrap };
        v.push(V::Ls(hz.clone()));
        hz.f[6] = V::L(vec![0.01, 0.1]);
        v.push(V::Ls(mt));
        v.push(V::Ls(hz));
    }
    v
}
struct Tab {
    solver: &'static str,
    cls: &'static str,
    func: &'static str,
    alias: &'static [&'static str],
    fields: Vec<Field>,
}
fn tabs() -> Vec<Tab> {
    let iters: Field = ("max_iter", || V::U(300), || vec![V::U(0), V::U(1), V::U(2), V::U(5)]);
    let ls: Field = ("line_search_params", || V::Ls(Line::default_mt()), line_values);
    vec![
        Tab {
            solver: "LBFGS",
            cls: "PyLBFGS",
            func: "lbfgs",
            alias: &["LBFGS"],
            fields: vec![
                iters,
                ("tolerance_grad", || V::F(f64::EPSILON.sqrt()), || vec![V::F(1e-1), V::F(1e-3)]),
                ("tolerance_cost", || V::F(f64::EPSILON), || vec![V::F(1e-1), V::F(1e-3)]),
                ("history_size", || V::U(10), || vec![V::U(1), V::U(2), V::U(0)]),
                ("l1_coefficient", || V::O(None), || vec![V::O(Some(0.1)), V::O(Some(1e-3))]),
                ls,
            ],
        },
        Tab {
            solver: "NelderMead",
            cls: "PyNelderMead",
            func: "neldermead",
            alias: &["nelder_mead", "NelderMead"],
            fields: vec![
                ("simplex_delta", || V::F(0.1), || vec![V::F(0.5), V::F(0.01)]),
                ("sd_tolerance", || V::F(f64::EPSILON), || vec![V::F(1e-1), V::F(1e-3)]),
                iters,
                ("alpha", || V::F(1.0), || vec![V::F(0.7), V::F(1.4), V::F(-1.0)]),
                ("gamma", || V::F(2.0), || vec![V::F(1.5), V::F(3.0)]),
                ("rho", || V::F(0.5), || vec![V::F(0.3), V::F(0.4)]),
                ("sigma", || V::F(0.5), || vec![V::F(0.3), V::F(0.9)]),
            ],
        },
        Tab { solver: "SteepestDescent", cls: "PySteepestDescent", func: "steepestdescent", alias: &["SteepestDescent"], fields: vec![iters, ls] },
        Tab {
            solver: "NewtonCG",
            cls: "PyNewtonCG",
            func: "newtoncg",
            alias: &["newton_cg", "NewtonCG"],
            fields: vec![
                iters,
                ("curvature_threshold", || V::F(0.0), || vec![V::F(1.0), V::F(5.0)]),
                ("tolerance", || V::F(f64::EPSILON), || vec![V::F(1e-1), V::F(1e-3)]),
                ls,
            ],
        },
        Tab {
            solver: "TrustRegion",
            cls: "PyTrustRegion",
            func: "trustregion",
            alias: &["TrustRegion"],
            fields: vec![
                ("trust_region_radius_method", || V::Steihaug(false), || vec![V::Steihaug(true)]),
                ("max_iter", || V::U(300), || vec![V::U(0), V::U(1), V::U(5)]),
                ("radius", || V::F(1.0), || vec![V::F(0.1), V::F(3.0), V::F(-1.0)]),
                ("max_radius", || V::F(100.0), || vec![V::F(1.0), V::F(2.0)]),
                ("eta", || V::F(0.125), || vec![V::F(0.0), V::F(0.2), V::F(0.3)]),
            ],
        },
        Tab {
            solver: "COBYLA",
            cls: "PyCOBYLA",
            func: "cobyla",
            alias: &["COBYLA"],
            fields: vec![
                ("max_iter", || V::U(300), || vec![V::U(1), V::U(5), V::U(20)]),
                ("step_size", || V::F(1.0), || vec![V::F(0.1), V::F(0.5)]),
                ("ftol_rel", || V::O(None), || vec![V::O(Some(1e-2)), V::O(Some(1e-4))]),
                ("ftol_abs", || V::O(None), || vec![V::O(Some(1e-2)), V::O(Some(1e-4))]),
                ("xtol_rel", || V::O(None), || vec![V::O(Some(1e-1)), V::O(Some(1e-3))]),
                ("xtol_abs", || V::Lo(None), || vec![V::Lo(Some(vec![1e-1, 1e-2])), V::Lo(Some(vec![1e-3])), V::Lo(Some(vec![]))]),
            ],
        },
    ]
}
impl Tab {
    fn names(&self) -> Vec<&'static str> {
        self.fields.iter().map(|f| f.0).collect()
    }
    fn defaults(&self) -> Vec<V> {
        self.fields.iter().map(|f| f.1()).collect()
    }
    fn rust(&self, v: &[V]) -> LocalSolverConfig {
        match self.solver {
            "LBFGS" => LocalSolverConfig::LBFGS {
                max_iter: v[0].u(),
                tolerance_grad: v[1].f(),
                tolerance_cost: v[2].f(),
                history_size: v[3].u() as usize,
                l1_coefficient: v[4].o(),
                line_search_params: v[5].line(),
            },
            "NelderMead" => LocalSolverConfig::NelderMead {
                simplex_delta: v[0].f(),
                sd_tolerance: v[1].f(),
                max_iter: v[2].u(),
                alpha: v[3].f(),
                gamma: v[4].f(),
                rho: v[5].f(),
                sigma: v[6].f(),
            },
            "SteepestDescent" => LocalSolverConfig::SteepestDescent { max_iter: v[0].u(), line_search_params: v[1].line() },
            "NewtonCG" => LocalSolverConfig::NewtonCG {
                max_iter: v[0].u(),
                curvature_threshold: v[1].f(),
                tolerance: v[2].f(),
                line_search_params: v[3].line(),
            },
            "TrustRegion" => LocalSolverConfig::TrustRegion {
                trust_region_radius_method: if v[0] == V::Steihaug(true) { TrustRegionRadiusMethod::Steihaug } else { TrustRegionRadiusMethod::Cauchy },
                max_iter: v[1].u(),
                radius: v[2].f(),
                max_radius: v[3].f(),
                eta: v[4].f(),
            },
            _ => LocalSolverConfig::COBYLA {
                max_iter: v[0].u(),
                initial_step_size: v[1].f(),
                ftol_rel: v[2].o().unwrap_or(1e-6),
                ftol_abs: v[3].o().unwrap_or(1e-8),
                xtol_rel: v[4].o().unwrap_or(0.0),
                xtol_abs: if let V::Lo(x) = &v[5] { x.clone().unwrap_or_default() } else { panic!() },
            },
        }
    }
}

/// A configuration made in one way, its attributes read, and used.
fn config_case(t: &Tab, vals: &[V], way: Way, cls: &str, probs: &[Prob]) -> Case {
    let mut c = Case::default();
    let defaults = t.defaults();
    let pos = matches!(way, Way::NewPos | Way::FuncPos);
    for (v, d) in vals.iter().zip(&defaults) {
        if let V::Ls(l) = v
            && (v != d || pos)
        {
            let mut l = l.clone();
            // classes take wrapped line searches; builder functions take all of them
            if !matches!(way, Way::Func | Way::FuncPos) && l.wrap == "raw" {
                l.wrap = "params";
            }
            l.define(&mut c, Way::Func);
        }
    }
    make(&mut c, "c", cls, t.func, &t.names(), &defaults, vals, way);
    for (n, v) in t.names().iter().zip(vals) {
        c.op(format!("[\"get\",\"c\",\"{n}\"]"), v.shown());
    }
    use_config(&mut c, t, vals, probs);
    c
}
fn use_config(c: &mut Case, t: &Tab, vals: &[V], probs: &[Prob]) {
    PAR.define(c, "q");
    for p in probs {
        p.define(c, "p");
        let mut r = Run::new(p.clone()).solver(t.solver);
        r.conf = Some(t.rust(vals));
        let o = rust_of(&r);
        c.op(r.op("p", "q", Some("c"), None), o.res.clone());
        c.op("[\"log\",false]".into(), o.log(false));
    }
}

#[derive(Clone, Debug)]
enum ConfItem {
    Plain { tab: usize, vals: Vec<V>, way: Way, cls: &'static str, probs: usize },
    /// a line search made in one way, in an otherwise default configuration
    Line { tab: usize, line: Line, lway: Way },
}
fn conf_case(i: &ConfItem) -> Case {
    let probs = [Prob::new(Kind::Rosen, BOX2), Prob::new(Kind::Tilted, BOX1)];
    match i {
        ConfItem::Plain { tab, vals, way, cls, probs: n } => config_case(&tabs()[*tab], vals, *way, cls, &probs[..*n]),
        ConfItem::Line { tab, line, lway } => {
            let t = &tabs()[*tab];
            let d = t.defaults();
            let k = t.names().iter().position(|n| *n == "line_search_params").unwrap();
            let mut c = Case::default();
            line.define(&mut c, *lway);
            let mut w = d.clone();
            w[k] = V::Ls(line.clone());
            let way = if line.wrap == "raw" { Way::Func } else { Way::New };
            make(&mut c, "c", t.cls, t.func, &t.names(), &d, &w, way);
            use_config(&mut c, t, &w, &probs[..1]);
            c
        }
    }
}
fn config_items(thorough: bool) -> Vec<ConfItem> {
    let mut v = vec![];
    for (tab, t) in tabs().into_iter().enumerate() {
        let d = t.defaults();
        let plain = |vals: &Vec<V>, way, cls, probs| ConfItem::Plain { tab, vals: vals.clone(), way, cls, probs };
        for way in WAYS {
            v.push(plain(&d, way, t.cls, 2));
        }
        for a in t.alias {
            v.push(plain(&d, Way::New, a, 2));
        }
        let n = d.len();
        for i in 0..n {
            for x in (t.fields[i].2)() {
                let mut w = d.clone();
                w[i] = x;
                for way in WAYS {
                    v.push(plain(&w, way, t.cls, 2));
                }
                for j in i + 1..n {
                    for y in (t.fields[j].2)() {
                        let mut w = w.clone();
                        w[j] = y;
                        for way in if thorough { &WAYS[..] } else { &[Way::New, Way::FuncPos, Way::Set][..] } {
                            v.push(plain(&w, *way, t.cls, 1));
                        }
                    }
                }
            }
        }
        // every field of a line search, through every solver that has one
        if t.names().contains(&"line_search_params") {
            for (hz, fields) in [(false, &MT[..]), (true, &HZ[..])] {
                let base: Vec<V> = fields.iter().map(|f| f.1()).collect();
                let mut all = vec![base.clone()];
                for i in 0..fields.len() {
                    for x in (fields[i].2)() {
                        let mut w = base.clone();
                        w[i] = x;
                        all.push(w.clone());
                        for j in i + 1..fields.len() {
                            for y in (fields[j].2)() {
                                let mut w = w.clone();
                                w[j] = y;
                                all.push(w);
                            }
                        }
                    }
                }
                for f in all {
                    for lway in WAYS {
                        for wrap in ["raw", "params", "static"] {
                            let line = Line { hz, f: f.clone(), wrap };
                            if line != Line::default_mt() {
                                v.push(ConfItem::Line { tab, line, lway });
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ options of a run
fn with_conf(r: &mut Run, c: &mut Case) {
    // a cheap configuration for the solver of the run, so that its iterations matter
    let Some(s) = r.solver else { return };
    let Some(t) = tabs().into_iter().find(|t| t.solver.eq_ignore_ascii_case(s)) else { return };
    let mut v = t.defaults();
    let i = t.names().iter().position(|n| *n == "max_iter").unwrap();
    v[i] = V::U(4);
    make(c, "c", t.cls, t.func, &t.names(), &t.defaults(), &v, Way::Func);
    r.conf = Some(t.rust(&v));
}

type Opt = (&'static str, Vec<Box<dyn Fn(&mut Run) + Sync>>);
macro_rules! opts {
    ($($v:expr),*; $f:ident) => { vec![$({ let v = $v; Box::new(move |r: &mut Run| r.$f = v.clone()) as Box<dyn Fn(&mut Run) + Sync> }),*] };
}
macro_rules! pars {
    ($($v:expr),*; $f:ident) => { vec![$({ let v = $v; Box::new(move |r: &mut Run| r.par.$f = v) as Box<dyn Fn(&mut Run) + Sync> }),*] };
}
fn options() -> Vec<Opt> {
    let p = |v: &[&[f64]]| Some(v.iter().map(|x| x.to_vec()).collect::<Vec<Pt>>());
    vec![
        ("seed", opts![Some(0u64), Some(1), Some(77), Some(u64::MAX); seed]),
        ("target", opts![Some(-1e9), Some(0.05), Some(1e9), Some(f64::NAN), Some(f64::INFINITY); target]),
        ("max_time", opts![Some(0.0), Some(-1.0), Some(1e6), Some(1e-30); max_time]),
        ("exclude", opts![Some(true), Some(false); exclude]),
        ("parallel", opts![Some(true), Some(false); parallel]),
        (
            "points",
            opts![
                p(&[&[0.5, 0.5]]),
                p(&[&[1.0, 1.0], &[-1.0, 1.0], &[-1.0, -1.0]]),
                p(&[&[9.0, 9.0]]),
                p(&[&[0.1, 0.2], &[0.3]]),
                p(&[&[0.1, 0.2, 0.3]]),
                p(&[&[0.1, f64::NAN]]),
                p(&[&[0.1, 0.1], &[0.2, 0.2], &[0.3, 0.3], &[0.4, 0.4], &[0.5, 0.5], &[0.6, 0.6], &[0.7, 0.7]]),
                p(&[]); points],
        ),
        ("iterations", pars![1, 3, 7, 20, 0; iters]),
        ("population", pars![5, 6, 12, 4, 0; pop]),
        ("wait", pars![1, 3, 50, 0; wait]),
        ("threshold_factor", pars![0.0, 1.0, 3.0, -1.0, f64::NAN; tf]),
        ("distance_factor", pars![0.0, 0.1, 2.0, -1.0, f64::INFINITY; df]),
        ("abs_tol", pars![0.0, 1e-3, 0.5, -1.0; abs]),
        ("rel_tol", pars![0.0, 1e-2, 0.9, f64::NAN; rel]),
    ]
}
fn option_bases() -> Vec<Run> {
    vec![
        Run::new(Prob::new(Kind::Wells, BOX2)).solver("NelderMead"),
        Run::new(Prob::new(Kind::Tilted, BOX2)).solver("TrustRegion"),
        Run::new(Prob::new(Kind::Slope, BOX2).cons(&[1])).solver("COBYLA"),
        Run::new(Prob::new(Kind::High, BOX2)).solver("NelderMead"),
        Run::new(Prob::new(Kind::Rosen, BOX2)).solver("LBFGS"),
    ]
}
fn option_case(r: &Run) -> Case {
    let mut r = r.clone();
    let mut c = Case::default();
    with_conf(&mut r, &mut c);
    let conf = r.conf.as_ref().map(|_| "c");
    r.prob.define(&mut c, "p");
    r.par.define(&mut c, "q");
    let o = rust_of(&r);
    c.op(r.op("p", "q", conf, None), o.res.clone());
    let log = if r.is_par() && o.res == "E" { "*".into() } else { o.log(r.is_par()) };
    c.op(format!("[\"log\",{}]", r.is_par()), log);
    c
}
fn option_cases(thorough: bool) -> Vec<Run> {
    let os = options();
    let mut v = vec![];
    for b in option_bases() {
        v.push(b.clone());
        for i in 0..os.len() {
            for f in &os[i].1 {
                let mut r = b.clone();
                f(&mut r);
                v.push(r.clone());
                for o in &os[i + 1..] {
                    for g in &o.1 {
                        let mut s = r.clone();
                        g(&mut s);
                        v.push(s.clone());
                        if thorough {
                            let mut t = s.clone();
                            t.parallel = Some(true);
                            t.seed = Some(3);
                            v.push(t);
                        }
                    }
                }
            }
        }
    }
    v
}

/// Solver names, configurations of other solvers, argument positions, wrong arguments.
fn argument_cases() -> Vec<Case> {
    let mut v = vec![];
    let names = [
        "LBFGS", "lbfgs", "Lbfgs", "NelderMead", "nelder-mead", "neldermead", "Nelder-Mead", "SteepestDescent", "steepestdescent",
        "steepest-descent", "TrustRegion", "trustregion", "trust-region", "NewtonCG", "newtoncg", "newton-cg", "Newton-CG", "COBYLA",
        "cobyla", "Cobyla", "", " cobyla", "bfgs", "nelder mead",
    ];
    for s in names {
        for p in [Prob::new(Kind::Tilted, BOX2), Prob::new(Kind::Sphere, BOX1)] {
            for (g, h) in [(true, true), (true, false), (false, true), (false, false)] {
                for par in [None, Some(true)] {
                    let mut r = Run::new(Prob { grad: g, hess: h, ..p.clone() }).solver(s);
                    r.parallel = par;
                    v.push(simple(&r));
                }
            }
        }
    }
    // no solver named
    for k in [Kind::Sphere, Kind::Wells, Kind::Slope, Kind::Flat, Kind::Patchy, Kind::Holes, Kind::Rosen, Kind::Tilted] {
        for b in [BOX1, BOX2, BOX3] {
            for par in [None, Some(true)] {
                for conv in ["", "tuple", "numpy"] {
                    for s in [None, Some("cobyla"), Some("neldermead"), Some("trustregion"), Some("newtoncg")] {
                        if [Kind::Slope, Kind::Patchy, Kind::Holes].contains(&k) && ["trustregion", "newtoncg"].contains(&s.unwrap_or("")) {
                            continue;
                        }
                        let mut p = Prob::new(k, b);
                        p.conv = conv;
                        let mut r = Run::new(p);
                        r.solver = s;
                        r.parallel = par;
                        v.push(simple(&r));
                    }
                }
            }
        }
    }
    // every configuration with every solver
    for t in tabs() {
        for u in tabs() {
            let mut c = Case::default();
            let d = t.defaults();
            make(&mut c, "c", t.cls, t.func, &t.names(), &d, &d, Way::New);
            let p = Prob::new(Kind::Sphere, BOX2);
            p.define(&mut c, "p");
            PAR.define(&mut c, "q");
            let mut r = Run::new(p).solver(u.solver);
            r.conf = Some(t.rust(&d));
            c.op(r.op("p", "q", Some("c"), None), rust_of(&r).res);
            v.push(c);
        }
        for junk in ["3", "\"x\"", "[]", "{\"ref\":\"q\"}", "{\"ref\":\"p\"}"] {
            let mut c = Case::default();
            let r = Run::new(Prob::new(Kind::Sphere, BOX2)).solver(t.solver);
            r.prob.define(&mut c, "p");
            PAR.define(&mut c, "q");
            let mut kv = r.kw(None, None);
            kv.push(("local_solver_config", junk.into()));
            c.op(format!("[\"run\",[{},{}],{}]", rf("p"), rf("q"), kwargs(&kv)), "E");
            v.push(c);
        }
        // a configuration without naming the solver belongs to the default solver
        let mut c = Case::default();
        let d = t.defaults();
        make(&mut c, "c", t.cls, t.func, &t.names(), &d, &d, Way::New);
        let mut r = Run::new(Prob::new(Kind::Sphere, BOX2));
        r.conf = Some(t.rust(&d));
        r.prob.define(&mut c, "p");
        PAR.define(&mut c, "q");
        c.op(r.op("p", "q", Some("c"), None), rust_of(&r).res);
        v.push(c);
    }
    // arguments by position, as documented
    for par in ["false", "true"] {
        let mut c = Case::default();
        let mut r = Run::new(Prob::new(Kind::Tilted, BOX2)).solver("TrustRegion");
        with_conf(&mut r, &mut c);
        r.prob.define(&mut c, "p");
        r.par.define(&mut c, "q");
        r.seed = Some(5);
        r.target = Some(-0.9);
        r.max_time = Some(1e6);
        r.exclude = Some(true);
        r.parallel = Some(par == "true");
        r.points = Some(vec![vec![0.5, -0.5]]);
        c.ok("[\"new\",\"o\",\"observers.PyObserver\",[],{}]".into());
        c.op(obs_op("o", "s1"), "None");
        c.op(obs_op("o", "s2"), "None");
        let mut o = PyObs::new();
        o.call("s1");
        o.call("s2");
        let out = rust_run(&r, Some(&mut o), false);
        c.op(
            format!(
                "[\"run\",[{},{},{},\"TrustRegion\",{},5,-0.9,1e6,false,true,{par},[[0.5,-0.5]]],{{}}]",
                rf("p"),
                rf("q"),
                rf("o"),
                rf("c")
            ),
            out.res.clone(),
        );
        c.op(format!("[\"log\",{par}]"), out.log(par == "true"));
        c.op("[\"show\",\"o\"]".into(), obs_text(&o.inner));
        v.push(c);
    }
    // wrong arguments are exceptions, and do no harm to later runs
    let bad_kw = [
        ("seed", "-1"), ("seed", "1.5"), ("seed", "18446744073709551616"), ("seed", "\"a\""), ("target_objective", "\"a\""),
        ("max_time", "[]"), ("parallel", "2"), ("exclude_out_of_bounds", "\"yes\""), ("with_points", "3"), ("with_points", "[1.0,2.0]"),
        ("with_points", "[[\"a\",\"b\"]]"), ("with_points", "[[[1.0]]]"), ("local_solver", "3"), ("observer", "3"), ("observer", "{\"ref\":\"q\"}"),
        ("no_such_option", "1"),
    ];
    let good = Run::new(Prob::new(Kind::Wells, BOX2).cons(&[0]));
    for (k, x) in bad_kw {
        let mut c = simple(&good);
        c.op(format!("[\"run\",[{},{}],{{\"{k}\":{x}}}]", rf("p"), rf("q")), "E");
        c.op("[\"log\",false]".into(), format!("0:{H0:016x}:0:{H0:016x}"));
        let o = rust_of(&good);
        c.op(good.op("p", "q", None, None), o.res.clone());
        v.push(c);
    }
    for args in ["[]".to_string(), format!("[{}]", rf("p")), format!("[{},{}]", rf("q"), rf("p")), "[1,2]".into()] {
        let mut c = simple(&good);
        c.op(format!("[\"run\",{args},{{}}]"), "E");
        c.op(good.op("p", "q", None, None), rust_of(&good).res);
        v.push(c);
    }
    for f in ["iterations", "population_size", "wait_cycle"] {
        for x in ["-1", "1.5", "\"a\"", "null", "18446744073709551616"] {
            let mut c = simple(&good);
            c.op(format!("[\"new\",\"z\",\"PyOQNLPParams\",[],{{\"{f}\":{x}}}]"), "E");
            c.op(format!("[\"set\",\"q\",\"{f}\",{x}]"), "E");
            c.op(good.op("p", "q", None, None), rust_of(&good).res);
            v.push(c);
        }
    }
    // params: by keyword, by position, by attribute
    let full = Par { iters: 6, pop: 7, wait: 3, tf: 0.3, df: 0.5, abs: 1e-3, rel: 1e-2 };
    let vals = ["6", "7", "3", "0.3", "0.5", "1e-3", "1e-2"];
    let names = ["iterations", "population_size", "wait_cycle", "threshold_factor", "distance_factor", "abs_tol", "rel_tol"];
    let dflt = ["i300", "i1000", "i15", "", "", "", ""];
    let dflt_f = [0.0f64, 0.0, 0.0, 0.2, 0.75, 1e-8, 1e-6];
    for way in 0..3 {
        let mut c = Case::default();
        let mut r = Run::new(Prob::new(Kind::Tilted, BOX2)).solver("NelderMead");
        r.par = full.clone();
        r.prob.define(&mut c, "p");
        match way {
            0 => full.define(&mut c, "q"),
            1 => c.ok(format!("[\"new\",\"q\",\"PyOQNLPParams\",[{}],{{}}]", vals.join(","))),
            _ => {
                c.ok("[\"new\",\"q\",\"PyOQNLPParams\",[],{}]".into());
                for i in 0..7 {
                    let e = if i < 3 { dflt[i].to_string() } else { format!("f{:016x}", dflt_f[i].to_bits()) };
                    c.op(format!("[\"get\",\"q\",\"{}\"]", names[i]), e);
                }
                for i in 0..7 {
                    c.ok(format!("[\"set\",\"q\",\"{}\",{}]", names[i], vals[i]));
                }
            }
        }
        for i in 0..7 {
            let e = if i < 3 { format!("i{}", vals[i]) } else { format!("f{:016x}", vals[i].parse::<f64>().unwrap().to_bits()) };
            c.op(format!("[\"get\",\"q\",\"{}\"]", names[i]), e);
        }
        let o = rust_of(&r);
        c.op(r.op("p", "q", None, None), o.res.clone());
        c.op("[\"log\",false]".into(), o.log(false));
        v.push(c);
    }
    v
}

// ------------------------------------------------------------------ constraints
fn constraint_cases() -> Vec<Case> {
    let mut v = vec![];
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..7 {
        sets.push(vec![a]);
        for b in 0..7 {
            sets.push(vec![a, b]);
            if a < b {
                for c in b + 1..7 {
                    sets.push(vec![a, b, c]);
                }
            }
        }
    }
    for s in &sets {
        for cons_as in ["list", "tuple", "single"] {
            if cons_as == "single" && s.len() != 1 {
                continue;
            }
            for solver in ["COBYLA", "NelderMead"] {
                for par in [None, Some(true)] {
                    for k in [Kind::Wells, Kind::Sphere] {
                        let mut p = Prob::new(k, BOX2).cons(s);
                        p.cons_as = cons_as;
                        let mut r = Run::new(p).solver(solver);
                        r.parallel = par;
                        v.push(simple(&r));
                    }
                }
            }
        }
    }
    // very many constraints: 1000 are promised, and are given back however a run ends
    let base = Run::new(Prob::new(Kind::Sphere, BOX2).cons(&[3])).solver("NelderMead");
    for (n, ok) in [(1, true), (999, true), (1000, true), (1001, false), (1500, false)] {
        for rounds in 1..4 {
            for fails in [false, true] {
                let mut c = Case::default();
                base.prob.define(&mut c, "p");
                PAR.define(&mut c, "q");
                for _ in 0..rounds {
                    c.ok(format!("[\"set\",\"p\",\"constraints\",{{\"many\":{},\"n\":{n}}}]", rf("p.con0")));
                    if fails {
                        // ends in an error after the constraints were taken
                        c.op(format!("[\"run\",[{},{}],{{\"local_solver\":\"NelderMead\",\"with_points\":[[1.0]]}}]", rf("p"), rf("q")), "E");
                    }
                    c.op(base.op("p", "q", None, None), if ok { rust_of(&base).res } else { "E".into() });
                }
                let one = Run::new(base.prob.clone().cons(&[3]));
                c.ok(format!("[\"set\",\"p\",\"constraints\",[{}]]", rf("p.con0")));
                c.op(one.op("p", "q", None, None), rust_of(&one).res);
                v.push(c);
            }
        }
    }
    v
}

// ------------------------------------------------------------------ observers
const OBS_CALLS: [&str; 14] = ["s1", "s2", "time", "m1", "m2", "mb", "f1", "f2", "f3", "rec", "dflt", "cb1", "cb2", "uniq"];
fn sequences<T: Clone>(menu: &[T], max: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for m in menu {
                let mut t: Vec<T> = s.clone();
                t.push(m.clone());
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn observer_case(before: &[&str], between: &[&str], par: bool) -> Case {
    let mut c = Case::default();
    let mut r = Run::new(Prob::new(Kind::Wells, BOX2)).solver("NelderMead");
    if par {
        r = r.par();
    }
    with_conf(&mut r, &mut c);
    let mut r2 = r.clone();
    r2.prob = Prob::new(Kind::Tilted, BOX2);
    r.prob.define(&mut c, "p");
    r2.prob.define(&mut c, "p2");
    PAR.define(&mut c, "q");
    c.ok("[\"fn\",\"cb\",{\"what\":\"cb\"}]".into());
    c.ok("[\"new\",\"o\",\"observers.PyObserver\",[],{}]".into());
    let mut o = PyObs::new();
    for (calls, run, p) in [(before, &r, "p"), (between, &r2, "p2")] {
        for b in calls {
            o.call(b);
            c.op(obs_op("o", b), "None");
        }
        c.op("[\"show\",\"o\"]".into(), obs_text(&o.inner));
        let out = rust_run(run, Some(&mut o), false);
        c.op(run.op(p, "q", Some("c"), Some("o")), out.res.clone());
        c.op("[\"show\",\"o\"]".into(), obs_text(&o.inner));
        c.op(format!("[\"log\",{par}]"), out.log(par));
    }
    c
}
fn observer_items(thorough: bool) -> Vec<(Vec<&'static str>, Vec<&'static str>, bool)> {
    let mut v = vec![];
    for s in sequences(&OBS_CALLS, if thorough { 4 } else { 3 }) {
        v.push((s, vec![], false));
    }
    for s in sequences(&OBS_CALLS, 2) {
        v.push((s.clone(), vec![], true));
        let mut t = vec!["s1", "s2", "rec"];
        t.extend(s.iter());
        v.push((t.clone(), vec![], false));
        for u in sequences(&OBS_CALLS, if thorough { 2 } else { 1 }) {
            v.push((t.clone(), u, false));
        }
    }
    v
}

// ------------------------------------------------------------------ faults
fn fault_bases() -> Vec<Run> {
    let mut v = vec![
        Run::new(Prob::new(Kind::Wells, BOX2)).solver("NelderMead"),
        Run::new(Prob::new(Kind::Tilted, BOX2)).solver("TrustRegion"),
        Run::new(Prob::new(Kind::Rosen, BOX2)).solver("NewtonCG"),
        Run::new(Prob::new(Kind::Tilted, BOX2)).solver("SteepestDescent"),
        Run::new(Prob::new(Kind::Sphere, BOX2)).solver("LBFGS"),
        Run::new(Prob::new(Kind::Wells, BOX2).cons(&[0, 3])).solver("COBYLA"),
    ];
    for r in &mut v {
        let mut c = Case::default();
        with_conf(r, &mut c);
        if r.solver == Some("COBYLA") || r.solver == Some("NelderMead") {
            r.par.iters = 4;
            r.par.pop = 4;
        }
    }
    v
}
const HOWS: [(&str, &[&str]); 5] = [
    ("obj", &["raise", "none", "text", "empty"]),
    ("grad", &["raise", "none", "text", "long", "short", "wrap", "words", "number"]),
    ("hess", &["raise", "none", "text", "long", "short", "thin", "ragged", "empty", "words", "number", "wrap"]),
    ("con", &["raise", "none", "text", "empty"]),
    ("bounds", &["raise", "none", "text", "empty", "words", "number", "thin", "wrap"]),
];
fn conf_ops(r: &Run, c: &mut Case) {
    let mut s = r.clone();
    with_conf(&mut s, c);
}
fn fault_items(thorough: bool) -> Vec<(Run, &'static str, &'static str, usize)> {
    let mut v = vec![];
    for r in fault_bases() {
        let o = rust_run(&r, None, false);
        for (what, hows) in HOWS {
            let n = match what {
                "obj" => o.by_fn[0],
                "grad" => o.by_fn[1],
                "hess" => o.by_fn[2],
                "con" => o.cons,
                _ => 1,
            };
            if n == 0 {
                continue;
            }
            for (j, how) in hows.iter().enumerate() {
                // one way of failing at every call, the others at some
                let every = thorough || j == 0;
                let ks: Vec<usize> = (0..=n).filter(|k| *k <= 12 || every || k % 7 == 0 || *k == n).collect();
                for k in ks {
                    v.push((r.clone(), what, *how, k));
                }
            }
        }
    }
    v
}
fn fault_case(r: &Run, what: &'static str, how: &'static str, k: usize) -> Case {
    let mut c = Case::default();
    conf_ops(r, &mut c);
    PAR.define(&mut c, "q0");
    let mut f = r.clone();
    f.prob = f.prob.fault(what, k, how);
    f.prob.define(&mut c, "p");
    f.par.define(&mut c, "q");
    let o = if what == "bounds" { Out { res: "E".into(), ordered: H0, total: 0, calls: 0, by_fn: [0; 3], cons: 0, cb: (0, H0) } } else { rust_run(&f, None, false) };
    c.op(f.op("p", "q", Some("c"), None), o.res.clone());
    c.op("[\"log\",false]".into(), o.log(false));
    // the same objects, after the fault
    if k > 0 {
        let g = rust_of(r);
        c.op(r.op("p", "q", Some("c"), None), g.res.clone());
        c.op("[\"log\",false]".into(), g.log(false));
    }
    // in parallel, the call that fails is not determined: the run ends, and the next one is as ever
    r.prob.define(&mut c, "s");
    let mut h = f.clone();
    h.parallel = Some(true);
    h.prob.define(&mut c, "p");
    c.op(h.op("p", "q", Some("c"), None), "*");
    c.op("[\"log\",true]".into(), "*");
    let mut g = r.clone();
    g.parallel = Some(true);
    c.op(g.op("s", "q", Some("c"), None), rust_of(&g).res);
    c.op("[\"log\",true]".into(), rust_of(&g).log(true));
    c
}
/// Callbacks that raise or return something: the run does not change.
fn callback_cases() -> Vec<Case> {
    let mut v = vec![];
    for par in [false, true] {
        for k in 0..12usize {
            let mut c = Case::default();
            let mut r = Run::new(Prob::new(Kind::Wells, BOX2)).solver("NelderMead");
            r.parallel = Some(par);
            with_conf(&mut r, &mut c);
            r.prob.define(&mut c, "p");
            PAR.define(&mut c, "q");
            c.ok(format!("[\"fn\",\"cb\",{{\"what\":\"cb\",\"fault\":{{\"k\":{k},\"how\":\"raise\"}}}}]"));
            c.ok("[\"new\",\"o\",\"observers.PyObserver\",[],{}]".into());
            let mut o = PyObs::new();
            for b in ["s1", "s2", "rec"] {
                o.call(b);
                c.op(obs_op("o", b), "None");
            }
            let out = rust_run(&r, Some(&mut o), false);
            c.op(r.op("p", "q", Some("c"), Some("o")), out.res.clone());
            c.op("[\"show\",\"o\"]".into(), obs_text(&o.inner));
            c.op(format!("[\"log\",{par}]"), "*");
            v.push(c);
        }
    }
    v
}

// ------------------------------------------------------------------ histories
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Run,
    RunPar,
    RunNm,
    RunTr,
    RunSeed,
    /// fails: the starting points do not fit
    Fail,
    /// fails: 1001 constraints
    Many,
    /// a run of another problem, with other constraints
    Other,
    OtherPar,
    Cons(u8),
    Obj,
    Bounds,
    Grad,
    Iters,
    Rel,
    Conf,
}
const STEPS: [Step; 18] = [
    Step::Run, Step::RunPar, Step::RunNm, Step::RunTr, Step::RunSeed, Step::Fail, Step::Many, Step::Other, Step::OtherPar,
    Step::Cons(0), Step::Cons(1), Step::Cons(2), Step::Obj, Step::Bounds, Step::Grad, Step::Iters, Step::Rel, Step::Conf,
];
fn history_case(h: &[Step]) -> Case {
    let mut c = Case::default();
    let mut p = Prob::new(Kind::Wells, BOX2).cons(&[0]);
    let other = Prob::new(Kind::Tilted, BOX2).cons(&[1, 3]);
    let mut par = PAR.clone();
    let mut conf = None;
    let nm = tabs().into_iter().find(|t| t.solver == "NelderMead").unwrap();
    p.define(&mut c, "p");
    other.define(&mut c, "o");
    // functions the problem may be given later
    let later = Prob { grad: false, hess: false, ..Prob::new(Kind::Sphere, BOX3).cons(&[2, 1, 6]) };
    for o in later.fns("l", "[]") {
        c.ok(o);
    }
    par.define(&mut c, "q");
    make(&mut c, "c", nm.cls, nm.func, &nm.names(), &nm.defaults(), &nm.defaults(), Way::New);
    let go = |c: &mut Case, r: &Run, p: &str, cf: bool| {
        let o = rust_of(r);
        c.op(r.op(p, "q", cf.then_some("c"), None), o.res.clone());
        c.op(format!("[\"log\",{}]", r.is_par()), if r.is_par() && o.res == "E" { "*".into() } else { o.log(r.is_par()) });
    };
    let mut cons_shape = "list";
    for s in h {
        let mut r = Run::new(p.clone());
        r.par = par.clone();
        match s {
            Step::Run => go(&mut c, &r, "p", false),
            Step::RunPar => go(&mut c, &r.par(), "p", false),
            Step::RunSeed => {
                r.seed = Some(9);
                go(&mut c, &r, "p", false)
            }
            Step::RunTr => go(&mut c, &r.solver("TrustRegion"), "p", false),
            Step::RunNm => {
                let mut r = r.solver("NelderMead");
                r.conf = Some(conf.clone().unwrap_or_else(|| nm.rust(&nm.defaults())));
                go(&mut c, &r, "p", true)
            }
            Step::Fail => {
                r.points = Some(vec![vec![0.0]]);
                if p.b.len() == 1 {
                    r.points = Some(vec![vec![0.0, 0.0]]);
                }
                go(&mut c, &r, "p", false)
            }
            Step::Many => {
                let x = p.cons_val("p");
                c.ok(format!("[\"set\",\"p\",\"constraints\",{{\"many\":{},\"n\":1001}}]", rf("p.con0")));
                c.op(r.op("p", "q", None, None), "E");
                let back = match cons_shape {
                    "none" => "null".to_string(),
                    "later" => format!("[{},{}]", rf("l.con0"), rf("l.con1")),
                    "nan" => rf("l.con2"),
                    _ => x,
                };
                c.ok(format!("[\"set\",\"p\",\"constraints\",{back}]"));
            }
            Step::Other | Step::OtherPar => {
                let mut r = Run::new(other.clone());
                r.par = par.clone();
                if *s == Step::OtherPar {
                    r = r.par();
                }
                go(&mut c, &r, "o", false)
            }
            Step::Cons(0) => {
                c.ok("[\"set\",\"p\",\"constraints\",null]".into());
                p.cons = vec![];
                cons_shape = "none";
            }
            Step::Cons(1) => {
                c.ok(format!("[\"set\",\"p\",\"constraints\",[{},{}]]", rf("l.con0"), rf("l.con1")));
                p.cons = vec![2, 1];
                cons_shape = "later";
            }
            Step::Cons(_) => {
                c.ok(format!("[\"set\",\"p\",\"constraints\",{}]", rf("l.con2")));
                p.cons = vec![6];
                cons_shape = "nan";
            }
            Step::Obj => {
                c.ok(format!("[\"set\",\"p\",\"objective\",{}]", rf("l.obj")));
                // gradient and hessian stay those of the first objective
                p.kind = Kind::Sphere;
                p.grad = false;
                p.hess = false;
                c.ok("[\"set\",\"p\",\"gradient\",null]".into());
                c.ok("[\"set\",\"p\",\"hessian\",null]".into());
            }
            Step::Grad => {
                c.ok("[\"set\",\"p\",\"gradient\",null]".into());
                p.grad = false;
            }
            Step::Bounds => {
                c.ok(format!("[\"set\",\"p\",\"variable_bounds\",{}]", rf("l.bounds")));
                p.b = BOX3;
            }
            Step::Iters => {
                c.ok("[\"set\",\"q\",\"iterations\",3]".into());
                par.iters = 3;
            }
            Step::Rel => {
                c.ok("[\"set\",\"q\",\"rel_tol\",0.9]".into());
                par.rel = 0.9;
            }
            Step::Conf => {
                c.ok("[\"set\",\"c\",\"max_iter\",3]".into());
                let mut v = nm.defaults();
                v[2] = V::U(3);
                conf = Some(nm.rust(&v));
            }
        }
    }
    c
}

// ------------------------------------------------------------------ searches inside of searches
fn nested_outer() -> Vec<Run> {
    let mut v = vec![];
    for par in [None, Some(true)] {
        for r in [
            Run::new(Prob::new(Kind::Wells, BOX2).cons(&[0, 3])).solver("COBYLA"),
            Run::new(Prob::new(Kind::Tilted, BOX2)).solver("TrustRegion"),
        ] {
            let mut r = r;
            r.par.iters = 4;
            r.par.pop = 4;
            r.parallel = par;
            let mut c = Case::default();
            with_conf(&mut r, &mut c);
            v.push(r);
        }
    }
    v
}
/// The inner run: of another problem, of the same one, or one that fails.
fn nested_inner() -> Vec<(&'static str, Run)> {
    let o = Prob { grad: false, hess: false, ..Prob::new(Kind::Sphere, BOX2).cons(&[1]) };
    let mut bad = Run::new(o.clone());
    bad.points = Some(vec![vec![1.0]]);
    vec![
        ("n", Run::new(o.clone())),
        ("n", Run::new(o).par()),
        ("n", bad),
        ("p", Run::new(Prob::new(Kind::Flat, BOX2))),
        ("p", Run::new(Prob::new(Kind::Flat, BOX2)).par()),
    ]
}
fn nested_items(thorough: bool) -> Vec<(usize, usize, &'static str, usize)> {
    let mut v = vec![];
    for (i, r) in nested_outer().iter().enumerate() {
        let mut s = r.clone();
        s.parallel = None;
        let o = rust_run(&s, None, false);
        for (what, n) in [("obj", o.by_fn[0]), ("grad", o.by_fn[1]), ("hess", o.by_fn[2]), ("con", o.cons), ("bounds", 1), ("cb", 6)] {
            for k in 1..=n {
                for j in 0..nested_inner().len() {
                    let same = nested_inner()[j].0 == "p";
                    // the same problem, from within its own functions: only where the fault is not met again
                    if same && what == "bounds" {
                        continue;
                    }
                    if thorough || k <= 25 || k == n || k % 10 == 0 {
                        v.push((i, j, what, k));
                    }
                }
            }
        }
    }
    v
}
fn nested_case(i: usize, j: usize, what: &'static str, k: usize) -> Case {
    let mut c = Case::default();
    let outer = &nested_outer()[i];
    let (pid, inner) = &nested_inner()[j];
    let mut inner = inner.clone();
    conf_ops(outer, &mut c);
    PAR.define(&mut c, "q1");
    outer.par.define(&mut c, "q");
    let mut want = String::new();
    if *pid == "p" {
        // the outer problem itself
        inner.prob = Prob { fault: None, ..outer.prob.clone() };
        inner.par = outer.par.clone();
        inner.solver = outer.solver;
        inner.conf = outer.conf.clone();
    } else {
        inner.prob.define(&mut c, "n");
    }
    let (pq, cf) = if *pid == "p" { ("q", Some("c")) } else { ("q1", None) };
    let iop = inner.op(pid, pq, cf, None);
    want += &rust_of(&inner).res;
    let ops = format!("[{iop}]");
    let mut f = outer.clone();
    f.prob = f.prob.fault(what, k, "do");
    f.prob.define_in(&mut c, "p", &ops);
    let with_cb = what == "cb";
    if with_cb {
        c.ok(format!("[\"fn\",\"cb\",{{\"what\":\"cb\",\"fault\":{{\"k\":{k},\"how\":\"do\",\"ops\":{ops}}}}}]"));
        c.ok("[\"new\",\"o\",\"observers.PyObserver\",[],{}]".into());
        for b in ["s1", "s2", "rec"] {
            c.op(obs_op("o", b), "None");
        }
    }
    c.op(outer.op("p", "q", Some("c"), with_cb.then_some("o")), rust_of(outer).res);
    // with "E" for the inner run, only that it was an exception
    let want = if want == "E" || with_cb || outer.is_par() || what == "bounds" { "*".to_string() } else { want };
    c.op("[\"inner\"]".into(), want);
    // and afterwards as before
    let mut again = outer.clone();
    again.prob.fault = None;
    again.prob.define(&mut c, "z");
    c.op("[\"log\",false]".into(), "*");
    c.op(again.op("z", "q", Some("c"), None), rust_of(&again).res);
    c.op(format!("[\"log\",{}]", again.is_par()), rust_of(&again).log(again.is_par()));
    c
}

// ------------------------------------------------------------------ two threads
fn thread_runs() -> Vec<Run> {
    let mut v = vec![
        Run::new(Prob::new(Kind::Wells, BOX2).cons(&[0])).solver("COBYLA"),
        Run::new(Prob::new(Kind::Sphere, BOX2).cons(&[1, 3])).solver("COBYLA"),
        Run::new(Prob::new(Kind::Tilted, BOX2)).solver("TrustRegion"),
        Run::new(Prob::new(Kind::Wells, BOX2)).solver("NelderMead"),
    ];
    for r in &mut v {
        r.par.iters = 3;
        r.par.pop = 4;
        let mut c = Case::default();
        with_conf(r, &mut c);
    }
    v
}
#[derive(Clone, Debug)]
struct Threads {
    a: usize,
    b: usize,
    b_par: bool,
    /// both use the same problem and parameter objects
    shared: bool,
    sa: Vec<usize>,
    sb: Vec<usize>,
}
fn thread_items(thorough: bool) -> Vec<Threads> {
    let runs = thread_runs();
    let mut v = vec![];
    let calls = |r: &Run| {
        let o = rust_run(r, None, false);
        o.calls + o.cons + 1
    };
    for a in 0..runs.len() {
        for b in 0..runs.len() {
            let (na, nb) = (calls(&runs[a]), calls(&runs[b]));
            let (ea, eb) = if thorough { (3, 9) } else { (7, 31) };
            for i in (1..=na).filter(|i| *i <= 6 || i % ea == 0) {
                v.push(Threads { a, b, b_par: false, shared: false, sa: vec![i], sb: vec![] });
                v.push(Threads { a, b, b_par: true, shared: false, sa: vec![i], sb: vec![] });
                for j in (1..=nb).filter(|j| *j <= 3 || j % eb == 0) {
                    v.push(Threads { a, b, b_par: false, shared: false, sa: vec![i], sb: vec![j] });
                    if j % 2 == 1 {
                        v.push(Threads { a, b, b_par: false, shared: false, sa: vec![i, i + 5], sb: vec![j, j + 9] });
                    }
                    if a == b {
                        v.push(Threads { a, b, b_par: false, shared: true, sa: vec![i], sb: vec![j] });
                    }
                }
            }
        }
    }
    v
}
fn thread_case(t: &Threads) -> Case {
    let mut c = Case::default();
    let runs = thread_runs();
    let (ra, mut rb) = (runs[t.a].clone(), runs[t.b].clone());
    if t.b_par {
        rb.parallel = Some(true);
    }
    let conf = |c: &mut Case, r: &Run, id: &str| {
        let mut x = Case::default();
        conf_ops(r, &mut x);
        for o in x.ops {
            c.ok(o.replace("\"new\",\"c\"", &format!("\"new\",\"{id}\"")));
        }
    };
    conf(&mut c, &ra, "ca");
    conf(&mut c, &rb, "cb");
    ra.prob.define(&mut c, "a");
    ra.par.define(&mut c, "qa");
    rb.prob.define(&mut c, "b");
    rb.par.define(&mut c, "qb");
    if t.shared {
        // one problem object and one configuration
        let oa = ra.op("a", "qa", Some("ca"), None);
        let ob = format!("[\"run\",[{},{}],{}]", rf("a"), rf("qa"), kwargs(&rb.kw(Some("ca"), None)));
        let e = rust_of(&ra).res;
        c.op(format!("[\"threads\",[{oa}],[{ob}],[{:?},{:?}]]", t.sa, t.sb), format!("{e}|{e}"));
    } else {
        let oa = ra.op("a", "qa", Some("ca"), None);
        let ob = rb.op("b", "qb", Some("cb"), None);
        c.op(
            format!("[\"threads\",[{oa}],[{ob}],[{:?},{:?}]]", t.sa, t.sb),
            format!("{}|{}", rust_of(&ra).res, rust_of(&rb).res),
        );
    }
    // later runs are not affected
    let mut s = Run::new(Prob::new(Kind::Wells, BOX2).cons(&[2]));
    s.par = ra.par.clone();
    s.prob.define(&mut c, "s");
    c.op("[\"log\",true]".into(), "*");
    c.op(s.op("s", "qa", None, None), rust_of(&s).res);
    c.op("[\"log\",false]".into(), rust_of(&s).log(false));
    c
}

// ------------------------------------------------------------------ solution sets
fn set_cases() -> Vec<Case> {
    let vals = [f64::NEG_INFINITY, -1.0, -0.0, 0.0, 1.0, f64::INFINITY, f64::NAN];
    let mut v = vec![];
    for s in sequences(&(0..vals.len()).collect::<Vec<_>>(), 4) {
        let mut c = Case::default();
        let mut l = vec![];
        for (i, x) in s.iter().enumerate() {
            c.ok(format!("[\"new\",\"l{i}\",\"PyLocalSolution\",[[{i}.5,-1.0],{}],{{}}]", num(vals[*x])));
            l.push((vec![i as f64 + 0.5, -1.0], vals[*x]));
        }
        let refs: Vec<String> = (0..s.len()).map(|i| rf(&format!("l{i}"))).collect();
        c.ok(format!("[\"new\",\"s\",\"PySolutionSet\",[[{}]],{{}}]", refs.join(",")));
        c.op("[\"show\",\"s\"]".into(), set_text(&l));
        let rs = SolutionSet { solutions: l.iter().map(|(p, f)| LocalSolution { point: a1(p), objective: *f }).collect() };
        let best = rs.best_solution().map_or("None".into(), |b| sol(&b.point.to_vec(), b.objective));
        c.op("[\"call\",\"s\",\"best_solution\",[]]".into(), best);
        c.op("[\"call\",\"s\",\"__len__\",[]]".into(), format!("i{}", s.len()));
        c.op("[\"call\",\"s\",\"is_empty\",[]]".into(), if s.is_empty() { "True" } else { "False" });
        c.op(format!("[\"call\",\"s\",\"__getitem__\",[{}]]", s.len()), "E");
        c.op("[\"str\",\"s\"]".into(), "*");
        if !s.is_empty() {
            c.ok("[\"set\",\"l0\",\"objective\",2.5]".into());
            c.ok("[\"set\",\"l0\",\"point\",[7.0]]".into());
            c.op("[\"show\",\"l0\"]".into(), sol(&[7.0], 2.5));
            c.op("[\"str\",\"l0\"]".into(), "*");
            // what the set holds are its own solutions
            c.op("[\"show\",\"s\"]".into(), set_text(&l));
        }
        v.push(c);
    }
    v
}

// ------------------------------------------------------------------ messages
/// The words of a text, without those that hold digits.
fn words(t: &str) -> Vec<String> {
    t.split_whitespace()
        .filter(|w| !w.chars().any(|c| c.is_ascii_digit()) && !["inf", "NaN", "-inf", "]", "[", "infs,"].contains(w))
        .map(|w| w.to_string())
        .collect()
}
fn messages(ctx: &Ctx) {
    use std::io::{Read, Seek};
    use std::os::fd::AsRawFd;
    let st = ctx.st;
    // one at a time: what the Rust library prints is caught from this process's own output
    for par in [false, true] {
        for verbose in [false, true] {
            for seq in [&[][..], &["s1", "s2", "dflt"], &["s1", "s2", "cb1"], &["s1", "s2", "cb2"], &["s1", "cb1"], &["s2", "cb2"], &["s1", "s2", "f2", "dflt"], &["s1", "s2", "uniq", "dflt"], &["s1", "s2", "dflt", "cb2"], &["s1", "s2", "time", "dflt"]] {
                for k in [Kind::Wells, Kind::Slope] {
                    if st.broken() {
                        return;
                    }
                    let mut c = Case::default();
                    let mut r = Run::new(Prob::new(k, BOX2)).solver("NelderMead");
                    r.parallel = Some(par);
                    r.exclude = Some(true);
                    with_conf(&mut r, &mut c);
                    r.prob.define(&mut c, "p");
                    PAR.define(&mut c, "q");
                    c.ok("[\"new\",\"o\",\"observers.PyObserver\",[],{}]".into());
                    let mut o = PyObs::new();
                    for b in seq {
                        o.call(b);
                        c.op(obs_op("o", b), "None");
                    }
                    let mut kv = r.kw(Some("c"), Some("o"));
                    kv.push(("verbose", verbose.to_string()));
                    c.op(format!("[\"caught\",[\"run\",[{},{}],{}]]", rf("p"), rf("q"), kwargs(&kv)), "*");
                    let path = Scratch::new("msg");
                    let mut f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(path.0.join("t")).unwrap();
                    let (k1, k2) = unsafe { (libc::dup(1), libc::dup(2)) };
                    unsafe {
                        libc::dup2(f.as_raw_fd(), 1);
                        libc::dup2(f.as_raw_fd(), 2);
                    }
                    let go = || {
                        let mut x = optimizer(&r, Pf::new(&r.prob), Some(o.inner.clone())).unwrap();
                        if verbose {
                            x = x.verbose();
                        }
                        run_built(&mut x)
                    };
                    let end = if par { POOL.with(|p| p.install(go)) } else { go() };
                    let _ = std::io::stdout().flush();
                    unsafe {
                        libc::dup2(k1, 1);
                        libc::dup2(k2, 2);
                        libc::close(k1);
                        libc::close(k2);
                    }
                    let mut want = String::new();
                    f.rewind().unwrap();
                    let mut bytes = vec![];
                    f.read_to_end(&mut bytes).unwrap();
                    want.push_str(&String::from_utf8_lossy(&bytes));
                    let set = end.ok().map_or("E".into(), |s| set_text(s));
                    st.exec();
                    st.step(c.ops.len() as u64);
                    let got = match ask(&c.ops) {
                        Ok(g) => g.last().unwrap().clone(),
                        Err(e) => {
                            st.violation(format!("{c:?}"), String::new(), e);
                            return;
                        }
                    };
                    let (res, text) = got.split_once('\n').unwrap_or((&got, ""));
                    let (mut a, mut b) = (words(&want), words(text));
                    if par {
                        a.sort();
                        b.sort();
                    }
                    st.state(hash(&b));
                    if !agrees(&set, res) || a != b {
                        st.violation(format!("{c:?}"), String::new(), format!("messages or results differ\n  Rust:   {set}\n{want}\n  Python: {res}\n{text}"));
                        return;
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ the check
fn run_cases<T: Sync + std::fmt::Debug>(ctx: &Ctx, name: &str, items: &[T], f: impl Fn(&T) -> Case + Sync) {
    ctx.phase(name, || {
        for_all(ctx.st, items, ctx.deadline, |i| {
            let c = f(i);
            check(ctx.st, &c).map_err(|e| format!("{e}\ncase:\n{c:?}"))
        })
    });
}

pub fn c23(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.rule("scripted uses of the built Python extension module (constructors, builder functions, attributes, optimize with every option, observers, misbehaving user functions, sequences of runs on shared objects, searches inside of searches, two threads under every bounded schedule), each operation compared bit for bit with the same use of the Rust library in this process");
    ctx.assume("user functions compute with IEEE basic operations and sqrt, so that both languages get the same values");
    ctx.assume("controlled schedules change over at calls of user functions; the code between such calls runs to its end");
    ctx.assume("which call of a misbehaving function is the k-th is only determined in serial runs; in parallel ones the check asks for an orderly end and an unharmed next run");
    ctx.bound("rayon threads of the module", THREADS);
    run_cases(ctx, "solution sets", &set_cases(), Clone::clone);
    run_cases(ctx, "arguments", &argument_cases(), Clone::clone);
    run_cases(ctx, "solver configurations", &config_items(t), conf_case);
    run_cases(ctx, "options", &option_cases(t), option_case);
    run_cases(ctx, "constraints", &constraint_cases(), Clone::clone);
    ctx.phase("messages", || messages(ctx));
    run_cases(ctx, "observers", &observer_items(t), |(a, b, p)| observer_case(a, b, *p));
    run_cases(ctx, "callbacks that raise", &callback_cases(), Clone::clone);
    run_cases(ctx, "misbehaving functions", &fault_items(t), |(r, w, h, k)| fault_case(r, w, h, *k));
    run_cases(ctx, "histories", &sequences(&STEPS, if t { 4 } else { 3 }), |h| history_case(h));
    run_cases(ctx, "searches inside of searches", &nested_items(t), |(i, j, w, k)| nested_case(*i, *j, w, *k));
    run_cases(ctx, "two threads", &thread_items(t), thread_case);
}
