//! C06, C07: the searches whose results are compared across schedules, thread counts and builds.
use crate::core::*;
use crate::funs::*;
use globalsearch::problem::Problem;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2};
use std::sync::Arc;

pub type Hook = Arc<dyn Fn() + Send + Sync>;

/// A problem that tells a hook about every call of its functions.
#[derive(Clone)]
pub struct Hooked {
    pub f: Fun,
    pub hook: Option<Hook>,
}
impl Hooked {
    fn called(&self) {
        if let Some(h) = &self.hook {
            h()
        }
    }
}
impl Problem for Hooked {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        self.called();
        self.f.value(x.as_slice().unwrap()).ok_or_else(err)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        self.called();
        Ok(Array1::from(self.f.grad(x.as_slice().unwrap())))
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        self.called();
        Ok(self.f.hess(x.as_slice().unwrap()))
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.f.variable_bounds()
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        self.f.cons.clone()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Size {
    Small,
    Large,
    /// under fixed strategies and real pools only
    Huge,
}

#[derive(Clone)]
pub struct Load {
    pub kind: Kind,
    pub bounds: Vec<(f64, f64)>,
    /// 0: none, 1: a half plane, 2: a disc
    pub cons: u8,
    pub spec: Spec,
    pub size: Size,
    /// few enough user calls for several deviations
    pub tiny: bool,
    pub ckpt: bool,
}
impl std::fmt::Debug for Load {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.name())
    }
}
fn half_plane(x: &[f64], _: &mut ()) -> f64 {
    x[0] + 1.2
}
fn disc(x: &[f64], _: &mut ()) -> f64 {
    2.2 - x.iter().map(|v| v * v).sum::<f64>()
}
impl Load {
    pub fn new(kind: Kind, d: usize, spec: Spec) -> Load {
        let b = [(-2.0, 2.0), (-1.5, 2.5), (-3.0, 1.0)];
        Load {
            kind,
            bounds: b[..d].to_vec(),
            cons: 0,
            spec,
            size: Size::Small,
            tiny: false,
            ckpt: false,
        }
    }
    pub fn name(&self) -> String {
        format!(
            "{:?} {:?} constraints={} ckpt={} {}",
            self.kind,
            self.bounds,
            self.cons,
            self.ckpt,
            self.spec.brief()
        )
    }
    pub fn problem(&self, hook: Option<Hook>) -> Hooked {
        let mut f = Fun::new(self.kind, &self.bounds);
        match self.cons {
            1 => f.cons = vec![half_plane],
            2 => f.cons = vec![disc, half_plane],
            _ => {}
        }
        Hooked { f, hook }
    }
    /// How often Stage 1 calls the user's functions, without the first local search.
    pub fn stage1_calls(&self) -> u64 {
        let n = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let n2 = n.clone();
        let p = self.problem(Some(Arc::new(move || {
            n2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        })));
        if let Ok(mut ss) = ScatterSearch::new(p, self.spec.params()) {
            if let Some(c) = &self.spec.custom {
                ss = ss.with_custom_points(c.iter().map(|p| a1(p)).collect());
            }
            let _ = ss.run();
        }
        n.load(std::sync::atomic::Ordering::SeqCst)
    }
}

/// Everything a run lets its user see, apart from times.
#[derive(Clone, Debug)]
pub struct Seen {
    end: End,
    rest: String,
}
fn hex(v: &[f64]) -> String {
    v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",")
}
impl Seen {
    pub fn end(&self) -> &End {
        &self.end
    }
    fn end_text(&self) -> String {
        match &self.end {
            End::Ok(s) => s
                .iter()
                .map(|(p, v)| format!("({}|{})", hex(p), hex(&[*v])))
                .collect::<Vec<_>>()
                .join(" "),
            End::Err(_) => "error".into(),
            End::Panic(m) => format!("panic {m}"),
        }
    }
    pub fn digest(&self) -> String {
        format!("{} # {}", self.end_text(), self.rest).replace(['\n', '\t'], " ")
    }
    pub fn brief(&self) -> String {
        match &self.end {
            End::Ok(s) => format!("{} solutions, first {:?}", s.len(), s.first()),
            e => format!("{e:?}"),
        }
    }
    pub fn agrees(&self, o: &Seen) -> Result<(), String> {
        if let End::Panic(m) = &self.end {
            return Err(format!("the search panicked: {m}"));
        }
        if self.end_text() != o.end_text() {
            return Err(format!("it ends with {:?}\ninstead of {:?}", self.end, o.end));
        }
        if self.rest != o.rest {
            return Err(format!("it reports {}\ninstead of {}", self.rest, o.rest));
        }
        Ok(())
    }
}
fn s1_text(s: &S1) -> String {
    format!(
        "{} {} {} {} {:x} {:?}",
        s.substage,
        s.evals,
        s.trials,
        s.refset,
        s.best.to_bits(),
        s.best_pt.as_ref().map(|p| hex(p))
    )
}
fn s2_text(s: &S2) -> String {
    format!(
        "{} {} {} {} {} {:x} {:?} {:x} {} {:?}",
        s.iter,
        s.evals,
        s.calls,
        s.improved,
        s.set_size,
        s.best.to_bits(),
        s.best_pt.as_ref().map(|p| hex(p)),
        s.thr.to_bits(),
        s.unchanged,
        s.last_added.as_ref().map(|p| hex(p))
    )
}

pub fn execute(l: &Load, hook: Option<Hook>) -> Seen {
    let log = Log::default();
    let mut spec = l.spec.clone();
    #[cfg(feature = "ckpt")]
    let scratch = l.ckpt.then(|| Scratch::new("par"));
    #[cfg(feature = "ckpt")]
    if let Some(s) = &scratch {
        spec.ck = Some(CkSpec {
            dir: s.0.clone(),
            name: "par".into(),
            freq: 2,
            keep_all: true,
            auto: false,
        });
    }
    let r = run(l.problem(hook), &spec, &log);
    let mut rest = String::new();
    if !matches!(r.end, End::Err(_)) {
        rest += &format!(
            "stage 1: {:?}; stage 2: {:?}; ",
            r.s1.as_ref().map(s1_text),
            r.s2.as_ref().map(s2_text)
        );
        for c in &r.cbs {
            rest += &format!("callback {:?} {:?}; ", c.s1.as_ref().map(s1_text), c.s2.as_ref().map(s2_text));
        }
        #[cfg(feature = "ckpt")]
        if let Some(s) = &scratch {
            let mut files: Vec<_> = std::fs::read_dir(&s.0).unwrap().flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files {
                let text = match globalsearch::checkpoint::read_checkpoint_file(&f) {
                    Ok(mut c) => {
                        c.elapsed_time = 0.0;
                        c.timestamp = String::new();
                        ck_repr(&c)
                    }
                    Err(e) => format!("unreadable: {e}"),
                };
                rest += &format!("file {:?}: {text}; ", f.file_name());
            }
        }
    }
    drop(spec);
    Seen { end: r.end, rest }
}

fn grid(n: usize, d: usize, lo: f64, step: f64) -> Vec<Pt> {
    (0..n)
        .map(|i| (0..d).map(|j| lo + step * ((i * (3 + 4 * j) + j) % 37) as f64).collect())
        .collect()
}
fn obs(mode: u8, freq: usize) -> Option<ObsSpec> {
    Some(ObsSpec {
        mode,
        freq,
        callback: Cb::Rec,
        timing: false,
    })
}

pub fn loads(thorough: bool) -> Vec<Load> {
    let mut v = vec![];
    let s = solvers();
    let sol = |spec: Spec, name: &str| {
        let x = s.iter().find(|x| x.0 == name).unwrap();
        Spec {
            solver: x.1.clone(),
            config: x.2.clone(),
            ..spec
        }
    };
    let b = |n| Spec {
        batch: Batch::N(n),
        ..Spec::default()
    };
    // tiny: one Newton step per local search
    for (kind, d) in [(Kind::Wells, 1), (Kind::Tilted, 2), (Kind::Ripple, 2)] {
        for batch in [2, 3, 4] {
            let mut l = Load::new(
                kind,
                d,
                Spec {
                    pop: 4 + d,
                    iters: 4 + d,
                    wait: 1,
                    tf: 2.0,
                    df: 0.1,
                    seed: batch as u64,
                    tol: Some((0.5, 0.1)),
                    ..b(batch)
                },
            );
            l.tiny = true;
            v.push(l);
        }
    }
    {
        let mut l = Load::new(
            Kind::Wells,
            2,
            Spec {
                pop: 6,
                iters: 6,
                wait: 1,
                tf: 2.0,
                df: 0.1,
                tol: Some((0.2, 0.1)),
                obs: obs(3, 1),
                ..b(3)
            },
        );
        l.tiny = true;
        v.push(l.clone());
        l.ckpt = true;
        l.kind = Kind::Tilted;
        l.tiny = false;
        v.push(l);
    }
    // small: every solver, options
    for (i, name) in ["lbfgs-hz", "nm", "cobyla", "sd", "ncg"].iter().enumerate() {
        let kind = [Kind::Tilted, Kind::Wells, Kind::Ripple][i % 3];
        v.push(Load::new(
            kind,
            2,
            sol(
                Spec {
                    pop: 6,
                    iters: 6,
                    wait: 1,
                    tf: 1.0,
                    df: 0.2,
                    tol: Some((0.1, 0.1)),
                    seed: i as u64,
                    obs: obs(3, 2),
                    ..b(3)
                },
                name,
            ),
        ));
    }
    for cons in [1, 2] {
        let mut l = Load::new(
            Kind::Tilted,
            2,
            sol(
                Spec {
                    pop: 5,
                    iters: 5,
                    wait: 1,
                    tf: 1.0,
                    df: 0.2,
                    seed: 3,
                    ..b(2)
                },
                "cobyla",
            ),
        );
        l.cons = cons;
        v.push(l);
    }
    v.push(Load::new(
        Kind::Slope,
        2,
        Spec {
            pop: 6,
            iters: 6,
            exclude: true,
            tf: 1.0,
            df: 0.2,
            seed: 5,
            ..sol(b(3), "lbfgs-mt")
        },
    ));
    v.push(Load::new(
        Kind::Wells,
        2,
        Spec {
            pop: 6,
            iters: 6,
            target: Some(0.01),
            tf: 1.0,
            df: 0.2,
            seed: 6,
            ..sol(b(4), "tr")
        },
    ));
    v.push(Load::new(
        Kind::Flat,
        2,
        Spec {
            pop: 6,
            iters: 6,
            seed: 7,
            ..sol(b(4), "nm")
        },
    ));
    v.push(Load::new(
        Kind::Wells,
        1,
        Spec {
            pop: 6,
            iters: 6,
            tol: Some((0.5, 0.5)),
            seed: 8,
            ..sol(b(6), "nm")
        },
    ));
    {
        let mut l = Load::new(
            Kind::Patchy,
            2,
            Spec {
                pop: 6,
                iters: 6,
                tf: 1.0,
                df: 0.2,
                seed: 2,
                ..sol(b(3), "nm")
            },
        );
        l.bounds = vec![(-0.9, 0.9), (-0.9, 0.9)];
        v.push(l.clone());
        l.bounds = vec![(-2.0, 2.0), (-2.0, 2.0)];
        v.push(l);
    }
    // points so close together that their distances count as none: ties in the diversification
    for kind in [Kind::Flat, Kind::Tilted] {
        let mut l = Load::new(
            kind,
            3,
            Spec {
                pop: 7,
                iters: 6,
                wait: 1,
                tf: 1.0,
                df: 0.8,
                ..sol(b(3), "nm")
            },
        );
        for b in &mut l.bounds {
            *b = (b.0 * 1e-8, b.1 * 1e-8);
        }
        v.push(l);
    }
    // many ties among the trial points: the order of the reference set may not depend on timing
    for (d, pop, name) in [(2, 8, "nm"), (3, 7, "cobyla"), (1, 10, "nm")] {
        let mut l = Load::new(
            Kind::Steps,
            d,
            Spec {
                pop,
                iters: 5,
                wait: 1,
                tf: 1.0,
                df: 0.2,
                tol: Some((0.5, 0.1)),
                seed: 1 + d as u64,
                obs: obs(3, 1),
                ..sol(b(3), name)
            },
        );
        l.ckpt = true;
        v.push(l);
    }
    // answers that are not numbers
    v.push(Load::new(
        Kind::Holes,
        2,
        Spec {
            pop: 6,
            iters: 6,
            tf: 1.0,
            df: 0.2,
            seed: 2,
            obs: obs(3, 1),
            ..sol(b(3), "cobyla")
        },
    ));
    {
        let c = grid(4, 2, -1.4, 0.07);
        v.push(Load::new(
            Kind::Ripple,
            2,
            Spec {
                pop: 7,
                iters: 7,
                custom: Some(c),
                tf: 1.0,
                df: 0.2,
                seed: 9,
                ..b(3)
            },
        ));
    }
    if thorough {
        for seed in 10..16 {
            for kind in [Kind::Wells, Kind::Tilted, Kind::Ripple] {
                v.push(Load::new(
                    kind,
                    1 + seed as usize % 3,
                    Spec {
                        pop: 6,
                        iters: 6,
                        wait: 1,
                        tf: 0.5,
                        df: 0.2,
                        seed,
                        obs: obs(3, 1),
                        ..b(2 + seed as usize % 4)
                    },
                ));
            }
        }
    }
    // large: sizes at which more of the work is parallel
    let big = |mut l: Load| {
        l.size = Size::Large;
        l
    };
    v.push(big(Load::new(
        Kind::Ripple,
        2,
        Spec {
            pop: 22,
            iters: 10,
            wait: 1,
            tf: 2.0,
            df: 0.05,
            tol: Some((1.0, 0.5)),
            obs: obs(3, 1),
            seed: 1,
            ..b(4)
        },
    )));
    {
        let mut l = big(Load::new(
            Kind::Tilted,
            2,
            Spec {
                pop: 24,
                iters: 12,
                wait: 1,
                tf: 2.0,
                df: 0.05,
                tol: Some((0.5, 0.5)),
                seed: 2,
                ..b(6)
            },
        ));
        l.cons = 1;
        l.ckpt = true;
        v.push(l);
    }
    {
        let mut l = big(Load::new(
            Kind::Ripple,
            2,
            Spec {
                pop: 8,
                iters: 6,
                custom: Some(grid(104, 2, -1.3, 0.06)),
                tf: 1.0,
                df: 0.2,
                seed: 3,
                ..b(3)
            },
        ));
        l.cons = 2;
        v.push(l);
    }
    // Stage 1 meets errors, or answers that are not numbers
    for (kind, d) in [(Kind::Patchy, 2), (Kind::Holes, 2), (Kind::Steps, 2)] {
        let mut l = big(Load::new(
            kind,
            d,
            Spec {
                pop: if kind == Kind::Steps { 36 } else { 22 },
                iters: 8,
                wait: 1,
                tf: 1.0,
                df: 0.2,
                seed: 6,
                obs: obs(3, 1),
                ..sol(b(3), "cobyla")
            },
        ));
        l.ckpt = kind == Kind::Steps;
        v.push(l);
    }
    for (i, (kind, d, pop, iters, batch, name)) in [
        (Kind::Ripple, 2, 140, 24, 8, "tr"),
        (Kind::Flat, 2, 70, 30, 16, "nm"),
        (Kind::Slope, 3, 260, 12, 5, "cobyla"),
        (Kind::Tilted, 3, 140, 33, 33, "lbfgs-hz"),
    ]
    .into_iter()
    .enumerate()
    {
        let mut l = Load::new(
            kind,
            d,
            Spec {
                pop,
                iters,
                wait: 2,
                tf: 1.0,
                df: 0.05,
                tol: Some((0.5, 0.5)),
                obs: obs(3, 3),
                custom: if i == 0 { Some(grid(130, 2, -1.3, 0.02)) } else { None },
                seed: 40 + i as u64,
                ..sol(b(batch), name)
            },
        );
        l.size = Size::Huge;
        l.ckpt = i == 3;
        v.push(l);
    }
    if thorough {
        v.push(big(Load::new(
            Kind::Wells,
            3,
            Spec {
                pop: 30,
                iters: 30,
                wait: 3,
                tf: 0.3,
                df: 0.4,
                obs: obs(3, 1),
                seed: 4,
                ..b(8)
            },
        )));
        v.push(big(Load::new(
            Kind::Ripple,
            3,
            Spec {
                pop: 26,
                iters: 20,
                wait: 3,
                tf: 0.3,
                df: 0.4,
                seed: 5,
                ..sol(b(5), "nm")
            },
        )));
    }
    v
}

/// Stage 1 on its own.
pub fn stage1_digest(l: &Load, _par: bool) -> String {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut ss = ScatterSearch::new(l.problem(None), l.spec.params()).map_err(|e| e.to_string())?;
        #[cfg(feature = "rayon")]
        {
            ss = ss.parallel(_par);
        }
        if let Some(c) = &l.spec.custom {
            ss = ss.with_custom_points(c.iter().map(|p| a1(p)).collect());
        }
        ss.run().map_err(|e| e.to_string())
    }));
    match r {
        Ok(Ok((rs, best))) => format!(
            "{} best {}",
            rs.iter()
                .map(|(p, v)| format!("({}|{})", hex(p.as_slice().unwrap()), hex(&[*v])))
                .collect::<Vec<_>>()
                .join(" "),
            hex(best.as_slice().unwrap())
        ),
        Ok(Err(_)) => "error".into(),
        Err(e) => format!("panic {}", panic_text(e)),
    }
}

/// Searches for the comparison of parallel and sequential execution.
pub fn loads07(thorough: bool) -> Vec<Load> {
    let mut v = vec![];
    let s = solvers();
    let names: &[&str] = &["tr", "lbfgs-hz", "nm", "cobyla"];
    let seeds = if thorough { 24 } else { 4 };
    let scales: &[f64] = &[1.0, 1e-8, 5e-8, 2e-7, 6e-7, 2e-6, 1e-4, 1e5];
    for (ki, kind) in KINDS.iter().enumerate() {
        for d in 1..=3usize {
            for &scale in scales {
                if scale != 1.0 && !matches!(kind, Kind::Sphere | Kind::Tilted | Kind::Flat | Kind::Slope) {
                    continue;
                }
                for seed in 0..seeds {
                    for (pi, &(pop, iters)) in [(4, 4), (7, 6), (21, 9), (30, 20), (140, 15), (270, 40)].iter().enumerate() {
                        if pop > 100 && (seed > 0 || scale != 1.0 || d == 3 && !thorough) {
                            continue;
                        }
                        for cons in [0u8, 1] {
                            if cons > 0 && (scale != 1.0 || *kind == Kind::Patchy) {
                                continue;
                            }
                            if (21..100).contains(&pop) && !thorough && (seed > 0 || d == 3) {
                                continue;
                            }
                            for name in names {
                                if *name == "nm" && pop >= 30 && !thorough
                                    || (*name != names[(ki + d + seed as usize + pi + cons as usize) % names.len()]
                                        && (seed > 1 || scale != 1.0))
                                {
                                    continue;
                                }
                                let x = s.iter().find(|x| x.0 == *name).unwrap();
                                let spec = Spec {
                                    pop,
                                    iters,
                                    wait: 1 + seed as usize % 3,
                                    tf: [1.0, 0.2, 2.0][seed as usize % 3],
                                    df: [0.2, 0.8][pi % 2],
                                    seed,
                                    solver: x.1.clone(),
                                    config: x.2.clone(),
                                    tol: if seed % 2 == 1 { Some((0.2, 0.1)) } else { None },
                                    obs: if seed % 2 == 0 { obs(3, 1) } else { None },
                                    exclude: seed % 3 == 2,
                                    target: if seed == 1 && pi == 1 { Some(0.05) } else { None },
                                    ..Spec::default()
                                };
                                let mut l = Load::new(*kind, d, spec);
                                if *kind == Kind::Patchy {
                                    l.bounds = vec![(-0.9, 0.9); d];
                                }
                                for b in &mut l.bounds {
                                    *b = (b.0 * scale, b.1 * scale);
                                }
                                l.cons = cons;
                                v.push(l);
                            }
                        }
                    }
                }
            }
        }
    }
    // problems that answer with errors or with no numbers in parts of the space
    for kind in [Kind::Patchy, Kind::Holes, Kind::Steps] {
        for d in 1..=3usize {
            for name in ["tr", "nm", "cobyla"] {
                for pop in [4, 7, 21, 30] {
                    for seed in 0..seeds {
                        for wide in [1.0, 0.8, 0.66, 1.5] {
                            let x = s.iter().find(|x| x.0 == name).unwrap();
                            let mut l = Load::new(
                                kind,
                                d,
                                Spec {
                                    pop,
                                    iters: pop.min(8),
                                    wait: 2,
                                    tf: 1.0,
                                    df: 0.3,
                                    seed,
                                    solver: x.1.clone(),
                                    config: x.2.clone(),
                                    obs: obs(3, 1),
                                    ..Spec::default()
                                },
                            );
                            for b in &mut l.bounds {
                                *b = (b.0 * wide, b.1 * wide);
                            }
                            v.push(l);
                        }
                    }
                }
            }
        }
    }
    // custom points, also close to one another and to the corners, and many of them
    for (i, &(n, pop, cons, step)) in [
        (3, 6, 0, 0.07),
        (3, 6, 1, 0.07),
        (104, 8, 1, 0.06),
        (104, 30, 2, 0.06),
        (150, 8, 0, 0.05),
        (12, 8, 0, 1e-9),
        (40, 24, 1, 1e-8),
    ]
    .iter()
    .enumerate()
    {
        for seed in 0..seeds {
            let mut c = grid(n, 2, -1.3, step);
            if seed % 2 == 1 {
                c[0] = vec![-2.0, -1.5];
                c[1] = vec![0.0, 0.5];
            }
            let mut l = Load::new(
                [Kind::Ripple, Kind::Tilted][i % 2],
                2,
                Spec {
                    pop,
                    iters: pop.min(8),
                    custom: Some(c),
                    tf: 1.0,
                    df: 0.2,
                    seed,
                    wait: 2,
                    obs: obs(3, 1),
                    ..Spec::default()
                },
            );
            l.cons = cons;
            v.push(l);
        }
    }
    v
}

/// What a build without the parallel feature computes, one line per search.
pub fn print_digests(thorough: bool) {
    for l in loads07(thorough) {
        println!("{}\t{}\t{}", l.name(), stage1_digest(&l, false), execute(&l, None).digest());
    }
}
