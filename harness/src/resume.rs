//! C14, C15: a run continued from any of its checkpoints.
use crate::core::*;
use crate::explore::*;
use crate::funs::*;
use crate::model::*;
use crate::report::Ctx;
use crate::script::*;
use crate::stage2::*;
use crate::trace::*;
use globalsearch::local_solver::builders::*;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

type Dir = BTreeMap<String, Vec<u8>>;

fn read_dir(d: &Path) -> Dir {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            if let Ok(b) = std::fs::read(e.path()) {
                m.insert(e.file_name().to_string_lossy().into_owned(), b);
            }
        }
    }
    m
}
fn write_dir(d: &Path, c: &Dir) {
    for (k, v) in c {
        std::fs::write(d.join(k), v).unwrap();
    }
}

/// Keeps every state of the checkpoint directory that was there at some call of the user's
/// functions: the states in which the process can be interrupted.
#[derive(Clone)]
pub struct Snap<P: Traced> {
    p: P,
    dir: PathBuf,
    seen: Arc<Mutex<Vec<(usize, Dir)>>>,
}
impl<P: Traced> Snap<P> {
    fn look(&self) {
        let now = read_dir(&self.dir);
        let mut s = self.seen.lock().unwrap();
        if s.last().map(|x| &x.1) != Some(&now) {
            let n = self.p.log().len();
            s.push((n, now));
        }
    }
}
impl<P: Traced> Problem for Snap<P> {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        self.look();
        self.p.objective(x)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        self.look();
        self.p.gradient(x)
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        self.look();
        self.p.hessian(x)
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.p.variable_bounds()
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        self.p.constraints()
    }
}

struct Whole {
    end: End,
    log: Vec<Ev>,
    snaps: Vec<(usize, Dir)>,
}

/// Run to the end from the directory's present state.
fn run_whole<P: Traced>(p: P, spec: &Spec, w: &Worker) -> Whole {
    let dir = spec.ck.as_ref().unwrap().dir.clone();
    let log = p.log().clone();
    let s = Snap { p, dir: dir.clone(), seen: Default::default() };
    let seen = s.seen.clone();
    let ran = w.pool.install(|| run(s, spec, &log));
    let log = log.take();
    let mut snaps = std::mem::take(&mut *seen.lock().unwrap());
    let last = read_dir(&dir);
    if snaps.last().map(|x| &x.1) != Some(&last) {
        snaps.push((log.len(), last));
    }
    Whole { end: ran.end, log, snaps }
}

fn cands(spec: &Spec, d: &Dir) -> Vec<Pt> {
    if spec.solver != LocalSolverType::COBYLA {
        return vec![];
    }
    let scr = Scratch::new("cand");
    write_dir(&scr.0, d);
    let mut c = spec.ck.clone().unwrap();
    c.dir = scr.0.clone();
    ck::latest(&c).map(|c| ck::refset(&c)).unwrap_or_default()
}

/// The same search with every checkpointed setting different.
fn foreign(s: &Spec) -> Spec {
    let mut f = s.clone();
    f.pop += 3;
    f.iters = 1;
    f.wait += 5;
    f.tf *= 7.0;
    f.df += 2.5;
    f.seed = f.seed.wrapping_add(17);
    let mut g = settings(&f);
    if g.solver == LocalSolverType::NelderMead {
        (g.solver, g.config) = tr_config();
    } else {
        g.solver = LocalSolverType::NelderMead;
        g.config = NelderMeadBuilder::default().max_iter(2).build();
    }
    g
}
/// The same search with other options than its parameters.
fn settings(s: &Spec) -> Spec {
    let mut f = s.clone();
    f.batch = match s.batch {
        Batch::Off => Batch::N(3),
        Batch::N(2) => Batch::Off,
        _ => Batch::N(2),
    };
    f.target = match s.target {
        None => Some(1e9),
        Some(_) => None,
    };
    f.exclude = !s.exclude;
    f.tol = Some(match s.tol {
        None => (3.0, 0.0),
        Some((a, r)) => (r, a),
    });
    f
}

/// All interruptions of one run, and of the resumed runs up to `depth` deep.
fn c14_check<P: Traced>(p: &P, spec: &Spec, w: &Worker, w2: &Scratch, depth: usize, st: &Stats) -> Result<(), String> {
    let mut spec = spec.clone();
    w.dir.clear();
    spec.ck.as_mut().unwrap().dir = w.dir.0.clone();
    let whole = run_whole(p.clone(), &spec, w);
    if let End::Panic(m) = &whole.end {
        return Err(format!("the search panicked: {m}"));
    }
    if whole.log.len() > CAP {
        return Ok(());
    }
    let mut or = Oracle::new(p, &spec);
    let cs = cands(&spec, &whole.snaps.last().unwrap().1);
    let n1 = w.pool.install(|| stage1(p, &spec)).log.len();
    let all = parse(&whole.log, n1.min(whole.log.len()), &mut or, &cs);
    let depth0 = depth;
    let mut todo: Vec<(usize, Dir, usize, String)> =
        whole.snaps.iter().map(|s| (s.0, s.1.clone(), depth, format!("after {} calls", s.0))).collect();
    while let Some((pos, dir, depth, how)) = todo.pop() {
        let mut c2 = spec.clone();
        w2.clear();
        write_dir(&w2.0, &dir);
        let ckc = c2.ck.as_mut().unwrap();
        ckc.dir = w2.0.clone();
        ckc.auto = true;
        let Ok(cp) = ck::latest(ckc) else {
            if dir.keys().any(|k| k.ends_with(".bin")) {
                return Err(format!("interrupted {how}: the checkpoint does not load; files {:?}", dir.keys()));
            }
            continue;
        };
        // the same by a search built with other settings: those of the checkpoint apply
        if depth == depth0 {
            let other = run_whole(p.again(), &foreign(&c2), w);
            if !other.end.same(&whole.end) {
                return Err(format!(
                    "interrupted {how} with a checkpoint at iteration {} and resumed by a search built with other settings, the run ends with {:?} instead of {:?}",
                    cp.current_iteration, other.end, whole.end
                ));
            }
            w2.clear();
            write_dir(&w2.0, &dir);
        }
        let res = run_whole(p.again(), &c2, w);
        st.step(1);
        let detail = |m: String| {
            format!(
                "{m}\ninterrupted {how} with a checkpoint at iteration {} (threshold {}, unchanged {}, set {:?})\nuninterrupted: {:?}\nresumed: {:?}\nlocal searches of the uninterrupted run: {:?}",
                cp.current_iteration,
                cp.merit_threshold,
                cp.unchanged_cycles,
                cp.solution_set.as_ref().map(set_of),
                whole.end,
                res.end,
                all.searches.iter().map(|s| (s.pos, s.start.clone(), s.outcome.clone())).collect::<Vec<_>>()
            )
        };
        if !res.end.same(&whole.end) {
            return Err(detail("the resumed run ends differently".into()));
        }
        let par = parse(&res.log, 0, &mut or, &cs);
        // searches of the uninterrupted run at or after the checkpoint
        let mut later = all.searches.iter().filter(|s| s.pos >= pos).map(|s| &s.start);
        for s in &par.searches {
            if !later.any(|x| same(x, &s.start)) {
                return Err(detail(format!(
                    "the resumed run performs a local search from {:?}, which the uninterrupted one does not at that point; resumed searches {:?}",
                    s.start,
                    par.starts()
                )));
            }
        }
        // nothing but trial evaluations outside local searches
        if par.outside.iter().any(|o| !matches!(o.1, Ev::Obj(..))) {
            return Err(detail(format!("calls that belong to no local search: {:?}", par.outside)));
        }
        st.state(hash(&(format!("{spec:?}"), cp.current_iteration, cp.merit_threshold.to_bits(), cp.unchanged_cycles, format!("{:?}", cp.distance_filter_solutions))));
        if depth > 1 {
            // continue from the states the resumed run went through; positions in the first run
            for s in &res.snaps {
                if s.1 == dir {
                    continue;
                }
                // searches already done by the resumed run count as done
                let done = par.searches.iter().filter(|x| x.pos < s.0).count();
                let mut k = 0;
                let mut p2 = pos;
                for x in all.searches.iter().filter(|x| x.pos >= pos) {
                    if k == done {
                        break;
                    }
                    p2 = x.pos + 1;
                    if same(&x.start, &par.searches[k].start) {
                        k += 1;
                    }
                }
                todo.push((p2, s.1.clone(), depth - 1, format!("{how}, resumed, then after {} more calls", s.0)));
            }
        }
    }
    Ok(())
}

fn ckspec(freq: usize, keep_all: bool, auto: bool) -> Option<CkSpec> {
    Some(CkSpec { dir: PathBuf::new(), name: "c".into(), freq, keep_all, auto })
}

thread_local! {
    static W2: Scratch = Scratch::new("w2");
}

pub fn c14(cx: &Ctx) {
    cx.rule("every run of the scripted DFS saves checkpoints; every state of the checkpoint directory the run went through is an interruption, resumed in a new search with the same answers, and every state of the resumed run again (two interruptions); the same for ordinary functions with every solver. A state is a checkpoint's contents");
    let t = cx.thorough;
    let mut cfgs = vec![];
    let axes = Axes {
        batch: if t { vec![Batch::Off, Batch::N(2), Batch::N(3)] } else { vec![Batch::Off, Batch::N(2)] },
        wait: vec![1, 2],
        tf: vec![0.5],
        df: vec![1.0],
        exclude: vec![false, true],
        tol: vec![None],
        target: vec![None, Some(0.6)],
        seed: if t { vec![0, 3] } else { vec![0] },
        iters: if t { vec![usize::MAX, 3] } else { vec![usize::MAX] },
    };
    for s in axes.specs() {
        for (freq, keep) in [(1, false), (2, true), (3, false)] {
            if !t && (freq == 3) != (s.wait == 2 && s.target.is_none()) {
                continue;
            }
            for (geo, vals, fvals) in [
                (geo1(1), vec![1.0, 2.0, 4.0], vec![0.5, 1.5]),
                (geo1in(2), if t || (freq == 1 && s.target.is_none() && !s.exclude) { vec![1.0, 1.5, 3.0] } else { vec![1.0, 3.0] }, vec![0.5, 2.0]),
            ] {
                let mut s = s.clone();
                s.pop = geo.pts.len();
                s.iters = s.iters.min(s.pop);
                s.custom = Some(geo.custom());
                s.ck = ckspec(freq, keep, false);
                cfgs.push(Cfg { spec: s, geo, vals: nums(&vals), fvals: nums(&fvals) });
            }
        }
    }
    cx.bound("scripted configurations", cfgs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, |c, p, w, st| {
            st.sample(|| format!("{c:?}"));
            W2.with(|w2| c14_check(p, &c.spec, w, w2, if t { 3 } else { 2 }, st)).map_err(|m| format!("{m}\n{}", p.describe()))
        })
    });
    for (freq, keep) in [(1, true), (3, false)] {
        crowd_runs(cx, if t { &[(12, 1), (40, 0), (120, 0)] } else { &[(16, 1), (40, 0)] }, |c| c.spec.ck = ckspec(freq, keep, false), |c, p, w, st| {
            W2.with(|w2| c14_check(p, &c.spec, w, w2, 1, st)).map_err(|m| format!("{m}\n{}", p.describe()))
        });
    }
    let mut ls = lattice(t, &if t { vec![Batch::Off, Batch::N(2), Batch::N(5)] } else { vec![Batch::Off, Batch::N(3)] });
    ls.retain(|l| l.spec.pop < 20 && !matches!(l.fun.kind, Kind::Patchy) && (t || l.spec.seed == 0));
    let mut more = vec![];
    for l in ls {
        for (freq, keep, target) in [(1, true, None), (2, false, None), (3, true, Some(0.3))] {
            let mut l = l.clone();
            l.spec.ck = ckspec(freq, keep, false);
            l.spec.target = target;
            more.push(l);
        }
    }
    cx.bound("ordinary runs", more.len());
    cx.phase("ordinary functions", || {
        for_all(cx.st, &more, cx.deadline, |l| {
            with_worker(|w| W2.with(|w2| c14_check(&l.fun.again(), &l.spec, w, w2, 1, cx.st)))
        })
    });
    // automatic batches on several threads: the ends of resumed runs only, as the order of calls varies
    let mut auto = vec![];
    for threads in [1usize, 2, 3, 4] {
        for iters in if t { (4..=40).collect() } else { vec![4, 9, 12, 13, 18, 22, 25, 36] } {
            for kind in [Kind::Wells, Kind::Ripple, Kind::Slope] {
                for batch in [Batch::Auto, Batch::N(5)] {
                    if batch != Batch::Auto && iters % 3 != 0 {
                        continue;
                    }
                    for (i, (b, (name, solver, config))) in
                        boxes().into_iter().flat_map(|b| solvers().into_iter().filter(|s| matches!(s.0, "cobyla" | "nm")).map(move |s| (b.clone(), s))).enumerate()
                    {
                        if i != iters % 4 && !(t && i == (iters + 1) % 4) {
                            continue;
                        }
                        auto.push((
                            threads,
                            LCase {
                                fun: Fun::new(kind, &b),
                                spec: Spec { pop: iters + iters % 3, iters, wait: 2, tf: 0.4, df: 0.3, seed: iters as u64, solver, config, batch, ck: ckspec(1 + iters % 3, true, false), ..Default::default() },
                                tag: name.into(),
                            },
                        ));
                    }
                }
            }
        }
    }
    cx.bound("runs with automatic batches on 1 to 4 threads", auto.len());
    cx.phase("automatic batches", || {
        for_all(cx.st, &auto, cx.deadline, |(threads, l)| {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(*threads).build().unwrap();
            let w = Worker { pool, dir: Scratch::new("auto") };
            let mut spec = l.spec.clone();
            spec.ck.as_mut().unwrap().dir = w.dir.0.clone();
            let go = |s: &Spec| {
                let p = l.fun.again();
                let log = p.log().clone();
                w.pool.install(|| run(p, s, &log)).end
            };
            let whole = go(&spec);
            let files = read_dir(&w.dir.0);
            for (name, bytes) in files.iter().filter(|f| f.0.ends_with(".bin")) {
                let one: Dir = [(name.clone(), bytes.clone())].into_iter().collect();
                w.dir.clear();
                write_dir(&w.dir.0, &one);
                let mut s2 = spec.clone();
                s2.ck.as_mut().unwrap().auto = true;
                let end = go(&s2);
                cx.st.step(1);
                cx.st.state(hash(&(format!("{spec:?}"), name)));
                if !end.same(&whole) {
                    return Err(format!("{l:?} on {threads} threads: resumed from {name}, the run ends with {end:?} instead of {whole:?}"));
                }
            }
            Ok(())
        })
    });
}

// ------------------------------------------------------------------------------------- C15

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mod {
    None,
    Iters(usize),
    Pop(usize),
    Wait(usize),
    Tf(f64),
    Df(f64),
    Radius,
    Nm,
}
fn apply(m: Mod, s: &mut Spec) {
    match m {
        Mod::None => {}
        Mod::Iters(n) => s.iters = n,
        Mod::Pop(n) => s.pop = n,
        Mod::Wait(n) => s.wait = n,
        Mod::Tf(x) => s.tf = x,
        Mod::Df(x) => s.df = x,
        Mod::Radius => {
            s.config = LocalSolverConfig::TrustRegion {
                trust_region_radius_method: TrustRegionRadiusMethod::Steihaug,
                max_iter: 2,
                radius: 1e-3,
                max_radius: 1e7,
                eta: 0.0,
            }
        }
        Mod::Nm => {
            s.solver = LocalSolverType::NelderMead;
            s.config = LocalSolverConfig::NelderMead {
                simplex_delta: 0.1,
                sd_tolerance: 1e-4,
                max_iter: 3,
                alpha: 1.0,
                gamma: 2.0,
                rho: 0.5,
                sigma: 0.5,
            };
        }
    }
}

fn c15_one<P: Traced>(
    p: &P,
    spec: &Spec,
    bounds: &[(f64, f64)],
    dir: &Dir,
    mods: &[Mod],
    by_path: bool,
    w: &Worker,
    w2: &Scratch,
    st: &Stats,
) -> Result<(), String> {
    let mut s2 = spec.clone();
    w2.clear();
    write_dir(&w2.0, dir);
    s2.ck.as_mut().unwrap().dir = w2.0.clone();
    let Ok(cp) = ck::latest(s2.ck.as_ref().unwrap()) else { return Ok(()) };
    // options that are no parameters come from the checkpoint
    let old = if mods.len() != 1 { settings(&s2) } else { s2.clone() };
    for m in mods {
        apply(*m, &mut s2);
    }
    let (pop, iters) = (s2.pop, s2.iters);
    // the new search itself is built with the old parameters; the change comes with the resume
    let path = {
        let mut names: Vec<_> = dir.keys().filter(|k| k.ends_with(".bin")).collect();
        names.sort();
        w2.0.join(names.last().unwrap())
    };
    let q = p.again();
    let log = q.log().clone();
    let end = w.pool.install(|| {
        let cbs = Default::default();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<End, String> {
            let mut o = build(q, &old, &log, &cbs)?;
            if by_path {
                o.resume_from_checkpoint_with_params(&path, s2.params()).map_err(|e| format!("resuming failed: {e}"))?;
            } else if !o.resume_with_modified_params(s2.params()).map_err(|e| format!("resuming failed: {e}"))? {
                return Err("resume_with_modified_params found no checkpoint".into());
            }
            Ok(run_built(&mut o))
        }))
    });
    let end = match end {
        Ok(r) => r?,
        Err(e) => return Err(format!("resuming panicked: {}", panic_text(e))),
    };
    let log = log.take();
    st.step(1);
    let fin = ck::latest(s2.ck.as_ref().unwrap()).map_err(|e| format!("no checkpoint after the resumed run: {e}"))?;
    let before = ck::refset(&cp);
    let after = ck::refset(&fin);
    let detail = |m: String| {
        format!(
            "{m}\nchanged: {mods:?} (by path: {by_path})\ncheckpoint: iteration {} threshold {} unchanged {} set {:?} filter {:?} reference set {before:?}\nresult: {end:?}\nfinal: iteration {} threshold {} reference set {after:?}",
            cp.current_iteration,
            cp.merit_threshold,
            cp.unchanged_cycles,
            cp.solution_set.as_ref().map(set_of),
            ck::filter(&cp),
            fin.current_iteration,
            fin.merit_threshold
        )
    };
    // reference set
    let want_len = if pop > cp.params.population_size { pop } else { before.len() };
    if after.len() != want_len || !before.iter().zip(&after).all(|(a, b)| same(a, b)) {
        return Err(detail(format!("the reference set of {} points must be continued unchanged to {want_len} points", before.len())));
    }
    if after.iter().any(|x| !inside(x, bounds)) {
        return Err(detail("a reference point lies outside the bounds".into()));
    }
    // parameters in effect are the ones checkpointed from now on
    let want = s2.params();
    let (a, b) = (&want, &fin.params);
    if (a.iterations, a.population_size, a.wait_cycle, a.seed) != (b.iterations, b.population_size, b.wait_cycle, b.seed)
        || a.threshold_factor != b.threshold_factor
        || a.distance_factor != b.distance_factor
        || a.local_solver_type != b.local_solver_type
        || cfg_repr(&a.local_solver_config) != cfg_repr(&b.local_solver_config)
    {
        return Err(detail(format!("the next checkpoint has other parameters: {b:?}")));
    }
    // continue the model
    let mut or = Oracle::new(p, &s2);
    let mut m = Model::new(&s2, bounds);
    m.thr = cp.merit_threshold;
    m.unchanged = cp.unchanged_cycles;
    m.set = cp.solution_set.as_ref().map(set_of).unwrap_or_default();
    m.found = ck::filter(&cp);
    let val = |x: &Pt| p.again().objective(&a1(x)).ok();
    let trials: Vec<(Pt, Option<f64>)> =
        after.iter().take(iters).skip(cp.current_iteration).map(|x| (x.clone(), val(x))).collect();
    let mut starts: Vec<Pt> = vec![];
    for b in trials.chunks(s2.batch_len()) {
        if m.hit(s2.target) {
            break;
        }
        let Some(b): Option<Vec<(Pt, f64)>> = b.iter().map(|x| x.1.map(|v| (x.0.clone(), v))).collect() else { return Ok(()) };
        match m.batch(&b, |x, _| or.solve(x).1.clone()) {
            Ok(s) => starts.extend(s),
            Err(_) => return Ok(()),
        }
        st.state(m.key());
    }
    let cands = if s2.solver == LocalSolverType::COBYLA { after.clone() } else { vec![] };
    let par = parse(&log, 0, &mut or, &cands);
    let got = par.starts();
    if got.len() != starts.len() || !got.iter().zip(&starts).all(|(a, b)| same(a, b)) {
        return Err(detail(format!("local searches started at {got:?} instead of {starts:?}")));
    }
    match &end {
        End::Ok(set) => {
            let key = |s: &[(Pt, f64)]| {
                let mut v: Vec<_> = s.iter().map(|x| (bits(&x.0), x.1.to_bits())).collect();
                v.sort();
                v
            };
            if key(set) != key(&m.set) {
                return Err(detail(format!("the solution set must be {:?}", m.set)));
            }
        }
        End::Err(_) if m.set.is_empty() => {}
        _ => return Err(detail("the resumed run failed".into())),
    }
    if fin.merit_threshold.to_bits() != m.thr.to_bits() {
        return Err(detail(format!("the threshold must end at {}", m.thr)));
    }
    Ok(())
}

fn c15_check<P: Traced>(p: &P, spec: &Spec, bounds: &[(f64, f64)], mods: &[Vec<Mod>], w: &Worker, w2: &Scratch, st: &Stats) -> Result<(), String> {
    let mut spec = spec.clone();
    w.dir.clear();
    spec.ck.as_mut().unwrap().dir = w.dir.0.clone();
    let auto = std::mem::replace(&mut spec.ck.as_mut().unwrap().auto, false);
    let whole = run_whole(p.clone(), &spec, w);
    if whole.log.len() > CAP {
        return Ok(());
    }
    spec.ck.as_mut().unwrap().auto = auto;
    for (_, d) in &whole.snaps {
        for (i, m) in mods.iter().enumerate() {
            c15_one(p, &spec, bounds, d, m, i % 2 == 1, w, w2, st)?;
        }
    }
    Ok(())
}

fn mods(pop: usize, t: bool) -> Vec<Vec<Mod>> {
    let one = vec![
        Mod::Iters(pop + 3),
        Mod::Iters(2),
        Mod::Pop(pop + 3),
        Mod::Pop(pop - 1),
        Mod::Pop(pop + 1),
        Mod::Pop(3 * pop + 20),
        Mod::Wait(1),
        Mod::Wait(3),
        Mod::Tf(5.0),
        Mod::Tf(0.01),
        Mod::Df(0.0),
        Mod::Df(3.0),
        Mod::Radius,
        Mod::Nm,
    ];
    let mut v = vec![vec![Mod::None], vec![Mod::None]];
    for m in &one {
        // once through each of the two interfaces
        v.push(vec![*m]);
        v.push(vec![*m]);
    }
    let both = vec![Mod::Pop(pop + 3), Mod::Iters(pop + 3)];
    for m in &one[6..] {
        v.push([both.clone(), vec![*m]].concat());
    }
    v.push(both.clone());
    v.push(both);
    for n in [pop + 1, 2 * pop, 2 * pop + 1, 7 * pop] {
        v.push(vec![Mod::Pop(n), Mod::Iters(n)]);
        v.push(vec![Mod::Pop(n), Mod::Iters(n)]);
    }
    if t {
        for (i, a) in one.iter().enumerate() {
            for b in &one[i + 1..] {
                v.push(vec![*a, *b]);
                v.push(vec![*a, *b]);
            }
        }
    }
    v
}

pub fn c15(cx: &Ctx) {
    cx.rule("every scripted run is interrupted at every state of its checkpoint directory and resumed with every changed parameter (and pairs) through both interfaces, with automatic resume on and off; starts of local searches, final set, threshold, reference set and checkpointed parameters are compared with the reference model continued from the checkpoint. A state is the model state after a batch");
    let t = cx.thorough;
    let mut cfgs = vec![];
    let axes = Axes {
        batch: if t { vec![Batch::Off, Batch::N(2), Batch::N(3)] } else { vec![Batch::Off, Batch::N(3)] },
        wait: vec![2],
        tf: vec![0.5],
        df: vec![1.0],
        exclude: if t { vec![false, true] } else { vec![false] },
        target: if t { vec![None, Some(0.4)] } else { vec![None] },
        iters: vec![3, usize::MAX],
        ..Default::default()
    };
    for s in axes.specs() {
        for auto in [false, true] {
            let (geo, vals, fvals) = (geo1in(1), vec![1.0, 3.0], if t { vec![0.5, 2.0, 0.3] } else { vec![0.5, 2.0] });
            let mut s = s.clone();
            s.pop = geo.pts.len();
            s.iters = s.iters.min(s.pop);
            s.custom = Some(geo.custom());
            s.ck = ckspec(1, true, auto);
            cfgs.push(Cfg { spec: s, geo, vals: nums(&vals), fvals: nums(&fvals) });
        }
    }
    let ms = mods(4, t);
    cx.bound("scripted configurations", cfgs.len());
    cx.bound("parameter changes", ms.len());
    cx.phase("scripted landscapes", || {
        explore(cx.st, &cfgs, cx.deadline, worker, |c, ch, w| {
            let w = w.downcast_ref::<Worker>().unwrap();
            let mut p = Script::new(c.geo.clone(), c.vals.clone(), c.fvals.clone(), std::mem::take(ch));
            p.other = Some(2.5);
            cx.st.sample(|| format!("{c:?}"));
            let r = W2.with(|w2| c15_check(&p, &c.spec, &c.geo.bounds, &ms, w, w2, cx.st)).map_err(|m| format!("{m}\n{}", p.describe()));
            *ch = p.take_choices();
            r
        })
    });
    let big = |c: &mut Cfg| {
        c.spec.ck = ckspec(5, true, false);
        c.spec.iters -= 4;
    };
    let check = |c: &Cfg, p: &Script, w: &Worker, st: &Stats| {
        let ms = mods(c.spec.pop, false);
        let mut q = p.clone();
        q.other = Some(2.5);
        W2.with(|w2| c15_check(&q, &c.spec, &c.geo.bounds, &ms, w, w2, st)).map_err(|m| format!("{m}\n{}", p.describe()))
    };
    crowd_runs(cx, if t { &[(16, 1), (40, 0)] } else { &[(16, 0), (40, 0)] }, big, check);
    let mut ls = lattice(t, &[Batch::Off, Batch::N(3)]);
    ls.retain(|l| l.spec.pop < 10 && !matches!(l.fun.kind, Kind::Patchy) && l.spec.seed == 0 && ["tr", "nm", "cobyla"].contains(&&l.tag[..]));
    for (i, l) in ls.iter_mut().enumerate() {
        l.spec.ck = ckspec(1 + i % 2, i % 3 == 0, i % 2 == 0);
    }
    cx.bound("ordinary runs", ls.len());
    cx.phase("ordinary functions", || {
        for_all(cx.st, &ls, cx.deadline, |l| {
            let ms: Vec<Vec<Mod>> = mods(l.spec.pop, false).into_iter().filter(|m| !m.contains(&Mod::Radius) || l.tag == "tr").collect();
            with_worker(|w| W2.with(|w2| c15_check(&l.fun.again(), &l.spec, &l.fun.bounds, &ms, w, w2, cx.st)))
        })
    });
}
