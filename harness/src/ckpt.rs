//! C11, C12, C13: the checkpoint store under crashes, operation sequences and damaged files.
use crate::core::*;
use crate::explore::*;
use crate::fsfault::*;
use crate::report::Ctx;
use globalsearch::checkpoint::*;
use globalsearch::local_solver::builders::*;
use globalsearch::types::*;
use ndarray::Array1;
use std::collections::BTreeMap;
use std::path::Path;

fn sol(p: &[f64], v: f64) -> LocalSolution {
    LocalSolution { point: a1(p), objective: v }
}

/// The `k`-th of a family of distinct checkpoints; its size varies with `k`.
pub fn sample(k: usize) -> OQNLPCheckpoint {
    let f = k as f64;
    let (st, cfg) = tr_config();
    OQNLPCheckpoint {
        params: OQNLPParams {
            iterations: 10 + k,
            population_size: 20 + k,
            wait_cycle: 3 + k,
            threshold_factor: 0.25 + f,
            distance_factor: 0.5 + f,
            local_solver_type: st,
            local_solver_config: cfg,
            seed: 77 + k as u64,
        },
        current_iteration: k,
        merit_threshold: -1.5 * f,
        solution_set: Some(SolutionSet {
            solutions: Array1::from(vec![sol(&[f, -f], f + 0.5); 1 + (3 - k % 4)]),
        }),
        reference_set: (0..4 - k % 3).map(|i| a1(&[i as f64, f])).collect(),
        unchanged_cycles: k % 5,
        elapsed_time: 0.1 * f,
        distance_filter_solutions: vec![sol(&[f, 1.0], 2.0)],
        current_seed: 100 + k as u64,
        target_objective: if k % 2 == 0 { Some(f) } else { None },
        exclude_out_of_bounds: k % 2 == 1,
        batch_iterations: if k % 3 == 0 { Some(k) } else { None },
        enable_parallel: k % 2 == 0,
        abs_tol: 1e-8 * (f + 1.0),
        rel_tol: 1e-6 * (f + 1.0),
        timestamp: format!("time {k}"),
    }
}

fn manager(dir: &Path, name: &str, keep_all: bool) -> CheckpointManager {
    CheckpointManager::new(CheckpointConfig {
        checkpoint_dir: dir.to_path_buf(),
        checkpoint_name: name.into(),
        save_frequency: 1,
        keep_all,
        auto_resume: false,
    })
    .unwrap()
}

fn listing(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default());
        }
    }
    m
}

thread_local! {
    static SCR: Scratch = Scratch::new("ck");
}

// ------------------------------------------------------------------------------------- C11

#[derive(Clone, Debug)]
struct Crash {
    keep_all: bool,
    /// (iteration, contents) saved before the interrupted one
    before: Vec<(usize, usize)>,
    /// interrupted saves with the plan of each
    broken: Vec<((usize, usize), Plan)>,
    after: (usize, usize),
}

/// Contents the store may give as latest, by the model: every combination of interrupted saves
/// that did or did not take effect.
fn c11_run(c: &Crash, dir: &Path) -> Result<(), String> {
    let m = manager(dir, "opt", c.keep_all);
    let newest = |saved: &[(usize, usize)]| -> Option<usize> {
        if c.keep_all {
            let top = saved.iter().map(|s| s.0).max()?;
            saved.iter().rev().find(|s| s.0 == top).map(|s| s.1)
        } else {
            saved.last().map(|s| s.1)
        }
    };
    for (i, k) in &c.before {
        m.save_checkpoint(&sample(*k), *i).map_err(|e| format!("an undisturbed save failed: {e}"))?;
    }
    let mut worlds: Vec<Vec<(usize, usize)>> = vec![c.before.clone()];
    let check = |worlds: &mut Vec<Vec<(usize, usize)>>, when: &str| -> Result<(), String> {
        let m = manager(dir, "opt", c.keep_all);
        let got = m.load_latest_checkpoint();
        if m.checkpoint_exists() != got.is_ok() {
            return Err(format!("{when}: checkpoint_exists is {} but loading gives {:?}", m.checkpoint_exists(), got.map(|c| c.timestamp).map_err(|e| e.to_string())));
        }
        let got = match got {
            Ok(c) => Some(ck_repr(&c)),
            Err(e) => {
                if worlds.iter().all(|w| !w.is_empty()) {
                    return Err(format!("{when}: a complete checkpoint was saved before, but loading the latest fails: {e}"));
                }
                None
            }
        };
        worlds.retain(|w| newest(w).map(|k| ck_repr(&sample(k))) == got);
        if worlds.is_empty() {
            return Err(format!("{when}: the latest checkpoint is neither the previous nor the new one: {got:?}"));
        }
        Ok(())
    };
    for ((i, k), plan) in &c.broken {
        let (r, _) = with_plan(dir, plan.clone(), || {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.save_checkpoint(&sample(*k), *i).map(|_| ()).map_err(|e| e.to_string())))
        });
        let r = r.map_err(|e| format!("the save panicked: {}", panic_text(e)))?;
        let died = matches!(plan, Plan::Die(_) | Plan::Torn(..) | Plan::Opened(_));
        let with: Vec<_> = worlds
            .iter()
            .map(|w| {
                let mut w = w.clone();
                w.push((*i, *k));
                w
            })
            .collect();
        if !died && r.is_ok() {
            worlds = with;
        } else {
            worlds.extend(with);
        }
        check(&mut worlds, &format!("after an interrupted save ({plan:?})"))?;
    }
    let (i, k) = c.after;
    m.save_checkpoint(&sample(k), i).map_err(|e| format!("a save after the interruption failed: {e}"))?;
    for w in &mut worlds {
        w.push((i, k));
    }
    check(&mut worlds, "after a further save")?;
    m.cleanup_old_checkpoints(1).map_err(|e| format!("cleanup after the interruption failed: {e}"))?;
    check(&mut worlds, "after a cleanup")?;
    if c.keep_all {
        let n = listing(dir).keys().filter(|f| f.starts_with("opt_") && f.ends_with(".bin")).count();
        if n != 1 {
            return Err(format!("cleanup(1) left {n} checkpoints: {:?}", listing(dir).keys()));
        }
    }
    Ok(())
}

pub fn c11(cx: &Ctx) {
    cx.level("fault_enumeration");
    cx.rule("for every history of complete saves, every file operation of the next save (recorded at the C library's boundary) is a crash point or a failure, every write is torn after each possible byte count; then again for two interrupted saves in a row with selected byte counts; after each, latest/exists/save/cleanup are compared with all worlds in which the interrupted saves did or did not happen. Non-trivial: distinct (history, interruption) executions");
    let t = cx.thorough;
    // what a save does
    let mut cases = vec![];
    let scr = Scratch::new("c11");
    for keep_all in [false, true] {
        let orders: Vec<(Vec<(usize, usize)>, (usize, usize), (usize, usize))> = vec![
            (vec![], (0, 1), (1, 2)),
            (vec![], (3, 1), (3, 2)),
            (vec![(1, 1)], (2, 2), (3, 3)),
            (vec![(1, 2)], (1, 1), (1, 3)),
            (vec![(1, 3)], (2, 1), (2, 2)),
            (vec![(5, 1)], (2, 2), (3, 3)),
            (vec![(0, 1), (999_999, 2)], (1_000_000, 3), (7, 4)),
            (vec![(1, 1), (2, 2)], (3, 3), (4, 4)),
            (vec![(1, 1), (2, 2)], (2, 3), (4, 4)),
        ];
        for (before, b, after) in orders {
            scr.clear();
            let m = manager(&scr.0, "opt", keep_all);
            for (i, k) in &before {
                m.save_checkpoint(&sample(*k), *i).unwrap();
            }
            let (_, steps) = with_plan(&scr.0, Plan::Record, || m.save_checkpoint(&sample(b.1), b.0).unwrap());
            cx.st.count("file operations of the recorded saves", steps.len() as u64);
            if steps.is_empty() {
                cx.st.violation("recording".into(), String::new(), "no file operation of a save was seen".into());
                return;
            }
            for p in plans(&steps, |n| if n <= 64 || t { (0..=n).collect() } else { (0..=n).collect() }) {
                cases.push(Crash { keep_all, before: before.clone(), broken: vec![(b, p)], after });
            }
            let few = plans(&steps, |n| if t { (0..=n).step_by(7).chain([n]).collect() } else { vec![0, 1, n / 2, n.saturating_sub(1), n] });
            for p in &few {
                for q in &few {
                    for second in [(b.0, 4), (b.0 + 1, 4)] {
                        cases.push(Crash { keep_all, before: before.clone(), broken: vec![(b, p.clone()), (second, q.clone())], after });
                    }
                }
            }
        }
    }
    cx.bound("interrupted histories", cases.len());
    cx.phase("interrupted saves", || {
        for_all(cx.st, &cases, cx.deadline, |c| {
            cx.st.state(hash(&format!("{c:?}")));
            cx.st.step(c.before.len() as u64 + c.broken.len() as u64 + 2);
            cx.st.sample(|| format!("{c:?}"));
            SCR.with(|s| {
                s.clear();
                c11_run(c, &s.0)
            })
        })
    });
}

// ------------------------------------------------------------------------------------- C12

const FOREIGN: [&str; 14] = [
    "opt_abc.bin", "opt_.bin", "opt_00003.bin", "opt_0000003.bin", "notes.txt", "xopt_000009.bin", "opt3_000009.bin", "opt_+00009.bin", "opt_000009.BIN",
    "opt_000009.bin.bak", "opt_000009", "opt_old_000009.bin", "opt-000009.bin", "Opt_000009.bin",
];

#[derive(Clone, Debug)]
struct StoreCfg {
    names: [&'static str; 2],
    keep: [bool; 2],
    foreign: usize,
    depth: usize,
}

#[derive(Default, Clone)]
struct StoreModel {
    /// per manager: iteration -> contents (keep-latest uses the key 0)
    files: [BTreeMap<usize, usize>; 2],
}

fn c12_seq(c: &StoreCfg, ch: &mut Choices, st: &Stats, dir: &Path) -> Result<(), String> {
    let ms = [manager(dir, c.names[0], c.keep[0]), manager(dir, c.names[1], c.keep[1])];
    let foreign: Vec<&str> = (0..FOREIGN.len()).filter(|i| c.foreign >> i & 1 == 1).map(|i| FOREIGN[i]).collect();
    for f in &foreign {
        std::fs::write(dir.join(f), f.as_bytes()).unwrap();
    }
    let mut mo = StoreModel::default();
    let iters = [0usize, 1, 2, 999_999, 1_000_000];
    let mut done = String::new();
    for step in 0..c.depth {
        let op = ch.pick(12);
        match op {
            0..=7 => {
                let (w, i) = if op < 5 { (0, iters[op]) } else { (1, [0, 1, 10][op - 5]) };
                let k = step + 1;
                done += &format!("save({}, {i}); ", c.names[w]);
                let p = ms[w].save_checkpoint(&sample(k), i).map_err(|e| format!("{done}failed: {e}"))?;
                mo.files[w].insert(if c.keep[w] { i } else { 0 }, k);
                // the returned path is the file just written
                let l = ms[w].load_checkpoint_from_path(&p).map_err(|e| format!("{done}loading the path returned by save failed: {e}"))?;
                if ck_repr(&l) != ck_repr(&sample(k)) {
                    return Err(format!("{done}the path returned by save holds {}", ck_repr(&l)));
                }
            }
            _ => {
                let (w, n) = [(0, 1), (0, 2), (1, 1), (0, 3)][op - 8];
                done += &format!("cleanup({}, {n}); ", c.names[w]);
                ms[w].cleanup_old_checkpoints(n).map_err(|e| format!("{done}failed: {e}"))?;
                if c.keep[w] {
                    while mo.files[w].len() > n {
                        mo.files[w].pop_first();
                    }
                }
            }
        }
        for w in 0..2 {
            let want = mo.files[w].last_key_value().map(|x| ck_repr(&sample(*x.1)));
            let got = ms[w].load_latest_checkpoint();
            if ms[w].checkpoint_exists() != want.is_some() {
                return Err(format!("{done}checkpoint_exists({}) is {}", c.names[w], want.is_none()));
            }
            match (&want, got) {
                (None, Ok(g)) => return Err(format!("{done}nothing saved for {}, but loaded {}", c.names[w], ck_repr(&g))),
                (Some(w2), Ok(g)) if *w2 == ck_repr(&g) => {}
                (None, Err(_)) => {}
                (Some(w2), g) => {
                    return Err(format!(
                        "{done}latest of {} should be {w2}, loaded {:?}",
                        c.names[w],
                        g.map(|g| ck_repr(&g)).map_err(|e| e.to_string())
                    ));
                }
            }
            let fresh = manager(dir, c.names[w], c.keep[w]);
            if fresh.checkpoint_exists() != want.is_some() {
                return Err(format!("{done}a new manager disagrees about {}", c.names[w]));
            }
        }
        let l = listing(dir);
        let bins = l.len();
        let expect = mo.files[0].len() + mo.files[1].len() + foreign.len();
        if bins != expect {
            return Err(format!("{done}{expect} files expected, found {:?}", l.keys()));
        }
        for f in &foreign {
            if l.get(*f).map(|b| &b[..]) != Some(f.as_bytes()) {
                return Err(format!("{done}the file {f} of somebody else was changed or removed"));
            }
        }
        st.state(hash(&(c.names, c.keep, c.foreign, &mo.files)));
    }
    st.sample(|| format!("{c:?}: {done}"));
    Ok(())
}

pub fn roundtrips(t: bool) -> Vec<OQNLPCheckpoint> {
    let nums = [0.0, -0.0, 1.5, f64::MIN_POSITIVE, f64::MAX, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let mut v = vec![];
    let base = || sample(1);
    for n in nums {
        let mut c = base();
        c.merit_threshold = n;
        v.push(c);
        let mut c = base();
        c.elapsed_time = n;
        v.push(c);
        let mut c = base();
        c.target_objective = Some(n);
        v.push(c);
        let mut c = base();
        c.abs_tol = n;
        v.push(c);
        let mut c = base();
        c.rel_tol = n;
        v.push(c);
        let mut c = base();
        c.params.threshold_factor = n;
        v.push(c);
        let mut c = base();
        c.params.distance_factor = n;
        v.push(c);
        for m in nums {
            let mut c = base();
            c.solution_set = Some(SolutionSet { solutions: Array1::from(vec![sol(&[n, m], m), sol(&[m], n)]) });
            c.distance_filter_solutions = vec![sol(&[m], n), sol(&[], m), sol(&[n, n, m], n)];
            c.reference_set = vec![a1(&[n]), a1(&[m, n]), a1(&[])];
            v.push(c);
        }
    }
    for n in [0, 1, 3, 250, 65_536, usize::MAX] {
        let mut c = base();
        c.current_iteration = n;
        v.push(c);
        let mut c = base();
        c.unchanged_cycles = n;
        v.push(c);
        let mut c = base();
        c.params.iterations = n;
        v.push(c);
        let mut c = base();
        c.params.population_size = n;
        v.push(c);
        let mut c = base();
        c.params.wait_cycle = n;
        v.push(c);
        let mut c = base();
        c.params.seed = n as u64;
        v.push(c);
        let mut c = base();
        c.current_seed = n as u64;
        v.push(c);
        let mut c = base();
        c.batch_iterations = Some(n);
        v.push(c);
    }
    for (e, p) in [(true, true), (true, false), (false, true), (false, false)] {
        for b in [None, Some(0), Some(7)] {
            for tg in [None, Some(-3.0)] {
                for set in [None, Some(0), Some(1), Some(3)] {
                    let mut c = base();
                    c.exclude_out_of_bounds = e;
                    c.enable_parallel = p;
                    c.batch_iterations = b;
                    c.target_objective = tg;
                    c.solution_set = set.map(|n| SolutionSet { solutions: Array1::from(vec![sol(&[1.0, 2.0], 0.5); n]) });
                    v.push(c);
                }
            }
        }
    }
    for r in 0..if t { 40 } else { 12 } {
        for d in 0..4 {
            let mut c = base();
            c.reference_set = (0..r).map(|i| (0..d).map(|j| (i * 10 + j) as f64).collect()).collect();
            c.distance_filter_solutions = (0..r).map(|i| sol(&vec![i as f64; d], i as f64)).collect();
            v.push(c);
        }
    }
    // large ones
    for (r, d) in [(70, 5), (300, 40), (1500, 2), (3, 700)] {
        let mut c = base();
        c.reference_set = (0..r).map(|i| (0..d).map(|j| (i * 10 + j) as f64 / 3.0).collect()).collect();
        c.distance_filter_solutions = (0..r / 2).map(|i| sol(&vec![i as f64 / 7.0; d], i as f64)).collect();
        c.solution_set = Some(SolutionSet { solutions: (0..r).map(|i| sol(&vec![i as f64 / 9.0; d], -(i as f64))).collect() });
        v.push(c);
    }
    for ts in ["", "2024-01-01T00:00:00Z", "\u{e9}\u{4e2d}\u{1f600}\0\n", &"x".repeat(5000)] {
        let mut c = base();
        c.timestamp = ts.into();
        v.push(c);
    }
    for (ty, cfg) in all_configs() {
        let mut c = base();
        c.params.local_solver_type = ty;
        c.params.local_solver_config = cfg;
        v.push(c);
    }
    v
}

/// Every kind of configuration, with a distinct value in every field.
pub fn all_configs() -> Vec<(LocalSolverType, LocalSolverConfig)> {
    let mt = LineSearchParams {
        method: LineSearchMethod::MoreThuente { c1: 0.11, c2: 0.91, width_tolerance: 0.013, bounds: a1(&[0.17, 19.0]) },
    };
    let hz = LineSearchParams {
        method: LineSearchMethod::HagerZhang {
            delta: 0.11,
            sigma: 0.91,
            epsilon: 0.013,
            theta: 0.47,
            gamma: 0.67,
            eta: 0.019,
            bounds: a1(&[0.17, 19.0]),
        },
    };
    let mut v = vec![];
    for ls in [mt, hz] {
        for l1 in [None, Some(0.23)] {
            v.push((
                LocalSolverType::LBFGS,
                LocalSolverConfig::LBFGS {
                    max_iter: 31,
                    tolerance_grad: 0.37,
                    tolerance_cost: 0.41,
                    history_size: 43,
                    l1_coefficient: l1,
                    line_search_params: ls.clone(),
                },
            ));
        }
        v.push((LocalSolverType::SteepestDescent, LocalSolverConfig::SteepestDescent { max_iter: 47, line_search_params: ls.clone() }));
        v.push((
            LocalSolverType::NewtonCG,
            LocalSolverConfig::NewtonCG { max_iter: 53, curvature_threshold: 0.59, tolerance: 0.61, line_search_params: ls.clone() },
        ));
    }
    v.push((
        LocalSolverType::NelderMead,
        LocalSolverConfig::NelderMead { simplex_delta: 0.67, sd_tolerance: 0.71, max_iter: 73, alpha: 0.79, gamma: 0.83, rho: 0.89, sigma: 0.97 },
    ));
    for m in [TrustRegionRadiusMethod::Cauchy, TrustRegionRadiusMethod::Steihaug] {
        v.push((
            LocalSolverType::TrustRegion,
            LocalSolverConfig::TrustRegion { trust_region_radius_method: m, max_iter: 101, radius: 1.03, max_radius: 1.07, eta: 0.109 },
        ));
    }
    for x in [vec![], vec![0.113], vec![0.127, 0.131]] {
        v.push((
            LocalSolverType::COBYLA,
            LocalSolverConfig::COBYLA { max_iter: 137, initial_step_size: 0.139, ftol_rel: 0.149, ftol_abs: 0.151, xtol_rel: 0.157, xtol_abs: x },
        ));
    }
    v
}

pub fn c12(cx: &Ctx) {
    cx.rule("every sequence of saves (five iterations of one name, three of another) and cleanups up to the depth bound, in every combination of names, retention modes and foreign files, run on the real store and compared with a map model after every operation; plus a round trip for every value of every checkpoint field");
    let t = cx.thorough;
    let rt = roundtrips(t);
    cx.bound("round trips", rt.len());
    cx.phase("round trips", || {
        let idx: Vec<usize> = (0..rt.len()).collect();
        for_all(cx.st, &idx, cx.deadline, |i| {
            let c = &rt[*i];
            SCR.with(|s| {
                for keep in [false, true] {
                    s.clear();
                    let m = manager(&s.0, "opt", keep);
                    let p = m.save_checkpoint(c, c.current_iteration).map_err(|e| format!("saving {} failed: {e}", ck_repr(c)))?;
                    for (how, l) in [
                        ("latest", m.load_latest_checkpoint()),
                        ("path", m.load_checkpoint_from_path(&p)),
                        ("file", read_checkpoint_file(&p)),
                    ] {
                        let l = l.map_err(|e| format!("loading ({how}) {} failed: {e}", ck_repr(c)))?;
                        if ck_repr(&l) != ck_repr(c) {
                            return Err(format!("loading ({how}) gives {}\ninstead of {}", ck_repr(&l), ck_repr(c)));
                        }
                    }
                }
                cx.st.state(hash(&ck_repr(c)));
                Ok(())
            })
        })
    });
    let mut cfgs = vec![];
    for names in [["opt", "opt2"], ["opt", "opt_b"], ["my.opt", "my"], ["opt_7", "opt"]] {
        for keep in [[false, false], [true, true], [true, false], [false, true]] {
            for foreign in [0x3fff] {
                let depth = if t { 5 } else { 4 };
                cfgs.push(StoreCfg { names, keep, foreign, depth });
            }
        }
    }
    cx.bound("store configurations", cfgs.len());
    let lg = longs(t);
    cx.bound("long histories", lg.len());
    cx.phase("long histories", || {
        for_all(cx.st, &lg, cx.deadline, |l| {
            SCR.with(|s| {
                s.clear();
                c12_long(l, cx.st, &s.0)
            })
        })
    });
    cx.bound("sequence depth", if t { 5 } else { 4 });
    cx.phase("operation sequences", || {
        explore(
            cx.st,
            &cfgs,
            cx.deadline,
            || Box::new(Scratch::new("c12")),
            |c, ch, w| {
                let s = w.downcast_ref::<Scratch>().unwrap();
                s.clear();
                c12_seq(c, ch, cx.st, &s.0)
            },
        )
    });
}

/// Many saves in one order, then cleanups.
#[derive(Clone, Debug)]
struct Long {
    name: String,
    iters: Vec<usize>,
    cleanups: Vec<usize>,
    sub: &'static str,
}
fn c12_long(l: &Long, st: &Stats, dir: &Path) -> Result<(), String> {
    let dir = dir.join(l.sub);
    let m = manager(&dir, &l.name, true);
    let latest = manager(&dir, &l.name, false);
    let mut mo: BTreeMap<usize, usize> = BTreeMap::new();
    let check = |mo: &BTreeMap<usize, usize>, how: String| -> Result<(), String> {
        st.step(1);
        st.state(hash(&(&l.name, mo)));
        let want = mo.last_key_value().map(|(i, k)| (*i, *k));
        match (want, m.load_latest_checkpoint()) {
            (Some((_, k)), Ok(g)) if ck_repr(&g) == ck_repr(&sample(k)) => {}
            (w, g) => return Err(format!("{how}: the latest should be {w:?}, loaded {:?}", g.map(|g| ck_repr(&g)).map_err(|e| e.to_string()))),
        }
        if !m.checkpoint_exists() {
            return Err(format!("{how}: checkpoint_exists says there is none"));
        }
        let n = listing(&dir).keys().filter(|f| f.ends_with(".bin")).count();
        if n != mo.len() {
            return Err(format!("{how}: {} checkpoints expected, found {:?}", mo.len(), listing(&dir).keys()));
        }
        Ok(())
    };
    for (n, i) in l.iters.iter().enumerate() {
        let k = n % 9 + 1;
        let p = m.save_checkpoint(&sample(k), *i).map_err(|e| format!("saving iteration {i} failed: {e}"))?;
        mo.insert(*i, k);
        let g = m.load_checkpoint_from_path(&p).map_err(|e| format!("loading iteration {i} by path failed: {e}"))?;
        if ck_repr(&g) != ck_repr(&sample(k)) {
            return Err(format!("the path returned for iteration {i} holds {}", ck_repr(&g)));
        }
        check(&mo, format!("after {} saves, the last of iteration {i}", n + 1))?;
    }
    for n in &l.cleanups {
        m.cleanup_old_checkpoints(*n).map_err(|e| format!("cleanup({n}) failed: {e}"))?;
        while mo.len() > *n {
            mo.pop_first();
        }
        check(&mo, format!("after cleanup({n})"))?;
    }
    // keep-latest is a store of its own
    if latest.checkpoint_exists() || latest.load_latest_checkpoint().is_ok() {
        return Err("a keep-latest manager sees the numbered checkpoints".into());
    }
    Ok(())
}

fn longs(t: bool) -> Vec<Long> {
    let mut v = vec![];
    let sizes: &[usize] = if t { &[2, 9, 10, 11, 40, 101, 300] } else { &[2, 10, 11, 101] };
    for name in ["opt", "a.b.c", "with space", "opt_000001", "\u{e9}\u{4e2d}", "opt.bin", "-", "9", "opt_", "OPT", "opt.bin.tmp", "opt*?[x]"] {
        for &n in sizes {
            if n > 11 && name != "opt" && !(t && n < 50) {
                continue;
            }
            for base in [0usize, 1, 95, 99_990, 999_995, 9_999_996, 4_294_967_290, usize::MAX - 400] {
                for order in 0..4 {
                    let iters: Vec<usize> = (0..n)
                        .map(|i| match order {
                            0 => i,
                            1 => n - 1 - i,
                            2 => (i * 7 + 3) % n,
                            _ => i / 2 * 3,
                        })
                        .map(|i| base + i)
                        .collect();
                    v.push(Long {
                        name: name.into(),
                        iters,
                        cleanups: vec![n + 1, n, n - 1, (n / 2).max(1), 1],
                        sub: if order == 2 { "new/nested dir" } else { "d" },
                    });
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------- C13

fn bases() -> Vec<OQNLPCheckpoint> {
    let mut v = vec![sample(0), sample(1)];
    for (ty, cfg) in all_configs() {
        let mut c = sample(3);
        c.params.local_solver_type = ty;
        c.params.local_solver_config = cfg;
        v.push(c);
    }
    let mut c = sample(2);
    c.solution_set = None;
    c.reference_set = vec![];
    c.distance_filter_solutions = vec![];
    v.push(c);
    v
}

#[derive(Clone, Debug)]
enum Damage {
    Cut(usize),
    Byte(usize, u8),
    Bytes(usize, Vec<u8>),
    Whole(Vec<u8>),
}

fn damages(b: &[u8], full: bool) -> Vec<Damage> {
    let n = b.len();
    let mut v: Vec<Damage> = (0..n).map(Damage::Cut).collect();
    for i in 0..n {
        let vals: Vec<u8> = if full {
            (0..=255).collect()
        } else {
            vec![0, 1, 2, 3, 5, 6, 7, 8, 0x10, 0x20, 0x40, 0x7f, 0x80, 0xff, b[i] ^ 1, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80]
        };
        for x in vals {
            if x != b[i] {
                v.push(Damage::Byte(i, x));
            }
        }
        // whole eight-byte words: lengths are stored so
        for w in [u64::MAX, 1 << 63, 1 << 62, 1 << 60, (1 << 60) - 1, 1 << 40, 1 << 33, 1 << 32, 1 << 31, 1 << 29, 1 << 20, 0] {
            v.push(Damage::Bytes(i, w.to_le_bytes().to_vec()));
        }
    }
    for l in [0usize, 1, 3, 8, 64, 1000, 4096] {
        for x in [0u8, 1, 0x7f, 0xff, b'a'] {
            v.push(Damage::Whole(vec![x; l]));
        }
        v.push(Damage::Whole((0..l).map(|i| (i * 37) as u8).collect()));
    }
    v
}

/// One part of the cases, in a process of its own: a failed allocation ends the process.
pub fn c13_worker(part: usize, parts: usize, full: bool, status: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        let lim = libc::rlimit { rlim_cur: 2560 << 20, rlim_max: 2560 << 20 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    use std::io::Write;
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::create(status).unwrap();
    let s = Scratch::new("c13");
    let mut out = std::io::stdout();
    let (mut n, mut rejected, mut accepted) = (0u64, 0u64, 0u64);
    for (bi, b) in bases().iter().enumerate() {
        let m = manager(&s.0, "opt", false);
        let path = m.save_checkpoint(b, 0).unwrap();
        let good = std::fs::read(&path).unwrap();
        for (di, d) in damages(&good, full && bi < 4).into_iter().enumerate() {
            if (di + bi) % parts != part {
                continue;
            }
            let mut x = good.clone();
            match &d {
                Damage::Cut(k) => x.truncate(*k),
                Damage::Byte(i, v) => x[*i] = *v,
                Damage::Bytes(i, w) => {
                    for (j, v) in w.iter().enumerate() {
                        if i + j < x.len() {
                            x[i + j] = *v;
                        }
                    }
                }
                Damage::Whole(w) => x = w.clone(),
            }
            std::fs::write(&path, &x).unwrap();
            let what = format!("checkpoint {bi} damaged by {d:?}");
            let _ = f.write_at(format!("{what:<200}").as_bytes(), 0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let a = m.load_latest_checkpoint().map(|c| format!("{} {c}", ck_repr(&c))).map_err(|e| e.to_string());
                let b = read_checkpoint_file(&path).map(|c| ck_repr(&c)).map_err(|e| e.to_string());
                (a, b)
            }));
            n += 1;
            match r {
                Err(e) => {
                    let _ = writeln!(out, "BAD {what}: loading panicked: {}", panic_text(e).replace('\n', " "));
                }
                Ok((a, b)) => {
                    if a.is_ok() != b.is_ok() {
                        let _ = writeln!(out, "BAD {what}: load_latest_checkpoint and read_checkpoint_file disagree");
                    }
                    if matches!(d, Damage::Cut(_)) && a.is_ok() {
                        let _ = writeln!(out, "BAD {what}: a truncated file of {} bytes was accepted", x.len());
                    }
                    if let Ok(text) = &a {
                        accepted += 1;
                        let _ = text;
                    } else {
                        rejected += 1;
                    }
                }
            }
        }
    }
    let _ = writeln!(out, "DONE {n} {rejected} {accepted}");
}

pub fn c13(cx: &Ctx) {
    cx.level("fault_enumeration");
    cx.rule("sixteen checkpoints (every solver configuration, with and without solutions): every truncation, every single-byte change to a set of values (all 255 in the thorough tier for the first four), every eight-byte word overwritten with lengths from 0 to 2^64-1, and files that are no checkpoint at all; loaded in processes with 2.5 GB of address space. Non-trivial: distinct damaged files");
    let parts = workers();
    let exe = std::env::current_exe().unwrap();
    let scr = Scratch::new("c13p");
    let kids: Vec<_> = (0..parts)
        .map(|i| {
            let st = scr.0.join(format!("status{i}"));
            let c = std::process::Command::new(&exe)
                .args(["C13-worker", &i.to_string(), &parts.to_string(), if cx.thorough { "full" } else { "part" }, st.to_str().unwrap()])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .unwrap();
            (st, c)
        })
        .collect();
    for (i, (st, c)) in kids.into_iter().enumerate() {
        let o = c.wait_with_output().unwrap();
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        for l in text.lines().filter(|l| l.starts_with("BAD ")) {
            cx.st.violation(l[4..].into(), String::new(), l[4..].into());
        }
        match text.lines().find_map(|l| l.strip_prefix("DONE ")) {
            Some(d) => {
                let v: Vec<u64> = d.split(' ').map(|x| x.parse().unwrap()).collect();
                cx.st.executions.fetch_add(v[0], std::sync::atomic::Ordering::Relaxed);
                for k in 0..v[0] {
                    cx.st.state(hash(&(i, k)));
                }
                cx.st.step(v[0]);
                cx.st.count("rejected", v[1]);
                cx.st.count("accepted", v[2]);
            }
            None => {
                let what = std::fs::read_to_string(&st).unwrap_or_default();
                cx.st.violation(
                    what.trim().into(),
                    String::new(),
                    format!("loading ended the process ({}) instead of reporting an error: {}", o.status, what.trim()),
                );
            }
        }
    }
    cx.st.sample(|| "checkpoint 0 damaged by Cut(17)".into());
    cx.st.sample(|| "checkpoint 3 damaged by Byte(200, 255)".into());
}
