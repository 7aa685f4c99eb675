//! C16, C17: what observers report, and that observing changes nothing.
use crate::core::*;
use crate::explore::*;
use crate::funs::*;
use crate::model::*;
use crate::report::Ctx;
use crate::script::*;
use crate::stage2::*;
use crate::trace::*;
use globalsearch::scatter_search::ScatterSearch;

fn objs(l: &[Ev]) -> usize {
    l.iter().filter(|e| matches!(e, Ev::Obj(..))).count()
}
fn close(a: Option<f64>, b: f64) -> bool {
    a.is_some_and(|a| (a - b).abs() < 1e-6)
}
fn eqf(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Trial points Stage 1 generates.
fn trials_of<P: Traced>(p: &P, s: &Spec) -> Option<usize> {
    let mut ss = ScatterSearch::new(p.again(), s.params()).ok()?;
    if let Some(c) = &s.custom {
        ss = ss.with_custom_points(c.iter().map(|p| a1(p)).collect());
    }
    ss.initialize_reference_set().ok()?;
    ss.generate_trial_points().ok().map(|t| t.len())
}

/// The state of the search after each of its local searches.
struct Truth {
    set: Vec<(Pt, f64)>,
    changed: usize,
    evals: usize,
    last: Option<Pt>,
}
fn truths(m: &mut Model, searches: &[Found], first_is_stage1: bool, evals: &[usize]) -> Vec<Truth> {
    let mut out = vec![Truth { set: m.set.clone(), changed: 0, evals: 0, last: None }];
    for (i, s) in searches.iter().enumerate() {
        let Ok(o) = &s.outcome else { break };
        let u = if i == 0 && first_is_stage1 { m.stage1(o.clone()) } else { m.process(o.clone()) };
        let l = out.last().unwrap();
        let ch = matches!(u, Upd::First | Upd::Replaced | Upd::Joined);
        let last = if ch { Some(o.0.clone()) } else { l.last.clone() };
        out.push(Truth { set: m.set.clone(), changed: l.changed + ch as usize, evals: l.evals + evals[i], last });
    }
    out
}
fn best_of(set: &[(Pt, f64)]) -> f64 {
    set.iter().fold(f64::NAN, |b, s| if rank(s.1, b).is_lt() { s.1 } else { b })
}

fn s2_matches(s: &S2, t: &[Truth], k: usize, extra: usize, what: &str) -> Result<(), String> {
    // t[0] is the state Stage 2 began with
    let x = &t[k];
    let base = &t[0];
    let mut bad = vec![];
    if s.calls != k {
        bad.push(format!("local-solver calls {} instead of {k}", s.calls));
    }
    if s.improved != x.changed - base.changed {
        bad.push(format!("improved calls {} instead of {}", s.improved, x.changed - base.changed));
    }
    if s.evals != x.evals - base.evals + extra {
        bad.push(format!("function evaluations {} instead of {}", s.evals, x.evals - base.evals + extra));
    }
    if s.set_size != x.set.len() {
        bad.push(format!("solution set size {} instead of {}", s.set_size, x.set.len()));
    }
    let b = best_of(&x.set);
    if !eqf(s.best, b) {
        bad.push(format!("best objective {} instead of {b}", s.best));
    }
    match &s.best_pt {
        Some(p) => {
            if !x.set.iter().any(|m| same(&m.0, p) && eqf(m.1, b)) {
                bad.push(format!("best point {p:?} is not a best member of {:?}", x.set));
            }
        }
        None => {
            if !x.set.is_empty() {
                bad.push("no best point".into());
            }
        }
    }
    if let Some(p) = &s.last_added {
        if !x.last.as_ref().is_some_and(|l| same(l, p)) {
            bad.push(format!("last added point {p:?} instead of {:?}", x.last));
        }
    }
    if bad.is_empty() { Ok(()) } else { Err(format!("{what}: {}", bad.join("; "))) }
}

/// Check everything an observer of both stages reports on a fresh run.
fn oracle_c16<P: Traced>(p: &P, spec: &Spec, bounds: &[(f64, f64)], e: &Exec) -> Result<(), String> {
    if let End::Panic(m) = &e.ran.end {
        return Err(format!("the search panicked: {m}"));
    }
    let mode = spec.obs.as_ref().unwrap().mode;
    let all_ok = e.par.searches.iter().all(|s| s.outcome.is_ok());
    let Ok((rs, _)) = &e.s1.out else { return Ok(()) };
    if e.par.searches.is_empty() || !all_ok {
        return Ok(());
    }
    let n1 = e.s1.log.len();
    let second = e.par.searches.get(1).map_or(e.log.len(), |s| s.pos);
    let evs: Vec<usize> = e
        .par
        .searches
        .iter()
        .enumerate()
        .map(|(i, s)| objs(&e.log[s.pos..e.par.searches.get(i + 1).map_or(e.log.len(), |n| n.pos)]))
        .collect();
    if !e.par.outside.is_empty() {
        return Err(format!("calls that belong to no local search: {:?}", e.par.outside));
    }
    let t = truths(&mut Model::new(spec, bounds), &e.par.searches, true, &evs);
    let s1_end = n1 + evs_len(e, 0);
    if mode & 1 == 1 {
        let s = e.ran.s1.as_ref().ok_or("no Stage 1 state although it is tracked")?;
        let want = objs(&e.log[..second]);
        if s.evals != want {
            return Err(format!("Stage 1 reports {} function evaluations, the objective was called {want} times", s.evals));
        }
        if let Some(n) = trials_of(p, spec) {
            if s.trials != n {
                return Err(format!("Stage 1 reports {} trial points, {n} are generated", s.trials));
            }
        }
        if s.refset != rs.len() {
            return Err(format!("Stage 1 reports a reference set of {}, it has {}", s.refset, rs.len()));
        }
        let mut vals: Vec<(Pt, f64)> = rs.clone();
        vals.extend(e.par.searches[0].outcome.clone().ok());
        let b = best_of(&vals);
        if !eqf(s.best, b) {
            return Err(format!("Stage 1 reports the best objective {}, it is {b}", s.best));
        }
        if !s.best_pt.as_ref().is_some_and(|p| vals.iter().any(|v| same(&v.0, p) && eqf(v.1, b))) {
            return Err(format!("Stage 1 reports the best point {:?}, whose objective is not the best", s.best_pt));
        }
        let mut seen: Vec<&str> = vec![];
        for c in &e.ran.cbs {
            let Some(s) = &c.s1 else { continue };
            seen.push(&s.substage);
            let now = objs(&e.log[..c.log_pos]);
            if s.evals > now || (s.substage != "initialization_complete" && s.evals != now) {
                return Err(format!("at {} Stage 1 reports {} function evaluations after {now} calls", s.substage, s.evals));
            }
            if s.substage == "scatter_search_complete" && !eqf(s.best, best_of(rs)) {
                return Err(format!("after the scatter search the best objective is reported as {}, it is {}", s.best, best_of(rs)));
            }
        }
    }
    let started = e.ran.s2.is_some();
    if mode & 2 == 2 {
        let hit = t[1].set.iter().any(|s| spec.target.is_some_and(|g| s.1 <= g));
        if hit {
            return Ok(());
        }
        if !started {
            return Err("no Stage 2 state although it is tracked".into());
        }
        let s = e.ran.s2.as_ref().unwrap();
        s2_matches(s, &t[1..], e.par.searches.len() - 1, 0, "after the run, Stage 2 reports")?;
        for c in &e.ran.cbs {
            let Some(s) = &c.s2 else { continue };
            let done = e.par.searches.iter().skip(1).filter(|f| f.pos < c.log_pos).count();
            // in a batch all local searches run before their results are merged one by one
            let lo = if spec.batch_len() == 1 { done } else { 0 };
            if s.calls < lo || s.calls > done {
                return Err(format!("at iteration {}, Stage 2 reports {} local searches, {done} were performed", s.iter, s.calls));
            }
            s2_matches(s, &t[1..], s.calls, 0, &format!("at iteration {}, Stage 2 reports", s.iter))?;
        }
        // counters never go back
        let mut last = 0;
        for c in e.ran.cbs.iter().filter_map(|c| c.s2.as_ref()) {
            if c.calls < last {
                return Err("the number of local-solver calls decreases".into());
            }
            last = c.calls;
        }
    }
    let _ = s1_end;
    Ok(())
}
fn evs_len(e: &Exec, i: usize) -> usize {
    let s = &e.par.searches;
    s.get(i + 1).map_or(e.log.len(), |n| n.pos) - s[i].pos
}

/// Stage durations under virtual time.
fn durations(p: &Script, e: &Exec) -> Result<(), String> {
    let st = p.st.lock().unwrap();
    let d = |i: usize| -> f64 {
        e.par
            .searches
            .get(i)
            .and_then(|s| p.pt_index(&s.start))
            .and_then(|j| st.dur[j])
            .unwrap_or(0) as f64
            / 1000.0
    };
    if matches!(e.ran.end, End::Ok(_)) && !e.par.searches.is_empty() {
        if let Some(s) = &e.ran.s1 {
            let w = d(0);
            if !close(s.time, w) {
                return Err(format!("Stage 1 took {w} s, reported {:?}", s.time));
            }
            if !close(e.ran.later.0, w) {
                return Err(format!("Stage 1 took {w} s, some time after the run {:?} is reported", e.ran.later.0));
            }
        }
        if let Some(s) = &e.ran.s2 {
            let w: f64 = (1..e.par.searches.len()).map(d).sum();
            if !close(s.time, w) {
                return Err(format!("Stage 2 took {w} s, reported {:?}", s.time));
            }
            if !close(e.ran.later.1, w) {
                return Err(format!("Stage 2 took {w} s, some time after the run {:?} is reported", e.ran.later.1));
            }
        }
    }
    Ok(())
}

fn text(p: &Script, e: &Exec, m: String) -> String {
    format!("{m}\n{}\n{}\nStage 1 reported: {:?}\nStage 2 reported: {:?}\ncallbacks: {:?}", p.describe(), show(e), e.ran.s1, e.ran.s2, e.ran.cbs)
}

/// A run with an observer, continued from every checkpoint of the run.
fn resumed_c16<P: Traced>(p: &P, spec: &Spec, bounds: &[(f64, f64)], w: &Worker, st: &Stats) -> Result<(), String> {
    let mut s = spec.clone();
    w.dir.clear();
    s.ck = Some(CkSpec { dir: w.dir.0.clone(), name: "c".into(), freq: 1, keep_all: true, auto: false });
    let log = p.log().clone();
    let first = w.pool.install(|| run(p.clone(), &s, &log));
    log.take();
    if !matches!(first.end, End::Ok(_)) {
        return Ok(());
    }
    let mut files: Vec<_> = std::fs::read_dir(&w.dir.0).unwrap().flatten().map(|f| f.path()).collect();
    files.sort();
    let scr = Scratch::new("ob");
    let target = scr.0.join("c.bin");
    for f in files.iter().filter(|f| f.extension().is_some_and(|x| x == "bin")) {
        std::fs::copy(f, &target).unwrap();
        let mut s2 = s.clone();
        s2.ck = Some(CkSpec { dir: scr.0.clone(), name: "c".into(), freq: usize::MAX, keep_all: false, auto: true });
        let cp = ck::latest(s2.ck.as_ref().unwrap())?;
        st.count("resumes", 1);
        let q = p.again();
        let l = q.log().clone();
        w.pool.install(crate::vclock::on);
        let ran = w.pool.install(|| run(q, &s2, &l));
        w.pool.install(crate::vclock::off);
        let log = l.take();
        st.step(log.len() as u64);
        let mut or = Oracle::new(p, &s2);
        let cands = if s2.solver == globalsearch::types::LocalSolverType::COBYLA { ck::refset(&cp) } else { vec![] };
        let par = parse(&log, 0, &mut or, &cands);
        let info = |m: String| {
            format!("{m}\nresumed from iteration {} with set {:?}\nlocal searches: {:?}\nother calls: {:?}\nStage 2 reported: {:?}\nresult {:?}", cp.current_iteration, cp.solution_set.as_ref().map(set_of), par.searches, par.outside, ran.s2, ran.end)
        };
        if let End::Panic(m) = &ran.end {
            return Err(info(format!("the resumed search panicked: {m}")));
        }
        if par.searches.iter().any(|s| s.outcome.is_err()) {
            continue;
        }
        let evs: Vec<usize> = par.searches.iter().map(|s| objs(&or.solve(&s.start).0)).collect();
        let mut m = Model::new(&s2, bounds);
        m.set = cp.solution_set.as_ref().map(set_of).unwrap_or_default();
        m.thr = cp.merit_threshold;
        let t = truths(&mut m, &par.searches, false, &evs);
        let outside = par.outside.iter().filter(|o| matches!(o.1, Ev::Obj(..))).count();
        let sr = ran.s2.as_ref().ok_or_else(|| info("no Stage 2 state".into()))?;
        s2_matches(sr, &t, par.searches.len(), outside, "after the resumed run, Stage 2 reports").map_err(info)?;
        if ran.later.1 != sr.time || ran.later.0 != ran.s1.as_ref().and_then(|s| s.time) {
            return Err(info(format!("a stage's duration grows after the resumed run: {:?} then {:?}", (ran.s1.as_ref().map(|s| s.time), sr.time), ran.later)));
        }
        if ran.s1.as_ref().is_some_and(|s| s.evals != 0 || s.trials != 0) {
            return Err(info(format!("the resumed run did no Stage 1, but it reports {:?}", ran.s1)));
        }
    }
    Ok(())
}

pub fn c16(cx: &Ctx) {
    cx.rule("stateless DFS over all answers of a scripted problem and the (virtual) duration of every local search, with an observer of both stages and a recording callback; after the run, at every callback, and after a resume from each of its checkpoints the reported metrics must equal those read off the calls. A state is the model state after a local search");
    let t = cx.thorough;
    let obs = |mode| Some(ObsSpec { mode, freq: 1, callback: Cb::Rec, timing: true });
    let axes = Axes {
        batch: if t { vec![Batch::Off, Batch::N(1), Batch::N(2), Batch::N(3), Batch::N(4)] } else { vec![Batch::Off, Batch::N(2), Batch::N(4)] },
        wait: vec![1],
        tf: vec![0.5],
        df: vec![0.5],
        exclude: vec![false, true],
        tol: vec![None, Some((0.25, 0.0))],
        target: vec![None, Some(0.6)],
        ..Default::default()
    };
    let mut cfgs = vec![];
    for s in axes.specs() {
        for mode in [3, 1, 2] {
            if mode != 3 && (s.target.is_some() || s.exclude) && !t {
                continue;
            }
            for (geo, vals, fvals) in [
                (geo1(1), vec![1.0, 2.0, 4.0], vec![0.5, 0.75, 1.5]),
                (geo1in(2), vec![1.0, 3.0], vec![0.5, 0.75]),
            ] {
                let mut s = s.clone();
                s.pop = geo.pts.len();
                s.iters = s.iters.min(s.pop);
                s.custom = Some(geo.custom());
                s.obs = obs(mode);
                cfgs.push(Cfg { spec: s, geo, vals: nums(&vals), fvals: nums(&fvals) });
            }
        }
    }
    cx.bound("scripted configurations", cfgs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, |c, p, w, st| {
            let mut p = p.clone();
            p.durs = std::sync::Arc::new(vec![250]);
            let p = &p;
            w.pool.install(crate::vclock::on);
            let e = exec(p, &c.spec, w);
            w.pool.install(crate::vclock::off);
            replay(&c.spec, &c.geo.bounds, &e.par.outcomes(), Some(st));
            st.sample(|| text(p, &e, String::new()));
            oracle_c16(p, &c.spec, &c.geo.bounds, &e).and_then(|_| durations(p, &e)).map_err(|m| text(p, &e, m))
        })
    });
    crowd_phase(cx, |c| c.spec.obs = obs(3), |c, p, w, st| {
        let e = exec(p, &c.spec, w);
        st.step(1);
        oracle_c16(p, &c.spec, &c.geo.bounds, &e).map_err(|m| text(p, &e, m))
    });
    crowd_runs(cx, if t { &[(12, 1), (40, 0)] } else { &[(12, 0), (40, 0)] }, |c| c.spec.obs = obs(3), |c, p, w, st| {
        resumed_c16(p, &c.spec, &c.geo.bounds, w, st).map_err(|m| format!("{m}\n{}", p.describe()))
    });
    let mut few = cfgs.clone();
    few.retain(|c| c.spec.obs.as_ref().unwrap().mode == 3 && (t || c.geo.name == "1d" && c.spec.tol.is_some()));
    cx.phase("durations", || {
        drive(cx, &few[..few.len().min(if t { 100 } else { 4 })], |c, p, w, _| {
            let mut p = p.clone();
            p.durs = std::sync::Arc::new(vec![0, 1500]);
            let p = &p;
            w.pool.install(crate::vclock::on);
            let e = exec(p, &c.spec, w);
            w.pool.install(crate::vclock::off);
            durations(p, &e).map_err(|m| text(p, &e, m))
        })
    });
    cx.phase("resumed runs", || {
        drive(cx, &few, |c, p, w, st| resumed_c16(p, &c.spec, &c.geo.bounds, w, st).map_err(|m| format!("{m}\n{}", p.describe())))
    });
    let mut ls = lattice(t, &batches(t));
    for l in ls.iter_mut() {
        l.spec.obs = obs(3);
    }
    cx.bound("ordinary runs", ls.len());
    cx.phase("ordinary functions", || {
        l_runs(cx, &ls, |c, e| {
            oracle_c16(&c.fun, &c.spec, &c.fun.bounds, e)
                .map_err(|m| format!("{m}\nStage 1 reported: {:?}\nStage 2 reported: {:?}", e.ran.s1, e.ran.s2))
        })
    });
    ls.retain(|l| l.spec.pop < 20 && (t || l.spec.seed == 0));
    cx.phase("ordinary functions, resumed", || {
        for_all(cx.st, &ls, cx.deadline, |c| {
            with_worker(|w| {
                let f = c.fun.again();
                resumed_c16(&f, &c.spec, &c.fun.bounds, w, cx.st)
            })
        })
    });
}

// ---------------------------------------------------------------------------------------- C17

#[derive(Clone, Debug)]
struct Variant {
    obs: Option<ObsSpec>,
    verbose: bool,
    ck: Option<(usize, bool)>,
}

fn variants(t: bool) -> Vec<Variant> {
    let mut v = vec![];
    let ob = |mode, freq, callback, timing| Some(ObsSpec { mode, freq, callback, timing });
    for mode in 0..4 {
        for freq in if t { vec![0, 1, 2, 3, 5, 10, 17, 64, usize::MAX] } else if mode == 2 { vec![1, 2, 3, 7, 10, 64] } else { vec![1, 2, 3] } {
            v.push(Variant { obs: ob(mode, freq, Cb::Rec, freq == 1), verbose: false, ck: None });
        }
        for cb in [Cb::None, Cb::Default, Cb::Stage1, Cb::Stage2, Cb::Unique] {
            if t || mode == 3 || (mode == 0 && cb == Cb::None) {
                v.push(Variant { obs: ob(mode, 1, cb, true), verbose: mode == 3 && cb == Cb::Default, ck: None });
            }
        }
    }
    v.push(Variant { obs: None, verbose: true, ck: None });
    v.push(Variant { obs: None, verbose: false, ck: Some((1, true)) });
    v.push(Variant { obs: ob(3, 0, Cb::Rec, true), verbose: true, ck: Some((2, false)) });
    v
}

/// Iterations a run performs, by batches.
fn processed<P: Traced>(p: &P, spec: &Spec, bounds: &[(f64, f64)], e: &Exec) -> Vec<Vec<usize>> {
    let Ok((rs, cand)) = &e.s1.out else { return vec![] };
    let Some(order) = e.orders.first() else { return vec![] };
    let mut or = Oracle::new(p, spec);
    let mut m = Model::new(spec, bounds);
    let Ok(o) = or.solve(cand).1.clone() else { return vec![] };
    m.stage1(o);
    let trials: Vec<(Pt, f64)> = order
        .iter()
        .take(spec.iters)
        .map(|x| (x.clone(), rs.iter().find(|r| same(&r.0, x)).map_or(f64::NAN, |r| r.1)))
        .collect();
    let mut out = vec![];
    let mut i = 0;
    for b in trials.chunks(spec.batch_len()) {
        if m.hit(spec.target) || m.batch(b, |x, _| or.solve(x).1.clone()).is_err() {
            break;
        }
        out.push((i..i + b.len()).collect());
        i += b.len();
    }
    out
}

const SUBSTAGES: [&str; 6] = [
    "initialization_complete",
    "diversification_complete",
    "intensification_complete",
    "scatter_search_complete",
    "local_optimization_complete",
    "stage1_complete",
];

fn c17_check<P: Traced>(p: &P, spec: &Spec, bounds: &[(f64, f64)], vs: &[Variant], w: &Worker, st: &Stats) -> Result<(), String> {
    let e = exec(p, spec, w);
    if let End::Panic(m) = &e.ran.end {
        return Err(format!("the search panicked: {m}"));
    }
    if e.log.len() > CAP {
        return Ok(());
    }
    // the run itself, without checkpoints
    let q = p.again();
    let l = q.log().clone();
    let base = w.pool.install(|| run(q, spec, &l));
    let blog = l.take();
    let iters = processed(p, spec, bounds, &e);
    let ok = matches!(base.end, End::Ok(_));
    let n1 = e.par.searches.get(1).map_or(e.log.len(), |s| s.pos);
    for v in vs {
        let mut s = spec.clone();
        s.obs = v.obs.clone();
        s.verbose = v.verbose;
        if let Some((freq, keep_all)) = v.ck {
            w.dir.clear();
            s.ck = Some(CkSpec { dir: w.dir.0.clone(), name: "c".into(), freq, keep_all, auto: false });
        }
        let q = p.again();
        let l = q.log().clone();
        let ran = w.pool.install(|| run(q, &s, &l));
        let log = l.take();
        st.step(1);
        let say = |m: String| format!("with {v:?}: {m}\nplain run: {:?} after {} calls", base.end, blog.len());
        if !ran.end.same(&base.end) {
            return Err(say(format!("the search ends with {:?}", ran.end)));
        }
        if log.len() != blog.len() || log.iter().zip(&blog).any(|(a, b)| !a.same(b)) {
            let i = log.iter().zip(&blog).position(|(a, b)| !a.same(b)).unwrap_or(log.len().min(blog.len()));
            return Err(say(format!("the user's functions are called differently ({} calls): call {i} is {:?} instead of {:?}", log.len(), log.get(i), blog.get(i))));
        }
        let Some(o) = &v.obs else { continue };
        if o.callback != Cb::Rec || !ok {
            continue;
        }
        st.state(hash(&(o.mode, o.freq, format!("{iters:?}"), ran.cbs.len())));
        if o.mode & 1 == 1 {
            let got: Vec<&str> = ran.cbs.iter().filter_map(|c| c.s1.as_ref()).map(|s| s.substage.as_str()).collect();
            // without Stage 2 tracking, callbacks of Stage 2 show no state
            if got != SUBSTAGES {
                return Err(say(format!("Stage 1 callbacks fired for {got:?}")));
            }
        }
        if o.mode & 2 == 2 {
            let got: Vec<usize> = ran.cbs.iter().filter_map(|c| c.s2.as_ref()).map(|s| s.iter).collect();
            let mut want: Vec<Vec<usize>> =
                iters.iter().map(|b| b.iter().copied().filter(|i| i % o.freq.max(1) == 0).collect()).collect();
            let mut i = 0;
            let mut good = true;
            for b in want.iter_mut() {
                let mut g: Vec<usize> = got.iter().skip(i).take(b.len()).copied().collect();
                g.sort();
                good &= g == *b;
                i += b.len();
            }
            if !good || i != got.len() {
                return Err(say(format!("Stage 2 callbacks fired for iterations {got:?}, expected (by batches) {want:?}")));
            }
        } else if o.mode == 1 {
            // Stage 2 callbacks still fire, without a state
            let got = ran.cbs.iter().filter(|c| c.s1.is_none()).count();
            let want = iters.iter().flatten().filter(|i| *i % o.freq.max(1) == 0).count();
            if got != want {
                return Err(say(format!("{got} callbacks fired in Stage 2, expected {want}")));
            }
        }
        if let Some(c) = ran.cbs.iter().find(|c| c.s2.is_some() && c.log_pos < n1.min(blog.len())) {
            return Err(say(format!("a Stage 2 callback fired in Stage 1: {c:?}")));
        }
    }
    Ok(())
}

/// The same for a run continued from every checkpoint of the run.
fn c17_resumed<P: Traced>(p: &P, spec: &Spec, bounds: &[(f64, f64)], freqs: &[usize], w: &Worker, st: &Stats) -> Result<(), String> {
    let e = exec(p, spec, w);
    let End::Ok(_) = &e.ran.end else { return Ok(()) };
    if e.log.len() > CAP {
        return Ok(());
    }
    let iters = processed(p, spec, bounds, &e);
    let mut s = spec.clone();
    w.dir.clear();
    s.ck = Some(CkSpec { dir: w.dir.0.clone(), name: "c".into(), freq: 1, keep_all: true, auto: false });
    let go = |s: &Spec| {
        let q = p.again();
        let l = q.log().clone();
        let ran = w.pool.install(|| run(q, s, &l));
        (ran, l.take())
    };
    go(&s);
    let mut files: Vec<_> = std::fs::read_dir(&w.dir.0).unwrap().flatten().map(|f| f.path()).collect();
    files.sort();
    let scr = Scratch::new("o7");
    for f in files.iter().filter(|f| f.extension().is_some_and(|x| x == "bin")) {
        let mut s2 = s.clone();
        s2.ck = Some(CkSpec { dir: scr.0.clone(), name: "c".into(), freq: usize::MAX, keep_all: false, auto: true });
        let put = || {
            scr.clear();
            std::fs::copy(f, scr.0.join("c.bin")).unwrap();
        };
        put();
        let cp = ck::latest(s2.ck.as_ref().unwrap())?;
        let (base, blog) = go(&s2);
        for freq in freqs {
            for (mode, verbose) in [(2, false), (3, true)] {
                put();
                s2.obs = Some(ObsSpec { mode, freq: *freq, callback: Cb::Rec, timing: mode == 3 });
                s2.verbose = verbose;
                let (ran, log) = go(&s2);
                st.step(1);
                let say = |m: String| format!("resumed from iteration {}, observer mode {mode}, frequency {freq}: {m}\nplain: {:?}", cp.current_iteration, base.end);
                if !ran.end.same(&base.end) {
                    return Err(say(format!("the search ends with {:?}", ran.end)));
                }
                if log.len() != blog.len() || log.iter().zip(&blog).any(|(a, b)| !a.same(b)) {
                    return Err(say(format!("the user's functions are called differently ({} instead of {} calls)", log.len(), blog.len())));
                }
                let got: Vec<usize> = ran.cbs.iter().filter_map(|c| c.s2.as_ref()).map(|s| s.iter).collect();
                let mut i = 0;
                let mut good = true;
                for b in &iters {
                    let b: Vec<usize> = b.iter().copied().filter(|i| *i >= cp.current_iteration && i % freq.max(&1) == 0).collect();
                    let mut g: Vec<usize> = got.iter().skip(i).take(b.len()).copied().collect();
                    g.sort();
                    good &= g == b;
                    i += b.len();
                }
                st.state(hash(&(mode, *freq, cp.current_iteration, format!("{iters:?}"))));
                if !good || i != got.len() {
                    return Err(say(format!("Stage 2 callbacks fired for iterations {got:?}; the whole run processes {iters:?}")));
                }
            }
        }
    }
    Ok(())
}

pub fn c17(cx: &Ctx) {
    cx.rule("stateless DFS over all answers of a scripted problem; each run is repeated with every observer mode x frequency x callback, verbose output and checkpoint saving, and must make the same calls and return the same set; callbacks must be those due. A state is a distinct (mode, frequency, iterations, callbacks)");
    let t = cx.thorough;
    let axes = Axes {
        batch: if t { vec![Batch::Off, Batch::N(1), Batch::N(2), Batch::N(3), Batch::N(5)] } else { vec![Batch::Off, Batch::N(2), Batch::N(3)] },
        wait: vec![1],
        tf: vec![0.5],
        df: vec![0.5],
        exclude: if t { vec![false, true] } else { vec![false] },
        tol: vec![Some((0.25, 0.0))],
        target: vec![None, Some(0.6)],
        seed: vec![0],
        iters: if t { vec![usize::MAX, 3] } else { vec![usize::MAX] },
    };
    let mut cfgs = vec![];
    for s in axes.specs() {
        for (geo, vals, fvals) in [
            (geo1(1), vec![1.0, 2.0], vec![0.5, 1.5]),
            (geo1in(2), vec![1.0, 3.0], vec![0.5]),
        ] {
            let mut s = s.clone();
            s.pop = geo.pts.len();
            s.iters = s.iters.min(s.pop);
            s.custom = Some(geo.custom());
            cfgs.push(Cfg { spec: s, geo, vals: nums(&vals), fvals: nums(&fvals) });
        }
    }
    let vs = variants(t);
    cx.bound("scripted configurations", cfgs.len());
    cx.bound("observer variants", vs.len());
    cx.phase("scripted landscapes", || {
        drive(cx, &cfgs, |c, p, w, st| {
            st.sample(|| format!("{c:?}"));
            c17_check(p, &c.spec, &c.geo.bounds, &vs, w, st).map_err(|m| format!("{m}\n{}", p.describe()))
        })
    });
    crowd_runs(cx, if t { &[(12, 1), (40, 0), (200, 0)] } else { &[(16, 1), (72, 0)] }, |_| (), |c, p, w, st| {
        c17_check(p, &c.spec, &c.geo.bounds, &vs, w, st).map_err(|m| format!("{m}\n{}", p.describe()))
    });
    let fr: &[usize] = if t { &[0, 1, 2, 3, 5, 7] } else { &[1, 2, 3, 7] };
    cx.phase("scripted landscapes, resumed", || {
        let few: Vec<Cfg> = cfgs.iter().filter(|c| t || c.spec.target.is_none()).cloned().collect();
        drive(cx, &few, |c, p, w, st| c17_resumed(p, &c.spec, &c.geo.bounds, fr, w, st).map_err(|m| format!("{m}\n{}", p.describe())))
    });
    crowd_runs(cx, &[(24, 0)], |_| (), |c, p, w, st| c17_resumed(p, &c.spec, &c.geo.bounds, fr, w, st).map_err(|m| format!("{m}\n{}", p.describe())));
    let mut ls = lattice(t, &batches(t));
    ls.retain(|l| (t || l.spec.seed == 0) && l.spec.pop < 25);
    let with_target: Vec<LCase> = ls
        .iter()
        .filter(|l| l.spec.pop < 10)
        .map(|l| {
            let mut l = l.clone();
            l.spec.target = Some(0.3);
            l
        })
        .collect();
    ls.extend(with_target);
    cx.bound("ordinary runs", ls.len());
    cx.phase("ordinary functions", || {
        for_all(cx.st, &ls, cx.deadline, |c| {
            with_worker(|w| {
                let f = c.fun.again();
                c17_check(&f, &c.spec, &c.fun.bounds, &vs, w, cx.st)
            })
        })
    });
}
