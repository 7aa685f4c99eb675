//! C20, C21, C22, C24: settings, builders, solution sets and filters against their definitions.
use crate::core::*;
use crate::explore::*;
use crate::report::Ctx;
use globalsearch::filters::*;
use globalsearch::local_solver::builders::*;
use globalsearch::oqnlp::{OQNLP, OQNLPError};
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::panic::{AssertUnwindSafe, catch_unwind};

const NAN: f64 = f64::NAN;
const INF: f64 = f64::INFINITY;

/// All tuples over the given alphabets, as one execution each, counted as one transition per choice.
fn product(st: &Stats, dims: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &d in dims {
        out = out.into_iter().flat_map(|p: Vec<usize>| (0..d).map(move |i| [&p[..], &[i]].concat())).collect();
    }
    st.step(out.len() as u64 * dims.len() as u64);
    out
}

// ---------------------------------------------------------------------------- C20

#[derive(Clone)]
struct Box_ {
    b: Array2<f64>,
}
impl Problem for Box_ {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        Ok(x.iter().map(|v| (v - 0.3).abs().min(1e100)).sum())
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.b.clone()
    }
}
fn cobyla_cfg() -> (LocalSolverType, LocalSolverConfig) {
    (
        LocalSolverType::COBYLA,
        LocalSolverConfig::COBYLA {
            max_iter: 12,
            initial_step_size: 0.5,
            ftol_rel: 1e-6,
            ftol_abs: 1e-8,
            xtol_rel: 0.0,
            xtol_abs: vec![],
        },
    )
}

fn run_box(b: Array2<f64>, s: &Spec) -> End {
    run(Box_ { b }, s, &Log::default()).end
}

pub fn c20(ctx: &Ctx) {
    let st = ctx.st;
    ctx.rule("one execution: one combination of settings handed to the constructor, the custom-point setter or a whole search");
    ctx.assume("bounds whose width overflows may be accepted or rejected");
    let (solver, config) = cobyla_cfg();
    let base = Spec { pop: 6, iters: 5, solver, config, ..Default::default() };
    ctx.phase("construction", || {
        let pops: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 1000, usize::MAX];
        let its: &[usize] = &[0, 1, 3, 4, 5, 6, 7, 8, 1001, usize::MAX];
        let tfs: &[f64] = &[0.2, 0.0, -0.0, -0.1, NAN, -NAN, INF, -INF, f64::MIN_POSITIVE, 5e-324, 1e300];
        let dfs: &[f64] = &[0.75, 0.0, -0.0, -5e-324, -1.0, NAN, -NAN, INF, -INF, 1e300, 5e-324];
        let waits: &[usize] = &[0, 1, 5, usize::MAX];
        let items = product(st, &[pops.len(), its.len(), tfs.len(), dfs.len(), waits.len()]);
        for_all(st, &items, ctx.deadline, |i| {
            let (pop, it, tf, df, wait) = (pops[i[0]], its[i[1]], tfs[i[2]], dfs[i[3]], waits[i[4]]);
            let s = Spec { pop, iters: it, tf, df, wait, ..base.clone() };
            let bad = [pop <= 3, it > pop, !(tf > 0.0), !(df >= 0.0)];
            st.state(hash(&bad));
            let b = arr2(&[vec![-1.0, 1.0]], 2);
            let r = catch_unwind(AssertUnwindSafe(|| OQNLP::new(Box_ { b }, s.params()).map(|_| ())))
                .map_err(|e| format!("construction panicked: {}", panic_text(e)))?;
            let which = match &r {
                Ok(()) => None,
                Err(OQNLPError::InvalidPopulationSize(v)) if *v == pop => Some(0),
                Err(OQNLPError::InvalidIterations(a, b)) if (*a, *b) == (it, pop) => Some(1),
                Err(OQNLPError::InvalidThresholdFactor(v)) if v.to_bits() == tf.to_bits() => Some(2),
                Err(OQNLPError::DistanceFilterError(FiltersErrors::NegativeDistanceFactor { value }))
                    if value.to_bits() == df.to_bits() =>
                {
                    Some(3)
                }
                Err(e) => return Err(format!("unexpected error: {e:?} for population {pop}, iterations {it}, threshold factor {tf}, distance factor {df}")),
            };
            match which {
                None if bad.iter().any(|b| *b) => Err(format!(
                    "invalid settings accepted: population {pop}, iterations {it}, threshold factor {tf}, distance factor {df}"
                )),
                Some(k) if !bad[k] => Err(format!(
                    "valid setting rejected: {r:?} for population {pop}, iterations {it}, threshold factor {tf}, distance factor {df}"
                )),
                _ => Ok(()),
            }
        });
    });
    ctx.phase("custom points", || {
        let mut items: Vec<(Vec<(f64, f64)>, Vec<Pt>, usize)> = vec![];
        let bs = [(-1.0, 2.0), (0.5, 0.75), (-1e-3, 0.0)];
        let coords = |b: (f64, f64)| {
            vec![b.0, b.1, (b.0 + b.1) / 2.0, b.0.next_down(), b.1.next_up(), b.0 - 1.0, b.1 + 1.0, NAN, INF, -INF]
        };
        for d in 1..=3usize {
            let bounds = bs[..d].to_vec();
            // one row: every combination of coordinates
            for p in product(st, &vec![10; d]) {
                items.push((bounds.clone(), vec![p.iter().zip(&bounds).map(|(i, b)| coords(*b)[*i]).collect()], d));
            }
            // several rows: each row valid or invalid in one coordinate
            for rows in 0..=(if ctx.thorough { 4 } else { 3 }) {
                for p in product(st, &vec![2 * d + 1; rows]) {
                    let r = p
                        .iter()
                        .map(|k| {
                            let mut x: Pt = bounds.iter().map(|b| (b.0 + b.1) / 2.0).collect();
                            if *k > 0 {
                                let j = (k - 1) / 2;
                                x[j] = if k % 2 == 1 { bounds[j].0.next_down() } else { bounds[j].1.next_up() };
                            }
                            x
                        })
                        .collect();
                    items.push((bounds.clone(), r, d));
                }
            }
            // other dimensions
            for cols in 0..=4usize {
                for rows in 0..=3usize {
                    items.push((bounds.clone(), vec![vec![0.6; cols]; rows], cols));
                }
            }
        }
        for_all(st, &items, ctx.deadline, |(bounds, rows, cols)| {
            let d = bounds.len();
            let ok = rows.iter().all(|r| r.len() == d && inside(r, bounds));
            st.state(hash(&(d, *cols, rows.len(), ok)));
            let b = arr2(&bounds.iter().map(|b| vec![b.0, b.1]).collect::<Vec<_>>(), 2);
            let r = catch_unwind(AssertUnwindSafe(|| {
                OQNLP::new(Box_ { b: b.clone() }, base.params())
                    .and_then(|o| o.with_points(arr2(rows, *cols)))
                    .map(|_| ())
            }))
            .map_err(|e| format!("setting custom points panicked: {}", panic_text(e)))?;
            match r {
                Ok(()) if ok => Ok(()),
                Ok(()) => Err(format!("custom points {rows:?} are accepted within {bounds:?}")),
                Err(e) if ok => Err(format!("valid custom points {rows:?} within {bounds:?} are rejected: {e}")),
                Err(OQNLPError::InvalidCustomPointsDimension { point_index, expected, got })
                    if rows[point_index].len() == got && got != d && expected == d =>
                {
                    Ok(())
                }
                Err(OQNLPError::CustomPointOutOfBounds { index })
                    if rows[index].len() == d && !inside(&rows[index], bounds) =>
                {
                    Ok(())
                }
                Err(e) => Err(format!("custom points {rows:?} within {bounds:?}: {e:?}")),
            }
        });
    });
    ctx.phase("bounds", || {
        let v = [-INF, f64::MIN, -1.0, -0.0, 0.0, 5e-324, 1.0, 1.0f64.next_up(), f64::MAX, INF, NAN];
        let mut items: Vec<Vec<(f64, f64)>> = vec![];
        for p in product(st, &[v.len(), v.len()]) {
            let b = (v[p[0]], v[p[1]]);
            items.push(vec![b]);
            items.push(vec![(-1.0, 1.0), b]);
            items.push(vec![b, (-1.0, 1.0)]);
            items.push(vec![(-1.0, 1.0), b, (0.0, 2.0)]);
        }
        if ctx.thorough {
            for p in product(st, &[v.len(), v.len(), v.len(), v.len()]) {
                items.push(vec![(v[p[0]], v[p[1]]), (v[p[2]], v[p[3]])]);
            }
        }
        let items: Vec<_> = items.iter().flat_map(|b| [Batch::Off, Batch::N(2)].map(|k| (b.clone(), k))).collect();
        for_all(st, &items, ctx.deadline, |(bounds, batch)| {
            let valid = bounds.iter().all(|b| b.0.is_finite() && b.1.is_finite() && b.0 < b.1);
            st.state(hash(&format!("{bounds:?}")));
            let b = arr2(&bounds.iter().map(|b| vec![b.0, b.1]).collect::<Vec<_>>(), 2);
            let end = run_box(b, &Spec { batch: *batch, ..base.clone() });
            match end {
                End::Panic(m) => Err(format!("bounds {bounds:?}: the search panicked: {m}")),
                End::Ok(_) if !valid => Err(format!("the search accepts the bounds {bounds:?}")),
                End::Err(e) if valid && bounds.iter().all(|b| (b.1 - b.0).is_finite()) && !e.contains("ocal solver failed") => Err(format!("the search rejects the bounds {bounds:?}: {e}")),
                _ => Ok(()),
            }
        });
    });
    ctx.phase("shapes", || {
        let items = product(st, &[4, 4, 2]);
        for_all(st, &items, ctx.deadline, |i| {
            let b = Array2::from_shape_fn((i[0], i[1]), |(_, c)| c as f64);
            let batch = [Batch::Off, Batch::N(2)][i[2]];
            match run_box(b, &Spec { batch, ..base.clone() }) {
                End::Panic(m) => Err(format!("bounds of shape {}x{}: the search panicked: {m}", i[0], i[1])),
                End::Ok(_) if i[1] < 2 => Err(format!("bounds of shape {}x{} are accepted", i[0], i[1])),
                _ => Ok(()),
            }
        });
    });
    ctx.phase("settings", || {
        // one alternative per setting at a time, then every pair (triple)
        type Set = fn(&mut Spec);
        let groups: Vec<Vec<(&str, Set)>> = vec![
            vec![("pop 4", |s| (s.pop, s.iters) = (4, 3)), ("pop 30", |s| s.pop = 30)],
            vec![("iters 0", |s| s.iters = 0), ("iters 1", |s| s.iters = 1)],
            vec![("wait 0", |s| s.wait = 0), ("wait 1", |s| s.wait = 1), ("wait max", |s| s.wait = usize::MAX)],
            vec![("tf tiny", |s| s.tf = 5e-324), ("tf huge", |s| s.tf = f64::MAX), ("tf inf", |s| s.tf = INF)],
            vec![("df 0", |s| s.df = 0.0), ("df tiny", |s| s.df = 5e-324), ("df huge", |s| s.df = f64::MAX), ("df inf", |s| s.df = INF)],
            vec![("seed 1", |s| s.seed = 1), ("seed max", |s| s.seed = u64::MAX), ("seed max-1", |s| s.seed = u64::MAX - 1), ("seed big", |s| s.seed = 1 << 63)],
            vec![
                ("batch 0", |s| s.batch = Batch::N(0)),
                ("batch 1", |s| s.batch = Batch::N(1)),
                ("batch 3", |s| s.batch = Batch::N(3)),
                ("batch max", |s| s.batch = Batch::N(usize::MAX)),
                ("batch auto", |s| s.batch = Batch::Auto),
            ],
            vec![("target nan", |s| s.target = Some(NAN)), ("target inf", |s| s.target = Some(INF)), ("target -inf", |s| s.target = Some(-INF)), ("target 0", |s| s.target = Some(0.0))],
            vec![
                ("time nan", |s| s.max_time = Some(NAN)),
                ("time -1", |s| s.max_time = Some(-1.0)),
                ("time 0", |s| s.max_time = Some(0.0)),
                ("time inf", |s| s.max_time = Some(INF)),
            ],
            vec![("exclude", |s| s.exclude = true)],
            vec![
                ("tol 0", |s| s.tol = Some((0.0, 0.0))),
                ("tol nan", |s| s.tol = Some((NAN, NAN))),
                ("tol inf", |s| s.tol = Some((INF, INF))),
                ("tol -1", |s| s.tol = Some((-1.0, -1.0))),
            ],
            vec![("verbose", |s| s.verbose = true)],
            vec![
                ("obs f0", |s| s.obs = Some(ObsSpec { mode: 3, freq: 0, callback: Cb::Rec, timing: true })),
                ("obs f0 def", |s| s.obs = Some(ObsSpec { mode: 3, freq: 0, callback: Cb::Default, timing: true })),
                ("obs fmax", |s| s.obs = Some(ObsSpec { mode: 3, freq: usize::MAX, callback: Cb::Unique, timing: false })),
                ("obs none", |s| s.obs = Some(ObsSpec { mode: 0, freq: 1, callback: Cb::Stage2, timing: false })),
            ],
            vec![
                ("ck f0", |s| s.ck = Some(ck_of(0, false))),
                ("ck f1 all", |s| s.ck = Some(ck_of(1, true))),
                ("ck fmax", |s| s.ck = Some(ck_of(usize::MAX, false))),
            ],
            vec![("no custom", |s| s.custom = Some(vec![])), ("custom 1", |s| s.custom = Some(vec![vec![0.5, 0.5]])), ("custom many", |s| s.custom = Some((0..40).map(|i| vec![i as f64 / 50.0, -0.1]).collect()))],
        ];
        let k = if ctx.thorough { 3 } else { 2 };
        let mut items: Vec<Vec<(usize, usize)>> = vec![];
        fn rec(g: &[usize], i: usize, k: usize, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
            out.push(cur.clone());
            if k == 0 {
                return;
            }
            for j in i..g.len() {
                for a in 0..g[j] {
                    cur.push((j, a));
                    rec(g, j + 1, k - 1, cur, out);
                    cur.pop();
                }
            }
        }
        let lens: Vec<usize> = groups.iter().map(|g| g.len()).collect();
        rec(&lens, 0, k, &mut vec![], &mut items);
        let named: Vec<(String, Vec<(usize, usize)>)> = items
            .into_iter()
            .map(|v| (v.iter().map(|(g, a)| groups[*g][*a].0).collect::<Vec<_>>().join(", "), v))
            .collect();
        let dir = crate::report::verif_dir().join("out/c20");
        let _ = std::fs::remove_dir_all(&dir);
        let n = std::sync::atomic::AtomicUsize::new(0);
        for_all(st, &named, ctx.deadline, |(_, v)| {
            let mut s = base.clone();
            for (g, a) in v {
                groups[*g][*a].1(&mut s);
            }
            s.iters = s.iters.min(s.pop);
            let i = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if let Some(c) = &mut s.ck {
                c.dir = dir.join(format!("{i}"));
            }
            st.state(hash(&s.brief()));
            st.step(v.len() as u64);
            let end = run_box(arr2(&[vec![-1.0, 1.0], vec![-1.0, 1.0]], 2), &s);
            if let Some(c) = &s.ck {
                let _ = std::fs::remove_dir_all(&c.dir);
            }
            match end {
                End::Panic(m) => Err(format!("the search panicked: {m}")),
                End::Err(e) => Err(format!("valid settings are rejected: {e}")),
                End::Ok(s) if s.is_empty() => Err("the solution set is empty".into()),
                End::Ok(_) => Ok(()),
            }
        });
        let _ = std::fs::remove_dir_all(&dir);
    });
}
fn ck_of(freq: usize, keep_all: bool) -> CkSpec {
    CkSpec { dir: Default::default(), name: "c20".into(), freq, keep_all, auto: false }
}

// ---------------------------------------------------------------------------- C21

/// The settings of a configuration as (name, value) text.
fn ls_fields(p: &LineSearchParams) -> Vec<(&'static str, String)> {
    match &p.method {
        LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => vec![
            ("kind", "mt".into()),
            ("c1", f(*c1)),
            ("c2", f(*c2)),
            ("width_tolerance", f(*width_tolerance)),
            ("bounds", fv(&bounds.to_vec())),
        ],
        LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => vec![
            ("kind", "hz".into()),
            ("delta", f(*delta)),
            ("sigma", f(*sigma)),
            ("epsilon", f(*epsilon)),
            ("theta", f(*theta)),
            ("gamma", f(*gamma)),
            ("eta", f(*eta)),
            ("bounds", fv(&bounds.to_vec())),
        ],
    }
}
fn f(x: f64) -> String {
    format!("{:x}", x.to_bits())
}
fn fv(x: &[f64]) -> String {
    x.iter().map(|x| f(*x)).collect::<Vec<_>>().join(",")
}
fn fields(c: &LocalSolverConfig) -> Vec<(&'static str, String)> {
    let ls = |p: &LineSearchParams| format!("{:?}", ls_fields(p));
    match c {
        LocalSolverConfig::LBFGS { max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params } => vec![
            ("kind", "lbfgs".into()),
            ("max_iter", max_iter.to_string()),
            ("tolerance_grad", f(*tolerance_grad)),
            ("tolerance_cost", f(*tolerance_cost)),
            ("history_size", history_size.to_string()),
            ("l1_coefficient", l1_coefficient.map_or("none".into(), f)),
            ("line_search_params", ls(line_search_params)),
        ],
        LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } => vec![
            ("kind", "nm".into()),
            ("simplex_delta", f(*simplex_delta)),
            ("sd_tolerance", f(*sd_tolerance)),
            ("max_iter", max_iter.to_string()),
            ("alpha", f(*alpha)),
            ("gamma", f(*gamma)),
            ("rho", f(*rho)),
            ("sigma", f(*sigma)),
        ],
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => {
            vec![("kind", "sd".into()), ("max_iter", max_iter.to_string()), ("line_search_params", ls(line_search_params))]
        }
        LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } => vec![
            ("kind", "tr".into()),
            (
                "method",
                match trust_region_radius_method {
                    TrustRegionRadiusMethod::Cauchy => "cauchy".into(),
                    TrustRegionRadiusMethod::Steihaug => "steihaug".into(),
                },
            ),
            ("max_iter", max_iter.to_string()),
            ("radius", f(*radius)),
            ("max_radius", f(*max_radius)),
            ("eta", f(*eta)),
        ],
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => vec![
            ("kind", "ncg".into()),
            ("max_iter", max_iter.to_string()),
            ("curvature_threshold", f(*curvature_threshold)),
            ("tolerance", f(*tolerance)),
            ("line_search_params", ls(line_search_params)),
        ],
        LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs } => vec![
            ("kind", "cobyla".into()),
            ("max_iter", max_iter.to_string()),
            ("initial_step_size", f(*initial_step_size)),
            ("ftol_rel", f(*ftol_rel)),
            ("ftol_abs", f(*ftol_abs)),
            ("xtol_rel", f(*xtol_rel)),
            ("xtol_abs", fv(xtol_abs)),
        ],
    }
}

/// One setter call: the setting, the value it is to have, the call.
type Setter<B> = (&'static str, String, Box<dyn Fn(B) -> B + Sync>);
/// One way to begin: the values it gives, the call.
type Maker<B> = (Vec<(&'static str, String)>, Box<dyn Fn() -> B + Sync>);

fn builder<B: 'static>(
    ctx: &Ctx,
    name: &str,
    makers: Vec<Maker<B>>,
    setters: Vec<Setter<B>>,
    read: fn(B) -> Vec<(&'static str, String)>,
    depth: usize,
) {
    let st = ctx.st;
    ctx.phase(name, || {
        let mut items: Vec<(usize, Vec<usize>)> = vec![];
        for m in 0..makers.len() {
            for d in 0..=depth {
                items.extend(product(st, &vec![setters.len(); d]).into_iter().map(|p| (m, p)));
            }
        }
        let shown: Vec<(usize, Vec<usize>)> = items;
        for_all(st, &shown, ctx.deadline, |(m, seq)| {
            let mut want = makers[*m].0.clone();
            let mut b = makers[*m].1();
            for i in seq {
                b = setters[*i].2(b);
                let w = want.iter_mut().find(|w| w.0 == setters[*i].0).expect("setting");
                w.1 = setters[*i].1.clone();
            }
            let got = read(b);
            st.state(hash(&(name, &got)));
            if got != want {
                let calls: Vec<_> = seq.iter().map(|i| format!("{}({})", setters[*i].0, setters[*i].1)).collect();
                let d: Vec<_> = want
                    .iter()
                    .zip(&got)
                    .filter(|(w, g)| w != g)
                    .map(|(w, g)| format!("{} is {} instead of {}", g.0, g.1, w.1))
                    .collect();
                return Err(format!("{name} #{m} after {calls:?}: {}", d.join("; ")));
            }
            Ok(())
        });
        st.sample(|| format!("{name}: {} makers, {} setter calls, all sequences to depth {depth}", makers.len(), setters.len()));
    });
}

macro_rules! nums {
    ($v:ident, $B:ty, $($m:ident : $t:ty => [$($x:expr),*]),* $(,)?) => {
        $($( $v.push((stringify!($m), show::<$t>($x), Box::new(|b: $B| b.$m($x)) as Box<dyn Fn($B) -> $B + Sync>)); )*)*
    };
}
trait Show {
    fn s(&self) -> String;
}
impl Show for f64 {
    fn s(&self) -> String {
        f(*self)
    }
}
impl Show for u64 {
    fn s(&self) -> String {
        self.to_string()
    }
}
impl Show for usize {
    fn s(&self) -> String {
        self.to_string()
    }
}
impl Show for Option<f64> {
    fn s(&self) -> String {
        self.map_or("none".into(), f)
    }
}
impl Show for Vec<f64> {
    fn s(&self) -> String {
        fv(self)
    }
}
fn show<T: Show>(x: T) -> String {
    x.s()
}
fn lsp(k: u8) -> LineSearchParams {
    LineSearchParams {
        method: match k {
            0 => LineSearchMethod::MoreThuente { c1: 0.01, c2: 0.8, width_tolerance: 0.001, bounds: a1(&[0.1, 3.0]) },
            1 => LineSearchMethod::MoreThuente { c1: 0.02, c2: 0.7, width_tolerance: 0.002, bounds: a1(&[0.2, 4.0]) },
            _ => LineSearchMethod::HagerZhang {
                delta: 0.11,
                sigma: 0.81,
                epsilon: 0.001,
                theta: 0.41,
                gamma: 0.61,
                eta: 0.02,
                bounds: a1(&[0.3, 5.0]),
            },
        },
    }
}
fn dls() -> String {
    let d = LineSearchMethod::MoreThuente { c1: 1e-4, c2: 0.9, width_tolerance: 1e-10, bounds: a1(&[f64::EPSILON.sqrt(), INF]) };
    format!("{:?}", ls_fields(&LineSearchParams { method: d }))
}
fn lss(k: u8) -> String {
    format!("{:?}", ls_fields(&lsp(k)))
}
/// Read the configuration and two clones of it: all carry the same values.
fn rd(c: LocalSolverConfig) -> Vec<(&'static str, String)> {
    let k = c.clone();
    let (a, b) = (fields(&c), fields(&k));
    drop(c);
    if a != b || fields(&k.clone()) != a {
        return b.into_iter().chain([("clone", "differs".to_string())]).collect();
    }
    a
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("one execution: one sequence of setter calls on one builder; the configuration built (and clones of it) is compared setting by setting with the last values given or the documented defaults");
    let d = if ctx.thorough { 5 } else { 4 };
    let e = f64::EPSILON;
    let se = e.sqrt();
    ctx.bound("sequence length", format!("{d} setter calls over 2-3 values per setting ({} for the larger builders)", d - 1));
    {
        let mut v: Vec<Setter<LBFGSBuilder>> = vec![];
        nums!(v, LBFGSBuilder, max_iter: u64 => [7, u64::MAX], tolerance_grad: f64 => [0.25, NAN], tolerance_cost: f64 => [0.125, -1.0],
            history_size: usize => [3, 0], l1_coefficient: Option<f64> => [Some(0.5), None]);
        for k in [0u8, 2] {
            v.push(("line_search_params", lss(k), Box::new(move |b: LBFGSBuilder| b.line_search_params(lsp(k)))));
        }
        let def = vec![
            ("kind", "lbfgs".into()),
            ("max_iter", "300".into()),
            ("tolerance_grad", f(se)),
            ("tolerance_cost", f(e)),
            ("history_size", "10".into()),
            ("l1_coefficient", "none".into()),
            ("line_search_params", dls()),
        ];
        let mk: Vec<Maker<LBFGSBuilder>> = vec![
            (def.clone(), Box::new(LBFGSBuilder::default)),
            (def, Box::new(LocalSolverConfig::lbfgs)),
            (
                vec![
                    ("kind", "lbfgs".into()),
                    ("max_iter", "11".into()),
                    ("tolerance_grad", f(0.1)),
                    ("tolerance_cost", f(0.2)),
                    ("history_size", "12".into()),
                    ("l1_coefficient", f(0.3)),
                    ("line_search_params", lss(1)),
                ],
                Box::new(|| LBFGSBuilder::new(11, 0.1, 0.2, 12, Some(0.3), lsp(1))),
            ),
        ];
        builder(ctx, "L-BFGS", mk, v, |b| rd(b.build()), d - 1);
    }
    {
        let mut v: Vec<Setter<NelderMeadBuilder>> = vec![];
        nums!(v, NelderMeadBuilder, simplex_delta: f64 => [0.25, -1.0], sd_tolerance: f64 => [0.125, 0.0], max_iter: u64 => [7, 0],
            alpha: f64 => [1.25, 0.0], gamma: f64 => [2.25, 1.0], rho: f64 => [0.375, 0.0], sigma: f64 => [0.4375, 1.0]);
        let def = vec![
            ("kind", "nm".into()),
            ("simplex_delta", f(0.1)),
            ("sd_tolerance", f(e)),
            ("max_iter", "300".into()),
            ("alpha", f(1.0)),
            ("gamma", f(2.0)),
            ("rho", f(0.5)),
            ("sigma", f(0.5)),
        ];
        let mk: Vec<Maker<NelderMeadBuilder>> = vec![
            (def.clone(), Box::new(NelderMeadBuilder::default)),
            (def, Box::new(LocalSolverConfig::neldermead)),
            (
                vec![
                    ("kind", "nm".into()),
                    ("simplex_delta", f(0.11)),
                    ("sd_tolerance", f(0.12)),
                    ("max_iter", "13".into()),
                    ("alpha", f(0.14)),
                    ("gamma", f(0.15)),
                    ("rho", f(0.16)),
                    ("sigma", f(0.17)),
                ],
                Box::new(|| NelderMeadBuilder::new(0.11, 0.12, 13, 0.14, 0.15, 0.16, 0.17)),
            ),
        ];
        builder(ctx, "Nelder-Mead", mk, v, |b| rd(b.build()), d - 1);
    }
    {
        let mut v: Vec<Setter<SteepestDescentBuilder>> = vec![];
        nums!(v, SteepestDescentBuilder, max_iter: u64 => [7, 0]);
        for k in [0u8, 2] {
            v.push(("line_search_params", lss(k), Box::new(move |b: SteepestDescentBuilder| b.line_search_params(lsp(k)))));
        }
        let def = vec![("kind", "sd".into()), ("max_iter", "300".into()), ("line_search_params", dls())];
        let mk: Vec<Maker<SteepestDescentBuilder>> = vec![
            (def.clone(), Box::new(SteepestDescentBuilder::default)),
            (def, Box::new(LocalSolverConfig::steepestdescent)),
            (
                vec![("kind", "sd".into()), ("max_iter", "11".into()), ("line_search_params", lss(1))],
                Box::new(|| SteepestDescentBuilder::new(11, lsp(1))),
            ),
        ];
        builder(ctx, "Steepest descent", mk, v, |b| rd(b.build()), d);
    }
    {
        let mut v: Vec<Setter<TrustRegionBuilder>> = vec![];
        nums!(v, TrustRegionBuilder, max_iter: u64 => [7, 0], radius: f64 => [0.25, 9.0], max_radius: f64 => [0.125, 7.0], eta: f64 => [0.0625, 0.25]);
        v.push(("method", "cauchy".into(), Box::new(|b: TrustRegionBuilder| b.method(TrustRegionRadiusMethod::Cauchy))));
        v.push(("method", "steihaug".into(), Box::new(|b: TrustRegionBuilder| b.method(TrustRegionRadiusMethod::Steihaug))));
        let def = vec![
            ("kind", "tr".into()),
            ("method", "cauchy".into()),
            ("max_iter", "300".into()),
            ("radius", f(1.0)),
            ("max_radius", f(100.0)),
            ("eta", f(0.125)),
        ];
        let mk: Vec<Maker<TrustRegionBuilder>> = vec![
            (def.clone(), Box::new(TrustRegionBuilder::default)),
            (def, Box::new(LocalSolverConfig::trustregion)),
            (
                vec![
                    ("kind", "tr".into()),
                    ("method", "steihaug".into()),
                    ("max_iter", "11".into()),
                    ("radius", f(0.12)),
                    ("max_radius", f(0.13)),
                    ("eta", f(0.14)),
                ],
                Box::new(|| TrustRegionBuilder::new(TrustRegionRadiusMethod::Steihaug, 11, 0.12, 0.13, 0.14)),
            ),
        ];
        builder(ctx, "Trust region", mk, v, |b| rd(b.build()), d);
    }
    {
        let mut v: Vec<Setter<NewtonCGBuilder>> = vec![];
        nums!(v, NewtonCGBuilder, max_iter: u64 => [7, 0], curvature_threshold: f64 => [0.25, -1.0], tolerance: f64 => [0.125, 1.0]);
        for k in [0u8, 2] {
            v.push(("line_search_params", lss(k), Box::new(move |b: NewtonCGBuilder| b.line_search_params(lsp(k)))));
        }
        let def = vec![
            ("kind", "ncg".into()),
            ("max_iter", "300".into()),
            ("curvature_threshold", f(0.0)),
            ("tolerance", f(e)),
            ("line_search_params", dls()),
        ];
        let mk: Vec<Maker<NewtonCGBuilder>> = vec![
            (def.clone(), Box::new(NewtonCGBuilder::default)),
            (def, Box::new(LocalSolverConfig::newton_cg)),
            (
                vec![
                    ("kind", "ncg".into()),
                    ("max_iter", "11".into()),
                    ("curvature_threshold", f(0.12)),
                    ("tolerance", f(0.13)),
                    ("line_search_params", lss(1)),
                ],
                Box::new(|| NewtonCGBuilder::new(11, 0.12, 0.13, lsp(1))),
            ),
        ];
        builder(ctx, "Newton-CG", mk, v, |b| rd(b.build()), d);
    }
    {
        let mut v: Vec<Setter<COBYLABuilder>> = vec![];
        nums!(v, COBYLABuilder, max_iter: u64 => [7, 0], initial_step_size: f64 => [0.25, 9.0], ftol_rel: f64 => [0.125, 0.0], ftol_abs: f64 => [0.0625, 0.0],
            xtol_rel: f64 => [0.375, 0.0], xtol_abs: Vec<f64> => [vec![0.5, 0.75], vec![]]);
        let rest = |a: &str, b: f64| {
            vec![
                ("kind", "cobyla".into()),
                ("max_iter", a.to_string()),
                ("initial_step_size", f(b)),
                ("ftol_rel", f(1e-6)),
                ("ftol_abs", f(1e-8)),
                ("xtol_rel", f(0.0)),
                ("xtol_abs", String::new()),
            ]
        };
        let mk: Vec<Maker<COBYLABuilder>> = vec![
            (rest("300", 0.5), Box::new(COBYLABuilder::default)),
            (rest("300", 0.5), Box::new(LocalSolverConfig::cobyla)),
            (rest("11", 0.12), Box::new(|| COBYLABuilder::new(11, 0.12))),
        ];
        builder(ctx, "COBYLA", mk, v, |b| rd(b.build()), d - 1);
    }
    {
        let mut v: Vec<Setter<MoreThuenteBuilder>> = vec![];
        nums!(v, MoreThuenteBuilder, c1: f64 => [0.25, 0.0], c2: f64 => [0.5, 1.0], width_tolerance: f64 => [0.125, -1.0]);
        for b in [vec![0.1, 0.2], vec![], vec![1.0, 2.0, 3.0]] {
            v.push(("bounds", fv(&b), Box::new(move |x: MoreThuenteBuilder| x.bounds(a1(&b)))));
        }
        let def = vec![("kind", "mt".into()), ("c1", f(1e-4)), ("c2", f(0.9)), ("width_tolerance", f(1e-10)), ("bounds", fv(&[se, INF]))];
        let mk: Vec<Maker<MoreThuenteBuilder>> = vec![
            (def.clone(), Box::new(MoreThuenteBuilder::default)),
            (def, Box::new(LineSearchParams::morethuente)),
            (
                vec![("kind", "mt".into()), ("c1", f(0.11)), ("c2", f(0.12)), ("width_tolerance", f(0.13)), ("bounds", fv(&[0.14, 0.15]))],
                Box::new(|| MoreThuenteBuilder::new(0.11, 0.12, 0.13, a1(&[0.14, 0.15]))),
            ),
        ];
        builder(ctx, "More-Thuente", mk, v, |b| ls_fields(&b.build().clone()), d);
    }
    {
        let mut v: Vec<Setter<HagerZhangBuilder>> = vec![];
        nums!(v, HagerZhangBuilder, delta: f64 => [0.25, 0.0], sigma: f64 => [0.5, 1.0], epsilon: f64 => [0.125, -1.0], theta: f64 => [0.375, 0.0],
            gamma: f64 => [0.4375, 1.0], eta: f64 => [0.0625, 0.0]);
        for b in [vec![0.1, 0.2], vec![]] {
            v.push(("bounds", fv(&b), Box::new(move |x: HagerZhangBuilder| x.bounds(a1(&b)))));
        }
        let def = vec![
            ("kind", "hz".into()),
            ("delta", f(0.1)),
            ("sigma", f(0.9)),
            ("epsilon", f(1e-6)),
            ("theta", f(0.5)),
            ("gamma", f(0.66)),
            ("eta", f(0.01)),
            ("bounds", fv(&[e, 1e5])),
        ];
        let mk: Vec<Maker<HagerZhangBuilder>> = vec![
            (def.clone(), Box::new(HagerZhangBuilder::default)),
            (def, Box::new(LineSearchParams::hagerzhang)),
            (
                vec![
                    ("kind", "hz".into()),
                    ("delta", f(0.11)),
                    ("sigma", f(0.12)),
                    ("epsilon", f(0.13)),
                    ("theta", f(0.14)),
                    ("gamma", f(0.15)),
                    ("eta", f(0.16)),
                    ("bounds", fv(&[0.17, 0.18])),
                ],
                Box::new(|| HagerZhangBuilder::new(0.11, 0.12, 0.13, 0.14, 0.15, 0.16, a1(&[0.17, 0.18]))),
            ),
        ];
        builder(ctx, "Hager-Zhang", mk, v, |b| ls_fields(&b.build().clone()), d - 1);
    }
    ctx.phase("defaults", || {
        let items = [0u8];
        for_all(ctx.st, &items, ctx.deadline, |_| {
            if ls_fields(&LineSearchParams::default()) != ls_fields(&MoreThuenteBuilder::default().build()) {
                return Err("LineSearchParams::default() is not the default More-Thuente search".into());
            }
            let p = OQNLPParams::default();
            let got = format!(
                "{} {} {} {} {} {:?} {}",
                p.iterations, p.population_size, p.wait_cycle, p.threshold_factor, p.distance_factor, p.local_solver_type, p.seed
            );
            if got != "300 1000 15 0.2 0.75 COBYLA 0" {
                return Err(format!("default parameters: {got}"));
            }
            if fields(&p.local_solver_config) != fields(&COBYLABuilder::default().build()) {
                return Err("the default local solver configuration is not COBYLA's default".into());
            }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------------------- C22

#[derive(Clone)]
struct Cons(usize);
fn k0(x: &[f64], _: &mut ()) -> f64 {
    x[0] - 0.25
}
fn k1(x: &[f64], _: &mut ()) -> f64 {
    if x[0] > 2.5 { NAN } else { -x[0] }
}
fn k2(x: &[f64], _: &mut ()) -> f64 {
    1e-7 * (1.5 - x[0])
}
impl Problem for Cons {
    fn objective(&self, _: &Array1<f64>) -> Result<f64, EvaluationError> {
        Ok(0.0)
    }
    fn variable_bounds(&self) -> Array2<f64> {
        arr2(&[vec![0.0, 1.0]], 2)
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        (0..self.0).map(|i| [k0 as fn(&[f64], &mut ()) -> f64, k1, k2][i % 3]).collect()
    }
}

fn after<'a>(l: &'a str, tag: &str) -> Option<&'a str> {
    l.trim().strip_prefix(tag).map(|r| r.trim())
}
fn eq_num(s: &str, v: f64, digits: usize) -> bool {
    s == format!("{v:.digits$e}")
}

/// The text lists every solution with its objective and coordinates, the number of solutions, the
/// best objective, and, per solution, each constraint with its value and status.
fn text_ok(t: &str, set: &[(Pt, f64)], cons: Option<(&[f64], usize)>, desc: Option<&[&str]>, cv: &dyn Fn(&Pt) -> Vec<f64>) -> Result<(), String> {
    let bad = |w: String| Err(format!("{w}; the printed form is\n{t}"));
    let best = set.iter().fold(None, |b: Option<f64>, s| match b {
        Some(b) if rank(s.1, b).is_ge() => Some(b),
        _ => Some(s.1),
    });
    let mut total = None;
    let mut bestp = None;
    let mut sols: Vec<(usize, Option<String>, String, Vec<String>)> = vec![];
    let mut in_params = false;
    for l in t.lines() {
        if let Some(r) = after(l, "Total solutions:") {
            total = Some(r.to_string())
        } else if let Some(r) = after(l, "Best objective value:") {
            bestp = Some(r.to_string())
        } else if let Some(r) = after(l, "Solution #") {
            sols.push((r.parse().unwrap_or(0), None, String::new(), vec![]));
            in_params = false
        } else if let Some(s) = sols.last_mut() {
            if let Some(r) = after(l, "Objective:") {
                s.1 = Some(r.to_string())
            } else if after(l, "Parameters:").is_some() {
                in_params = true
            } else if after(l, "Constraint violations:").is_some() {
                in_params = false
            } else if let Some(r) = after(l, "Constraint ") {
                s.3.push(r.to_string())
            } else if in_params {
                s.2.push_str(l)
            }
        }
    }
    if total != Some(set.len().to_string()) {
        return bad(format!("total {total:?} instead of {}", set.len()));
    }
    match (&bestp, best) {
        (None, None) => {}
        (Some(p), Some(b)) if eq_num(p, b, 8) || (b == 0.0 && eq_num(p, -b, 8)) => {}
        x => return bad(format!("best objective {x:?}")),
    }
    if sols.len() != set.len() {
        return bad(format!("{} solutions listed instead of {}", sols.len(), set.len()));
    }
    for (i, (s, w)) in sols.iter().zip(set).enumerate() {
        if s.0 != i + 1 {
            return bad(format!("solution {} is numbered {}", i + 1, s.0));
        }
        if !s.1.as_ref().is_some_and(|o| eq_num(o, w.1, 8)) {
            return bad(format!("objective of solution {}", i + 1));
        }
        let ps: Vec<&str> = s.2.split(|c: char| "[], ".contains(c)).filter(|s| !s.is_empty() && !s.contains('―')).collect();
        if ps.len() != w.0.len() || !ps.iter().zip(&w.0).all(|(p, x)| eq_num(p, *x, 8)) {
            return bad(format!("coordinates of solution {}: {ps:?}", i + 1));
        }
        let vals = if cons.is_some() { cv(&w.0) } else { vec![] };
        if s.3.len() != vals.len() {
            return bad(format!("{} constraints listed for solution {} instead of {}", s.3.len(), i + 1, vals.len()));
        }
        for (j, (l, v)) in s.3.iter().zip(&vals).enumerate() {
            let ok = *v >= 0.0;
            let d = desc.and_then(|d| d.get(j)).map(|d| format!(" [{d}]")).unwrap_or_default();
            if !l.starts_with(&format!("{}{d}:", j + 1)) {
                return bad(format!("constraint {} of solution {}: {l}", j + 1, i + 1));
            }
            let rest = &l[l.rfind(": ").map_or(0, |k| k + 2)..];
            if rest.contains('✓') != ok || rest.contains('✗') == ok || rest.contains("satisfied") != ok || rest.contains("violated") == ok {
                return bad(format!("status of constraint {} ({v}) of solution {}: {l}", j + 1, i + 1));
            }
            if !rest.split_whitespace().any(|w| eq_num(w, *v, 6)) {
                return bad(format!("value of constraint {} ({v}) of solution {}: {l}", j + 1, i + 1));
            }
            if !ok && !v.is_nan() && !rest.contains(&format!("{:.6}", -v)) {
                return bad(format!("violation of constraint {} ({v}) of solution {}: {l}", j + 1, i + 1));
            }
        }
    }
    Ok(())
}

/// Every query and printed form of one set against its contents.
fn set_ok(st: &Stats, set: &[(Pt, f64)], cons: &[usize]) -> Result<(), String> {
    let s = SolutionSet {
            solutions: Array1::from(set.iter().map(|(p, v)| LocalSolution { point: a1(p), objective: *v }).collect::<Vec<_>>()),
        };
        st.state(hash(&set.iter().map(|x| x.1.to_bits()).collect::<Vec<_>>()));
        if s.len() != set.len() || s.is_empty() != set.is_empty() {
            return Err(format!("length {} and emptiness {} of a set of {}", s.len(), s.is_empty(), set.len()));
        }
        let it: Vec<(Pt, f64)> = s.solutions().map(|l| (l.x().to_vec(), l.fun())).collect();
        if !same_sets(&it, set) {
            return Err(format!("iterating over {set:?} yields {it:?}"));
        }
        for i in 0..set.len() {
            let l = &s[i];
            if !same(&l.point.to_vec(), &set[i].0) || l.objective.to_bits() != set[i].1.to_bits() {
                return Err(format!("member {i} of {set:?} is {l:?}"));
            }
        }
        if catch_unwind(AssertUnwindSafe(|| s[set.len()].objective)).is_ok() {
            return Err(format!("indexing past the end of {set:?}"));
        }
        let want = set.iter().enumerate().fold(None, |b: Option<usize>, (i, x)| match b {
            Some(b) if rank(x.1, set[b].1).is_ge() => Some(b),
            _ => Some(i),
        });
        match (s.best_solution(), want) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                // zeros of either sign are the same objective
                let same_zero = g.objective == 0.0 && set[w].1 == 0.0;
                let both_nan = g.objective.is_nan() && set[w].1.is_nan();
                if !same(&g.point.to_vec(), &set[w].0) && !same_zero && !both_nan {
                    return Err(format!("best of {set:?} is {g:?}"));
                }
            }
            x => return Err(format!("best of {set:?}: {x:?}")),
        }
        text_ok(&s.to_string(), set, None, None, &|_| vec![])?;
        for m in cons {
            let p = Cons(*m);
            let cv = |x: &Pt| p.constraints().iter().map(|c| c(x, &mut ())).collect::<Vec<_>>();
            let on = if *m == 0 { None } else { Some((&[][..], *m)) };
            text_ok(&s.display_with_problem(&p), set, on, None, &cv)?;
            text_ok(&s.display_with_constraints(&p, None), set, on, None, &cv)?;
            for k in 0..=3 {
                let ds = ["first", "second thing", "third"];
                text_ok(&s.display_with_constraints(&p, Some(&ds[..k])), set, on, Some(&ds[..k]), &cv)?;
            }
        }
        Ok(())
}

pub fn c22(ctx: &Ctx) {
    let st = ctx.st;
    ctx.rule("one execution: one solution set (every assignment of objectives from an alphabet with infinities, zeros of both signs and not-a-number), every query and printed form compared with the contents");
    let vals = [1.0, -2.5, 0.0, -0.0, NAN, -NAN, INF, -INF, 1e300, 5e-324, 1.0f64.next_up(), -1.23456789e-5];
    let max = if ctx.thorough { 5 } else { 4 };
    ctx.bound("set size", format!("0 to {max}, {} objective values", vals.len()));
    ctx.phase("sets", || {
        let mut items: Vec<Vec<usize>> = vec![];
        for n in 0..=max {
            let k = if n == 5 { 8 } else { vals.len() };
            items.extend(product(st, &vec![k; n]));
        }
        for_all(st, &items, ctx.deadline, |ix| {
            let d = ix.len() % 3 + 1;
            // points distinct, so that it is visible which member a query returns
            let set: Vec<(Pt, f64)> =
                ix.iter().enumerate().map(|(i, v)| ((0..d).map(|j| i as f64 + j as f64 / 8.0).collect(), vals[*v])).collect();
            set_ok(st, &set, &[0, 1, 2, 3])
        });
        st.sample(|| format!("objectives {:?}", items[items.len() / 2].iter().map(|i| vals[*i]).collect::<Vec<_>>()));
    });
    ctx.phase("large sets", || {
        // sizes beyond what the enumeration above reaches; the rank of the members and one or two
        // exceptional values are placed at every position
        let mut items = vec![];
        for n in [6usize, 9, 10, 11, 17, 33, 64, 99, 100, 101, 130, 257, 300] {
            for d in [1usize, 4, 7, 12, 20] {
                for m in [0usize, 5, 11] {
                    let step = if ctx.thorough { 1 } else { (n / 33).max(1) };
                    for at in (0..n).step_by(step).chain([n - 1]) {
                        for v in [NAN, -INF, -0.0, INF] {
                            items.push((n, d, m, at, v));
                        }
                    }
                }
            }
        }
        items.retain(|i| ctx.thorough || (i.1 + i.2 + i.3) % 3 == 0);
        ctx.bound("large sets", items.len());
        for_all(st, &items, ctx.deadline, |(n, d, m, at, v)| {
            let set: Vec<(Pt, f64)> = (0..*n)
                .map(|i| {
                    let f = if i == *at { *v } else { ((i * 7 + 3) % n) as f64 / 4.0 };
                    ((0..*d).map(|j| i as f64 / 16.0 - j as f64).collect(), f)
                })
                .collect();
            set_ok(st, &set, &[*m])
        });
    });
    ctx.phase("names", || {
        // every way to write a solver name in upper and lower case
        let names = [
            ("lbfgs", "LBFGS"),
            ("nelder-mead", "NelderMead"),
            ("neldermead", "NelderMead"),
            ("steepestdescent", "SteepestDescent"),
            ("trustregion", "TrustRegion"),
            ("newton-cg", "NewtonCG"),
            ("newtoncg", "NewtonCG"),
            ("cobyla", "COBYLA"),
        ];
        for_all(st, &names, ctx.deadline, |(n, w)| {
            let k = n.len().min(if ctx.thorough { 15 } else { 9 });
            for m in 0..1u32 << k {
                let s: String = n
                    .chars()
                    .enumerate()
                    .map(|(i, c)| if i < 32 && m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
                    .collect();
                let r = LocalSolverType::from_string(&s).map(|t| format!("{t:?}"));
                if r != Ok(w.to_string()) {
                    return Err(format!("the solver named {s} is {r:?}"));
                }
            }
            for cut in 0..n.len() {
                let s = &n[..cut];
                if names.iter().all(|x| x.0 != s) && LocalSolverType::from_string(s).is_ok() {
                    return Err(format!("{s:?} names a solver"));
                }
            }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------------------- C24

pub fn c24(ctx: &Ctx) {
    let st = ctx.st;
    ctx.rule("one execution: one sequence of operations on a filter; after every operation every point (value) of a lattice is offered to it");
    ctx.assume("coordinates and factors whose squares are exact, so that the distance comparison has one right answer");
    let depth = if ctx.thorough { 5 } else { 4 };
    ctx.bound("operation sequence length", depth);
    // (dimension, distance factor); lattice points are multiples of 0.5
    let lat = |d: usize| -> Vec<Pt> {
        let c: &[f64] = match d {
            1 => &[-3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.5],
            2 => &[-1.5, 0.0, 0.5, 2.5],
            _ => &[-1.0, 0.0, 2.0],
        };
        let mut o = vec![vec![]];
        for _ in 0..d {
            o = o.into_iter().flat_map(|p: Pt| c.iter().map(move |x| [&p[..], &[*x]].concat())).collect();
        }
        o
    };
    let stored = |d: usize| -> Vec<Pt> {
        match d {
            1 => vec![vec![0.0], vec![1.0], vec![-2.0], vec![0.0]],
            2 => vec![vec![0.0, 0.0], vec![1.5, 2.0], vec![-1.5, 0.5]],
            _ => vec![vec![0.0, 0.0, 0.0], vec![1.0, 2.0, 2.0], vec![-1.0, 0.0, 2.0]],
        }
    };
    #[derive(Debug, Clone)]
    enum Op {
        Add(usize),
        Set(Vec<usize>),
        Redo,
    }
    ctx.phase("distance filter", || {
        let mut items = vec![];
        for d in 1..=3usize {
            let n = stored(d).len();
            let mut ops: Vec<Op> = (0..n).map(Op::Add).collect();
            if cfg!(feature = "ckpt") {
                ops.extend([Op::Set(vec![]), Op::Set(vec![1]), Op::Set(vec![2, 0]), Op::Redo]);
            }
            for df in [0.0, -0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 100.0, INF] {
                for k in 0..=depth {
                    for p in product(st, &vec![ops.len(); k]) {
                        items.push((d, df, p.iter().map(|i| ops[*i].clone()).collect::<Vec<_>>()));
                    }
                }
            }
        }
        for_all(st, &items, ctx.deadline, |(d, df, ops)| {
            let pts = stored(*d);
            let mut fl = DistanceFilter::new(FilterParams { distance_factor: *df, wait_cycle: 3, threshold_factor: 0.1 })
                .map_err(|e| e.to_string())?;
            let mut have: Vec<usize> = vec![];
            let mk = |i: usize| LocalSolution { point: a1(&pts[i]), objective: [2.0, NAN, -INF, 0.0][i % 4] };
            for op in ops {
                match op {
                    Op::Add(i) => {
                        fl.add_solution(mk(*i));
                        have.push(*i);
                    }
                    Op::Set(v) => {
                        #[cfg(feature = "ckpt")]
                        fl.set_solutions(v.iter().map(|i| mk(*i)).collect());
                        have = v.clone();
                    }
                    Op::Redo => {
                        #[cfg(feature = "ckpt")]
                        {
                            let s = fl.get_solutions().clone();
                            let mut g = DistanceFilter::new(FilterParams { distance_factor: *df, wait_cycle: 9, threshold_factor: 7.0 })
                                .map_err(|e| e.to_string())?;
                            g.set_solutions(s);
                            fl = g;
                        }
                    }
                }
            }
            #[cfg(feature = "ckpt")]
            {
                let s: Vec<Pt> = fl.get_solutions().iter().map(|s| s.point.to_vec()).collect();
                if s != have.iter().map(|i| pts[*i].clone()).collect::<Vec<_>>() {
                    return Err(format!("the filter holds {s:?} after {ops:?}"));
                }
            }
            st.state(hash(&(*d, df.to_bits(), &have)));
            for x in lat(*d) {
                let want = have.iter().all(|i| x.iter().zip(&pts[*i]).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() > df * df);
                if fl.check(&a1(&x)) != want {
                    return Err(format!("distance factor {df}, stored {:?}: the point {x:?} is {}", have.iter().map(|i| &pts[*i]).collect::<Vec<_>>(), if want { "rejected" } else { "accepted" }));
                }
            }
            Ok(())
        });
        st.sample(|| format!("{:?}", items[items.len() / 2]));
    });
    ctx.phase("long histories", || {
        // hundreds of stored solutions, in up to nine dimensions: the point of each of them, and a
        // point just outside and just inside its ball, are offered
        let mut items = vec![];
        for n in [5usize, 9, 16, 17, 33, 64, 65, 101, 150, 260, 520] {
            for d in [1usize, 2, 5, 9, 16] {
                for df in [0.0, 0.5, 1.0, 1.5, 6.0] {
                    for set in [false, true] {
                        if set && !cfg!(feature = "ckpt") {
                            continue;
                        }
                        items.push((n, d, df, set));
                    }
                }
            }
        }
        ctx.bound("long histories", items.len());
        for_all(st, &items, ctx.deadline, |(n, d, df, set)| {
            let mut fl = DistanceFilter::new(FilterParams { distance_factor: *df, wait_cycle: 3, threshold_factor: 0.1 })
                .map_err(|e| e.to_string())?;
            // not in order, apart by at least 2 along the last axis
            let pts: Vec<Pt> = (0..*n)
                .map(|i| (0..*d).map(|j| if j + 1 == *d { 2.0 * ((i * 271) % n) as f64 } else { (i * (j + 3) % 5) as f64 / 2.0 }).collect())
                .collect();
            let mk = |i: usize| LocalSolution { point: a1(&pts[i]), objective: (i % 7) as f64 - 3.0 };
            let mut have: Vec<usize> = vec![];
            if *set {
                #[cfg(feature = "ckpt")]
                fl.set_solutions((0..n / 2).map(mk).collect());
                have.extend(0..n / 2);
            }
            for i in have.len()..*n {
                fl.add_solution(mk(i));
                have.push(i);
                st.step(1);
            }
            #[cfg(feature = "ckpt")]
            {
                let s: Vec<Pt> = fl.get_solutions().iter().map(|s| s.point.to_vec()).collect();
                if s != pts {
                    return Err(format!("the filter holds {} points after {n} were stored, or in another order", s.len()));
                }
            }
            st.state(hash(&(*n, *d, df.to_bits(), *set)));
            for i in 0..*n {
                for (ax, off) in [(0, 0.0), (*d - 1, *df), (*d - 1, -*df), (0, df + 0.25), (0, -df - 0.25), (*d - 1, df + 0.25), (0, 100.0), (*d - 1, 0.25)] {
                    let mut x = pts[i].clone();
                    x[ax] += off;
                    let want = pts.iter().all(|p| x.iter().zip(p).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() > df * df);
                    if fl.check(&a1(&x)) != want {
                        return Err(format!("distance factor {df}, {n} stored solutions, at {off} from the one stored as number {} ({:?}): the point {x:?} is {}", i + 1, pts[i], if want { "rejected" } else { "accepted" }));
                    }
                }
            }
            Ok(())
        });
    });
    ctx.phase("merit filter", || {
        let v = [-INF, f64::MIN, -1.0, -5e-324, -0.0, 0.0, 5e-324, 1.0, 1.0f64.next_up(), f64::MAX, INF];
        let mut items = vec![];
        for k in 0..=depth {
            items.extend(product(st, &vec![v.len(); k]));
        }
        for_all(st, &items, ctx.deadline, |ts| {
            let mut m = if ts.len() % 2 == 0 { MeritFilter::new() } else { MeritFilter::default() };
            let mut t = INF;
            for i in ts {
                m.update_threshold(v[*i]);
                t = v[*i];
            }
            st.state(hash(&t.to_bits()));
            if m.threshold.to_bits() != t.to_bits() {
                return Err(format!("the threshold is {} after setting {t}", m.threshold));
            }
            for x in v {
                if m.check(x) != (x <= t) {
                    return Err(format!("threshold {t}: the value {x} is {}", if x <= t { "rejected" } else { "accepted" }));
                }
            }
            if m.check(NAN) {
                return Err(format!("threshold {t}: not-a-number is accepted"));
            }
            Ok(())
        });
    });
    ctx.phase("construction", || {
        let v = [0.0, -0.0, 0.5, INF, -5e-324, -1.0, -INF, NAN, -NAN, f64::MAX];
        for_all(st, &v, ctx.deadline, |df| {
            match DistanceFilter::new(FilterParams { distance_factor: *df, wait_cycle: 0, threshold_factor: -1.0 }) {
                Ok(_) if *df >= 0.0 => Ok(()),
                Err(FiltersErrors::NegativeDistanceFactor { value }) if !(*df >= 0.0) && value.to_bits() == df.to_bits() => Ok(()),
                r => Err(format!("distance factor {df}: {:?}", r.map(|_| ()))),
            }
        });
    });
}
