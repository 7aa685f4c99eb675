//! Reading a run off the calls the user's problem received.
use crate::core::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::problem::Problem;
use globalsearch::scatter_search::ScatterSearch;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

/// A problem that records its calls and can be replayed with the same answers.
pub trait Traced: Problem + Clone + Send + Sync {
    fn log(&self) -> &Log;
    fn again(&self) -> Self;
}

pub type Outcome = Result<(Pt, f64), String>;

/// What the local solver does from a given start, memoised.
pub struct Oracle<'a, P: Traced> {
    p: &'a P,
    s: &'a Spec,
    memo: HashMap<Vec<u64>, Rc<(Vec<Ev>, Outcome)>>,
}
impl<'a, P: Traced> Oracle<'a, P> {
    pub fn new(p: &'a P, s: &'a Spec) -> Self {
        Oracle { p, s, memo: HashMap::new() }
    }
    pub fn solve(&mut self, x: &[f64]) -> Rc<(Vec<Ev>, Outcome)> {
        if let Some(r) = self.memo.get(&bits(x)) {
            return r.clone();
        }
        let q = self.p.again();
        let log = q.log().clone();
        let ls = LocalSolver::new(q, self.s.solver.clone(), self.s.config.clone());
        let r = match catch_unwind(AssertUnwindSafe(|| ls.solve(a1(x)))) {
            Ok(Ok(l)) => Ok((l.point.to_vec(), l.objective)),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => Err(format!("panic: {}", panic_text(e))),
        };
        let r = Rc::new((log.take(), r));
        self.memo.insert(bits(x), r.clone());
        r
    }
}

/// Stage 1 on its own: reference set with objectives, starting point, calls.
pub struct Stage1 {
    pub out: Result<(Vec<(Pt, f64)>, Pt), String>,
    pub log: Vec<Ev>,
}
pub fn stage1<P: Traced>(p: &P, s: &Spec) -> Stage1 {
    stage1_par(p, s, s.batch != Batch::Off)
}
pub fn stage1_par<P: Traced>(p: &P, s: &Spec, _par: bool) -> Stage1 {
    let q = p.again();
    let log = q.log().clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut ss = ScatterSearch::new(q, s.params()).map_err(|e| e.to_string())?;
        #[cfg(feature = "rayon")]
        {
            ss = ss.parallel(_par);
        }
        if let Some(c) = &s.custom {
            ss = ss.with_custom_points(c.iter().map(|p| a1(p)).collect());
        }
        let (rs, best) = ss.run().map_err(|e| e.to_string())?;
        Ok((rs.into_iter().map(|(p, v)| (p.to_vec(), v)).collect(), best.to_vec()))
    }));
    let out = match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    };
    Stage1 { out, log: log.take() }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub start: Pt,
    pub outcome: Outcome,
    pub pos: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Parsed {
    pub searches: Vec<Found>,
    /// calls that belong to no local search
    pub outside: Vec<(usize, Ev)>,
}
impl Parsed {
    pub fn starts(&self) -> Vec<Pt> {
        self.searches.iter().map(|s| s.start.clone()).collect()
    }
    /// Outcomes of the local searches that succeeded
    pub fn outcomes(&self) -> Vec<(Pt, f64)> {
        self.searches.iter().filter_map(|s| s.outcome.clone().ok()).collect()
    }
}

fn point(e: &Ev) -> Option<&Pt> {
    match e {
        Ev::Obj(p, _) | Ev::Grad(p) | Ev::Hess(p) => Some(p),
        Ev::Mark(_) => None,
    }
}

/// Split the calls after Stage 1 into local searches: a search from x makes exactly the calls
/// the local solver makes from x. `cands` are possible starts other than the first point called.
pub fn parse<P: Traced>(log: &[Ev], from: usize, or: &mut Oracle<P>, cands: &[Pt]) -> Parsed {
    let mut out = Parsed::default();
    let mut i = from;
    while i < log.len() {
        let Some(x) = point(&log[i]) else {
            i += 1;
            continue;
        };
        let mut hit: Option<(Pt, usize, Outcome)> = None;
        for c in std::iter::once(x).chain(cands) {
            let r = or.solve(c);
            let n = r.0.len();
            if n > hit.as_ref().map_or(0, |h| h.1)
                && i + n <= log.len()
                && r.0.iter().zip(&log[i..i + n]).all(|(a, b)| a.same(b))
            {
                hit = Some((c.clone(), n, r.1.clone()));
                if same(c, x) {
                    break;
                }
            }
        }
        match hit {
            Some((start, n, outcome)) => {
                out.searches.push(Found { start, outcome, pos: i });
                i += n;
            }
            None => {
                out.outside.push((i, log[i].clone()));
                i += 1;
            }
        }
    }
    out
}
