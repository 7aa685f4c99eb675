//! A problem whose behaviour is chosen by the explorer: the objective at each point of the
//! reference set, the basin each local search falls into, and the value of each basin.
//!
//! The local solver is a trust region with one full Newton step: with gradient x - t and the
//! identity as hessian it proposes exactly t and accepts it iff f(t) < f(x).
use crate::core::*;
use crate::explore::Choices;
use globalsearch::problem::Problem;
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2};
use std::sync::{Arc, Mutex};

/// One answer of the objective. `None` is an error.
pub type Ans = Option<f64>;

#[derive(Clone, Debug)]
pub struct Geo {
    pub name: &'static str,
    pub bounds: Vec<(f64, f64)>,
    /// all points of the reference set: lower, upper, midpoint, custom points
    pub pts: Vec<Pt>,
    pub targets: Vec<Pt>,
    pub base: Option<Base>,
}
/// What alternative 0 of every choice means: without it, the first of the alternatives.
#[derive(Clone, Debug)]
pub struct Base {
    /// per point: index of its value
    pub v: Vec<usize>,
    /// per point: the basins a local search from it may reach, the usual one first
    pub tgts: Vec<Vec<usize>>,
    /// per basin: index of its value
    pub f: Vec<usize>,
}
impl Geo {
    pub fn custom(&self) -> Vec<Pt> {
        self.pts[3..].to_vec()
    }
    pub fn new(name: &'static str, bounds: &[(f64, f64)], custom: &[&[f64]], targets: &[&[f64]]) -> Geo {
        let mut pts: Vec<Pt> = vec![
            bounds.iter().map(|b| b.0).collect(),
            bounds.iter().map(|b| b.1).collect(),
            bounds.iter().map(|b| (b.0 + b.1) / 2.0).collect(),
        ];
        pts.extend(custom.iter().map(|c| c.to_vec()));
        Geo { name, bounds: bounds.to_vec(), pts, targets: targets.iter().map(|t| t.to_vec()).collect(), base: None }
    }
}

pub struct State {
    pub ch: Choices,
    pub v: Vec<Option<Ans>>,
    pub tgt: Vec<Option<usize>>,
    pub ft: Vec<Option<Ans>>,
    pub dur: Vec<Option<i64>>,
}

#[derive(Clone)]
pub struct Script {
    pub geo: Arc<Geo>,
    pub vals: Arc<Vec<Ans>>,
    pub fvals: Arc<Vec<Ans>>,
    /// answer for points that are neither reference points nor basins (Stage 1 trials)
    pub other: Ans,
    /// how long the local search from a point takes (milliseconds of virtual time)
    pub durs: Arc<Vec<i64>>,
    pub st: Arc<Mutex<State>>,
    pub log: Log,
}

impl Script {
    pub fn new(geo: Arc<Geo>, vals: Arc<Vec<Ans>>, fvals: Arc<Vec<Ans>>, ch: Choices) -> Script {
        let (n, m) = (geo.pts.len(), geo.targets.len());
        Script {
            geo,
            vals,
            fvals,
            other: None,
            durs: Arc::new(vec![]),
            st: Arc::new(Mutex::new(State {
                ch,
                v: vec![None; n],
                tgt: vec![None; n],
                ft: vec![None; m],
                dur: vec![None; n],
            })),
            log: Log::default(),
        }
    }
    pub fn pt_index(&self, x: &[f64]) -> Option<usize> {
        self.geo.pts.iter().position(|p| same(p, x))
    }
    pub fn target_index(&self, x: &[f64]) -> Option<usize> {
        self.geo.targets.iter().position(|t| t.iter().zip(x).all(|(a, b)| (a - b).abs() < 1e-9))
    }
    fn eval(&self, x: &[f64]) -> Ans {
        let mut s = self.st.lock().unwrap();
        let s = &mut *s;
        if let Some(i) = self.pt_index(x) {
            let n = self.vals.len();
            let k = self.geo.base.as_ref().map_or(0, |b| b.v[i]);
            *s.v[i].get_or_insert_with(|| self.vals[(k + s.ch.pick(n)) % n])
        } else if let Some(i) = self.target_index(x) {
            let n = self.fvals.len();
            let k = self.geo.base.as_ref().map_or(0, |b| b.f[i]);
            *s.ft[i].get_or_insert_with(|| self.fvals[(k + s.ch.pick(n)) % n])
        } else {
            self.other
        }
    }
    pub fn take_choices(&self) -> Choices {
        std::mem::take(&mut self.st.lock().unwrap_or_else(|e| e.into_inner()).ch)
    }
    /// A copy that answers as before, with an empty log.
    pub fn again(&self) -> Script {
        let s = self.st.lock().unwrap();
        Script {
            geo: self.geo.clone(),
            vals: self.vals.clone(),
            fvals: self.fvals.clone(),
            other: self.other,
            durs: self.durs.clone(),
            st: Arc::new(Mutex::new(State {
                ch: Choices::default(),
                v: s.v.clone(),
                tgt: s.tgt.clone(),
                ft: s.ft.clone(),
                dur: s.dur.clone(),
            })),
            log: Log::default(),
        }
    }
    pub fn describe(&self) -> String {
        let s = self.st.lock().unwrap();
        format!(
            "objective at {:?} = {:?}; basins {:?} with values {:?}; local search from each point goes to {:?} and takes {:?} ms",
            self.geo.pts, s.v, self.geo.targets, s.ft, s.tgt, s.dur
        )
    }
}

impl Problem for Script {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let x = x.to_vec();
        let r = self.eval(&x);
        self.log.push(Ev::Obj(x, r));
        r.ok_or_else(err)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let p = x.to_vec();
        let g = match self.pt_index(&p) {
            Some(i) => {
                let mut s = self.st.lock().unwrap();
                let s = &mut *s;
                let t = *s.tgt[i].get_or_insert_with(|| match &self.geo.base {
                    Some(b) => b.tgts[i][s.ch.pick(b.tgts[i].len())],
                    None => s.ch.pick(self.geo.targets.len()),
                });
                if !self.durs.is_empty() {
                    let m = self.durs.len();
                    let d = *s.dur[i].get_or_insert_with(|| self.durs[s.ch.pick(m)]);
                    crate::vclock::advance_ms(d);
                }
                x - &a1(&self.geo.targets[t])
            }
            None => Array1::zeros(x.len()),
        };
        self.log.push(Ev::Grad(p));
        Ok(g)
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        self.log.push(Ev::Hess(x.to_vec()));
        Ok(Array2::eye(x.len()))
    }
    fn variable_bounds(&self) -> Array2<f64> {
        let rows: Vec<Pt> = self.geo.bounds.iter().map(|b| vec![b.0, b.1]).collect();
        arr2(&rows, 2)
    }
}

impl crate::trace::Traced for Script {
    fn log(&self) -> &Log {
        &self.log
    }
    fn again(&self) -> Script {
        Script::again(self)
    }
}
