//! Reference model of the refinement phase, written from the properties' statements.
use crate::core::*;

#[derive(Clone, Debug)]
pub struct Model {
    pub thr: f64,
    pub unchanged: usize,
    pub set: Vec<(Pt, f64)>,
    /// every local solution found so far
    pub found: Vec<(Pt, f64)>,
    pub df: f64,
    pub tf: f64,
    pub wait: usize,
    pub tol: (f64, f64),
    pub exclude: Option<Vec<(f64, f64)>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Upd {
    OutOfBounds,
    First,
    Replaced,
    Joined,
    Ignored,
}

impl Model {
    pub fn new(s: &Spec, bounds: &[(f64, f64)]) -> Model {
        Model {
            thr: f64::INFINITY,
            unchanged: 0,
            set: vec![],
            found: vec![],
            df: s.df,
            tf: s.tf,
            wait: s.wait,
            tol: s.tols(),
            exclude: s.exclude.then(|| bounds.to_vec()),
        }
    }
    pub fn passes(&self, p: &[f64], v: f64) -> bool {
        v <= self.thr && self.found.iter().all(|f| d2(p, &f.0) > self.df * self.df)
    }
    pub fn tol_of(&self, a: f64, b: f64) -> f64 {
        self.tol.0.max(self.tol.1 * a.abs().max(b.abs()))
    }
    pub fn tie(&self, a: f64, b: f64) -> bool {
        if a.is_finite() && b.is_finite() { (a - b).abs() <= self.tol_of(a, b) } else { a == b }
    }
    pub fn better(&self, a: f64, b: f64) -> bool {
        if a.is_nan() {
            return false;
        }
        if b.is_nan() {
            return true;
        }
        if a.is_finite() && b.is_finite() { a < b - self.tol_of(a, b) } else { a < b }
    }
    fn set_thr(&mut self, v: f64) {
        self.thr = if v.is_nan() { f64::INFINITY } else { v };
    }
    pub fn process(&mut self, o: (Pt, f64)) -> Upd {
        self.found.push(o.clone());
        if let Some(b) = &self.exclude {
            if !inside(&o.0, b) {
                return Upd::OutOfBounds;
            }
        }
        if self.set.is_empty() {
            self.set_thr(o.1);
            self.set = vec![o];
            return Upd::First;
        }
        let inc = self.set[0].1;
        if self.better(o.1, inc) {
            self.set_thr(o.1);
            self.set = vec![o];
            Upd::Replaced
        } else if self.tie(o.1, inc) && self.set.iter().all(|s| d2(&s.0, &o.0) >= self.df * self.df) {
            self.set.push(o);
            Upd::Joined
        } else {
            Upd::Ignored
        }
    }
    pub fn stage1(&mut self, o: (Pt, f64)) -> Upd {
        self.set_thr(o.1);
        self.process(o)
    }
    pub fn reject(&mut self) {
        self.unchanged += 1;
        if self.unchanged >= self.wait {
            let t = self.thr + self.tf * (1.0 + self.thr.abs());
            if !t.is_nan() {
                self.thr = t;
            }
            self.unchanged = 0;
        }
    }
    pub fn best(&self) -> Option<&(Pt, f64)> {
        self.set.iter().fold(None, |b: Option<&(Pt, f64)>, s| match b {
            Some(x) if rank(s.1, x.1).is_lt() => Some(s),
            None => Some(s),
            b => b,
        })
    }
    pub fn hit(&self, target: Option<f64>) -> bool {
        match (target, self.best()) {
            (Some(t), Some(b)) => b.1 <= t,
            _ => false,
        }
    }
    pub fn key(&self) -> u64 {
        crate::explore::hash(&(
            self.thr.to_bits(),
            self.unchanged,
            self.set.iter().map(|s| (bits(&s.0), s.1.to_bits())).collect::<Vec<_>>(),
            self.found.iter().map(|s| (bits(&s.0), s.1.to_bits())).collect::<Vec<_>>(),
        ))
    }
    /// One batch: returns the trials from which local searches start, in order.
    /// `outcome` gives the result of the local search from a point.
    pub fn batch<E>(
        &mut self,
        trials: &[(Pt, f64)],
        mut outcome: impl FnMut(&Pt, f64) -> Result<(Pt, f64), E>,
    ) -> Result<Vec<Pt>, E> {
        let judged: Vec<bool> = trials.iter().map(|t| self.passes(&t.0, t.1)).collect();
        for ok in &judged {
            if !ok {
                self.reject();
            }
        }
        let mut starts = vec![];
        for (t, ok) in trials.iter().zip(&judged) {
            if *ok {
                starts.push(t.0.clone());
                let o = outcome(&t.0, t.1)?;
                self.thr = t.1;
                self.process(o);
            }
        }
        Ok(starts)
    }
}
