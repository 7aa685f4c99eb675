//! Ordinary problems with analytic derivatives, recording every call.
use crate::core::*;
use crate::trace::Traced;
use globalsearch::local_solver::builders::*;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Sphere,
    /// 2^d equal minima
    Wells,
    /// unequal minima
    Tilted,
    Ripple,
    /// minimum outside of the box: unconstrained solvers leave it
    Slope,
    Flat,
    /// error outside the ball of radius 2 around the origin
    Patchy,
    /// curved valley, coupled variables (not in KINDS)
    Rosen,
    /// badly scaled, with a kink-like quartic (not in KINDS)
    Steep,
    /// no number in one band, infinite in another (not in KINDS)
    Holes,
    /// terraces: many points tie (not in KINDS)
    Steps,
    /// unequal minima of large value (not in KINDS)
    High,
}
pub const KINDS: [Kind; 7] =
    [Kind::Sphere, Kind::Wells, Kind::Tilted, Kind::Ripple, Kind::Slope, Kind::Flat, Kind::Patchy];

/// Runs that make more calls than this are cut off by failing evaluations.
pub const CAP: usize = 20_000;

#[derive(Clone)]
pub struct Fun {
    pub kind: Kind,
    pub bounds: Vec<(f64, f64)>,
    pub cons: Vec<fn(&[f64], &mut ()) -> f64>,
    pub log: Log,
    /// refuse Hessians on which the inner loop of argmin's Newton-CG, with this threshold, does not end
    pub ends: Option<f64>,
}
impl Fun {
    pub fn new(kind: Kind, bounds: &[(f64, f64)]) -> Fun {
        Fun { kind, bounds: bounds.to_vec(), cons: vec![], log: Log::default(), ends: None }
    }
    pub fn value(&self, x: &[f64]) -> Option<f64> {
        let s = |f: &dyn Fn(f64) -> f64| Some(x.iter().map(|v| f(*v)).sum::<f64>());
        match self.kind {
            Kind::Sphere => s(&|v| (v - 0.3) * (v - 0.3)),
            Kind::Wells => s(&|v| (v * v - 1.0) * (v * v - 1.0)),
            Kind::Tilted => s(&|v| (v * v - 1.0) * (v * v - 1.0) + 0.25 * v),
            Kind::Ripple => s(&|v| v * v + 2.0 * (1.0 - (4.0 * v).cos())),
            Kind::Slope => s(&|v| 0.5 * (1.0 + (v + 4.0) * (v + 4.0)).sqrt() - 2.0),
            Kind::Flat => Some(7.0),
            Kind::Rosen => Some(if x.len() == 1 {
                (1.0 - x[0]).powi(2) + 5.0 * (x[0] * x[0] - x[0]).powi(2)
            } else {
                x.windows(2).map(|w| (1.0 - w[0]).powi(2) + 20.0 * (w[1] - w[0] * w[0]).powi(2)).sum::<f64>()
            }),
            Kind::Steep => Some(
                x.iter().enumerate().map(|(i, v)| 10f64.powi(2 * i as i32 + 1) * (v - 0.2).powi(4) + 0.1 * v).sum::<f64>(),
            ),
            Kind::Holes => match x[0] {
                v if v > 1.2 => Some(f64::INFINITY),
                v if v > 0.5 && v < 0.9 => Some(f64::NAN),
                _ => s(&|v| (v * v - 1.0) * (v * v - 1.0)),
            },
            Kind::High => {
                Some(100.0 + x.iter().map(|v| (v * v - 1.0) * (v * v - 1.0) + 0.25 * v).sum::<f64>())
            }
            Kind::Steps => Some((2.0 * x.iter().map(|v| v * v).sum::<f64>()).floor()),
            Kind::Patchy => {
                if x.iter().map(|v| v * v).sum::<f64>() > 4.0 {
                    None
                } else {
                    s(&|v| (v - 0.3) * (v - 0.3))
                }
            }
        }
    }
    pub fn grad(&self, x: &[f64]) -> Pt {
        if self.kind == Kind::Rosen {
            let mut g = vec![0.0; x.len()];
            if x.len() == 1 {
                g[0] = -2.0 * (1.0 - x[0]) + 10.0 * (x[0] * x[0] - x[0]) * (2.0 * x[0] - 1.0);
            }
            for i in 0..x.len().saturating_sub(1) {
                let r = x[i + 1] - x[i] * x[i];
                g[i] += -2.0 * (1.0 - x[i]) - 80.0 * x[i] * r;
                g[i + 1] += 40.0 * r;
            }
            return g;
        }
        x.iter()
            .enumerate()
            .map(|(i, &v)| match self.kind {
                Kind::Rosen => 0.0,
                Kind::Steep => 4.0 * 10f64.powi(2 * i as i32 + 1) * (v - 0.2).powi(3) + 0.1,
                Kind::Sphere | Kind::Patchy => 2.0 * (v - 0.3),
                Kind::Wells | Kind::Holes => 4.0 * v * (v * v - 1.0),
                Kind::Tilted | Kind::High => 4.0 * v * (v * v - 1.0) + 0.25,
                Kind::Ripple => 2.0 * v + 8.0 * (4.0 * v).sin(),
                Kind::Slope => 0.5 * (v + 4.0) / (1.0 + (v + 4.0) * (v + 4.0)).sqrt(),
                Kind::Flat | Kind::Steps => 0.0,
            })
            .collect()
    }
    pub fn hess(&self, x: &[f64]) -> Array2<f64> {
        if self.kind == Kind::Rosen {
            let mut h = Array2::zeros((x.len(), x.len()));
            if x.len() == 1 {
                h[[0, 0]] = 2.0 + 10.0 * ((2.0 * x[0] - 1.0).powi(2) + 2.0 * (x[0] * x[0] - x[0]));
            }
            for i in 0..x.len().saturating_sub(1) {
                h[[i, i]] += 2.0 - 80.0 * (x[i + 1] - 3.0 * x[i] * x[i]);
                h[[i, i + 1]] += -80.0 * x[i];
                h[[i + 1, i]] += -80.0 * x[i];
                h[[i + 1, i + 1]] += 40.0;
            }
            return h;
        }
        Array2::from_diag(&Array1::from(
            x.iter()
                .enumerate()
                .map(|(i, &v)| match self.kind {
                    Kind::Rosen => 0.0,
                    Kind::Steep => 12.0 * 10f64.powi(2 * i as i32 + 1) * (v - 0.2).powi(2),
                    Kind::Sphere | Kind::Patchy => 2.0,
                    Kind::Wells | Kind::Holes | Kind::Tilted | Kind::High => 12.0 * v * v - 4.0,
                    Kind::Ripple => 2.0 + 32.0 * (4.0 * v).cos(),
                    Kind::Slope => 0.5 / (1.0 + (v + 4.0) * (v + 4.0)).powf(1.5),
                    Kind::Flat | Kind::Steps => 0.0,
                })
                .collect::<Vec<f64>>(),
        ))
    }
}
/// The inner loop of argmin's Newton-CG: does it end?
fn cg_ends(g: &Array1<f64>, h: &Array2<f64>, threshold: f64) -> bool {
    let factor = 0.5f64.min(g.dot(g).sqrt().sqrt()) * g.dot(g).sqrt();
    let mut r = g.clone();
    let mut p = -g;
    let mut rtr = r.dot(&r);
    for _ in 0..2000 {
        let hp = h.dot(&p);
        let alpha = rtr / p.dot(&hp);
        r = &r + &(&hp * alpha);
        let next = r.dot(&r);
        if p.dot(&hp) <= threshold || next <= factor {
            return true;
        }
        p = -&r + &(&p * (next / rtr));
        rtr = next;
    }
    false
}
impl Problem for Fun {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let x = x.to_vec();
        let v = if self.log.len() > CAP { None } else { self.value(&x) };
        self.log.push(Ev::Obj(x, v));
        v.ok_or_else(err)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let x = x.to_vec();
        if self.log.len() > CAP {
            return Err(err());
        }
        let g = self.grad(&x);
        self.log.push(Ev::Grad(x));
        Ok(Array1::from(g))
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        let x = x.to_vec();
        let h = self.hess(&x);
        let endless = self.ends.is_some_and(|t| !cg_ends(&Array1::from(self.grad(&x)), &h, t));
        self.log.push(Ev::Hess(x));
        if endless { Err(err()) } else { Ok(h) }
    }
    fn variable_bounds(&self) -> Array2<f64> {
        arr2(&self.bounds.iter().map(|b| vec![b.0, b.1]).collect::<Vec<_>>(), 2)
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        self.cons.clone()
    }
}
impl Traced for Fun {
    fn log(&self) -> &Log {
        &self.log
    }
    fn again(&self) -> Fun {
        Fun { log: Log::default(), ..self.clone() }
    }
}

/// A short run of every local solver.
pub fn solvers() -> Vec<(&'static str, LocalSolverType, LocalSolverConfig)> {
    let mt = || MoreThuenteBuilder::default().build();
    let hz = || HagerZhangBuilder::default().build();
    vec![
        ("tr", LocalSolverType::TrustRegion, TrustRegionBuilder::default().max_iter(6).build()),
        (
            "tr-cauchy",
            LocalSolverType::TrustRegion,
            TrustRegionBuilder::default().method(TrustRegionRadiusMethod::Cauchy).max_iter(6).build(),
        ),
        ("lbfgs-mt", LocalSolverType::LBFGS, LBFGSBuilder::default().max_iter(6).line_search_params(mt()).build()),
        ("lbfgs-hz", LocalSolverType::LBFGS, LBFGSBuilder::default().max_iter(6).line_search_params(hz()).build()),
        (
            "sd",
            LocalSolverType::SteepestDescent,
            SteepestDescentBuilder::default().max_iter(4).line_search_params(mt()).build(),
        ),
        (
            "ncg",
            LocalSolverType::NewtonCG,
            NewtonCGBuilder::default().max_iter(4).line_search_params(mt()).build(),
        ),
        ("nm", LocalSolverType::NelderMead, NelderMeadBuilder::default().max_iter(12).build()),
        ("cobyla", LocalSolverType::COBYLA, COBYLABuilder::default().max_iter(30).build()),
    ]
}
