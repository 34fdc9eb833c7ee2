//! A right-hand side for the implicit method that makes every Newton iterate and every error
//! estimate a number of the harness's choice, and tells the calls apart by their times.
#![allow(dead_code)]
use crate::common::Call;
use crate::rt::*;
use cyphus_diffeq::prelude::*;
use ndarray::prelude::*;
use std::cell::{Cell, RefCell};

pub const SQ6: f64 = 2.449489742783178;
/// Radau IIA of order five: abscissae, coefficients, their inverse, its real eigenvalue.
pub const C: [f64; 3] = [(4.0 - SQ6) / 10.0, (4.0 + SQ6) / 10.0, 1.0];
pub const A: [[f64; 3]; 3] = [
    [(88.0 - 7.0 * SQ6) / 360.0, (296.0 - 169.0 * SQ6) / 1800.0, (-2.0 + 3.0 * SQ6) / 225.0],
    [(296.0 + 169.0 * SQ6) / 1800.0, (88.0 + 7.0 * SQ6) / 360.0, (-2.0 - 3.0 * SQ6) / 225.0],
    [(16.0 - SQ6) / 36.0, (16.0 + SQ6) / 36.0, 1.0 / 9.0],
];
pub const AI: [[f64; 3]; 3] = [
    [3.224744871391589049099, 1.167840084690405494924, -0.2531972647421808261859],
    [-3.567840084690405494924, 0.7752551286084109509014, 1.053197264742180826186],
    [5.531972647421808261859, -7.531972647421808261859, 5.0],
];
pub const GAMMA0: f64 = 3.637834252744496;
/// Weights of the stage increments in the error estimate.
pub const EW: [f64; 3] = [-(13.0 + 7.0 * SQ6) / 3.0, (-13.0 + 7.0 * SQ6) / 3.0, -1.0 / 3.0];
/// Stage increments that do not enter the error estimate, move no state, and have norm one in the
/// (transformed) norm of the Newton iteration.
pub const V: [f64; 3] = [0.084487486347596176342, 0.61426264206156547327, 0.0];
/// The same, but moving the state.
pub const W: [f64; 3] = [0.055657559271765172801, 0.78170637841481361937, 1.5634127568296272387];

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// when the integrator is built
    Build,
    /// stage of an iteration
    Stage(usize),
    /// for the second error estimate
    Extra,
    /// at the accepted state
    Accept,
    /// at the start of a step
    Start,
}

pub struct Ev {
    pub kind: Kind,
    pub t: f64,
    pub u: Vec<f64>,
    pub du: Vec<f64>,
    /// attempted step, number of the attempt, of the iteration, and where the iteration leads
    pub h: f64,
    pub attempt: usize,
    pub iter: usize,
    pub z: Vec<f64>,
    /// Jacobian calls so far
    pub jacs: usize,
}

pub struct Run {
    pub n: usize,
    pub j: RefCell<Vec<f64>>,
    pub now: Cell<f64>,
    pub state: RefCell<Vec<f64>>,
    pub h: Cell<f64>,
    pub attempt: Cell<usize>,
    pub iter: Cell<usize>,
    pub attempts: Cell<usize>,
    pub z: RefCell<Vec<f64>>,
    pub evs: RefCell<Vec<Ev>>,
    pub jac: RefCell<Vec<Call>>,
    /// every Jacobian call gives another one
    pub renew: Cell<bool>,
    phase: Cell<usize>,
}

impl Run {
    /// Exploration ends when more than `attempts` attempts are made.
    pub fn new(n: usize, attempts: usize) -> Run {
        Run {
            n,
            j: RefCell::new(vec![0.0; n * n]),
            now: Cell::new(0.0),
            state: RefCell::new(vec![0.0; n]),
            h: Cell::new(0.0),
            attempt: Cell::new(0),
            iter: Cell::new(0),
            attempts: Cell::new(attempts),
            z: RefCell::new(vec![0.0; 3 * n]),
            evs: RefCell::new(Vec::with_capacity(64)),
            jac: RefCell::new(Vec::with_capacity(16)),
            renew: Cell::new(false),
            phase: Cell::new(9),
        }
    }
    pub fn count(&self) -> usize {
        self.evs.borrow().len()
    }
    fn classify(&self, u: ArrayView1<f64>, t: f64) -> Kind {
        let h = self.h.get();
        let d = t - self.now.get();
        let is = |x: f64| (d - x).abs() <= 1e-6 * h.abs();
        match self.phase.get() {
            9 => {
                self.now.set(t);
                *self.state.borrow_mut() = u.to_vec();
                self.phase.set(0);
                return Kind::Build;
            }
            0 => {
                if d == 0.0 {
                    return Kind::Start;
                }
            }
            3 => {
                if is(0.0) {
                    return Kind::Extra;
                }
                if is(h) {
                    self.now.set(t);
                    *self.state.borrow_mut() = u.to_vec();
                    self.phase.set(0);
                    return Kind::Accept;
                }
                if is(C[0] * h) {
                    self.iter.set(self.iter.get() + 1);
                    self.phase.set(1);
                    return Kind::Stage(0);
                }
            }
            p => {
                self.phase.set(p + 1);
                return Kind::Stage(p);
            }
        }
        // a new attempt
        if self.attempt.get() >= self.attempts.get() {
            stop();
        }
        self.attempt.set(self.attempt.get() + 1);
        self.h.set(d / C[0]);
        self.iter.set(1);
        self.phase.set(1);
        Kind::Stage(0)
    }
    /// `target` gives the stage increments after the iteration that begins, `slope` the derivative
    /// for the other calls.
    pub fn eval(
        &self,
        mut du: ArrayViewMut1<f64>,
        u: ArrayView1<f64>,
        t: f64,
        target: &dyn Fn(&Run) -> Vec<f64>,
        slope: &dyn Fn(&Run, Kind) -> Vec<f64>,
    ) {
        let n = self.n;
        let kind = self.classify(u, t);
        if kind == Kind::Stage(0) {
            let z = target(self);
            *self.z.borrow_mut() = z;
        }
        let h = self.h.get();
        let mut dd = Vec::with_capacity(n);
        if let Kind::Stage(s) = kind {
            let (z, j, x) = (self.z.borrow(), self.j.borrow(), self.state.borrow());
            for a in 0..n {
                let mut v = (AI[s][0] * z[a] + AI[s][1] * z[n + a] + AI[s][2] * z[2 * n + a]) / h;
                for b in 0..n {
                    v -= j[a * n + b] * (z[s * n + b] - (u[b] - x[b]));
                }
                dd.push(v);
            }
        } else {
            dd = slope(self, kind);
        }
        for a in 0..n {
            du[a] = dd[a];
        }
        self.evs.borrow_mut().push(Ev {
            kind,
            t,
            u: u.to_vec(),
            du: dd,
            h,
            attempt: self.attempt.get(),
            iter: self.iter.get(),
            z: self.z.borrow().clone(),
            jacs: self.jac.borrow().len(),
        });
    }
    pub fn jacobian(&self, mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64) {
        if self.renew.get() {
            for (k, x) in self.j.borrow_mut().iter_mut().enumerate() {
                *x = 1.25 - 0.5 * k as f64 - 0.75 * *x;
            }
        }
        for a in 0..self.n {
            for b in 0..self.n {
                df[[a, b]] = self.j.borrow()[a * self.n + b];
            }
        }
        self.jac.borrow_mut().push(Call { t, u: u.to_vec(), du: self.j.borrow().clone() });
    }
    /// Index of the first event from `from` on that belongs to attempt `a`.
    pub fn first(&self, a: usize, kind: Kind) -> Option<usize> {
        self.evs.borrow().iter().position(|e| e.attempt == a && e.kind == kind)
    }
}

/// The filtered error estimate h (f + E Z / h) / (gamma0 - h J).
pub fn estimate(n: usize, f: &[f64], z: &[f64], j: &[f64], h: f64) -> Vec<f64> {
    let mut r = Vec::with_capacity(n);
    for a in 0..n {
        r.push(h * f[a] + EW[0] * z[a] + EW[1] * z[n + a] + EW[2] * z[2 * n + a]);
    }
    if n == 1 {
        return vec![r[0] / (GAMMA0 - h * j[0])];
    }
    if n == 3 {
        let m: Vec<f64> = (0..9).map(|k| (if k % 4 == 0 { GAMMA0 } else { 0.0 }) - h * j[k]).collect();
        let det = |c: &dyn Fn(usize, usize) -> f64| {
            c(0, 0) * (c(1, 1) * c(2, 2) - c(1, 2) * c(2, 1)) - c(0, 1) * (c(1, 0) * c(2, 2) - c(1, 2) * c(2, 0))
                + c(0, 2) * (c(1, 0) * c(2, 1) - c(1, 1) * c(2, 0))
        };
        let d = det(&|a, b| m[3 * a + b]);
        return (0..3).map(|k| det(&|a, b| if b == k { r[a] } else { m[3 * a + b] }) / d).collect();
    }
    let (a, b, c, d) = (GAMMA0 - h * j[0], -h * j[1], -h * j[2], GAMMA0 - h * j[3]);
    let det = a * d - b * c;
    vec![(d * r[0] - b * r[1]) / det, (a * r[1] - c * r[0]) / det]
}

/// The implicit method's counters and what was seen of it.
pub fn counters<P, A: OdeAlgorithm>(tag: u32, it: &OdeIntegrator<P, A>, run: &Run) {
    let evs = run.evs.borrow();
    let mut iters = 0;
    for e in evs.iter() {
        if e.kind == Kind::Stage(0) {
            iters += 1;
        }
    }
    check(tag, it.stats.function_evals == evs.len() - 1);
    check(tag, it.stats.steps == run.attempt.get() || it.sol.retcode == OdeRetCode::DtLessThanMin);
    check(tag, it.stats.linear_solves == iters);
    check(tag, it.stats.jacobian_evals == run.jac.borrow().len() - 1);
}
