//! Harnesses for what both methods share: the time grid, recording, counters, options, callbacks.
#[path = "../common.rs"]
mod common;
#[path = "../rt.rs"]
#[macro_use]
mod rt;
#[path = "../plan.rs"]
mod plan;
use common::*;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use plan::*;
use rt::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const TOL: f64 = 1e-9;
/// Error weights of the first, sixth and seventh stage of the explicit method, and the weights of
/// the first and sixth in the new state.
const E1: f64 = 71.0 / 57600.0;
const E6: f64 = 22.0 / 525.0;
const E7: f64 = -1.0 / 40.0;
const A71: f64 = 35.0 / 384.0;
const A76: f64 = 11.0 / 84.0;
/// Stage increments of the implicit method that do not enter the error estimate and move the
/// state by one.
const D: [f64; 3] = [-EW[2] / EW[0], 0.0, 1.0];

/// A right-hand side under which the error norm of every attempt is a number of its own.
struct Drv {
    run: Run,
    radau: bool,
    n: usize,
    h0: f64,
    scal: f64,
    errs: Rc<RefCell<Vec<f64>>>,
    next: Cell<usize>,
    phase: Cell<usize>,
    f0: Cell<f64>,
    e: Cell<f64>,
    /// the explicit method's calls tell where a step starts: told by the harness, or by this direction
    dir: Cell<f64>,
    /// calls and components with a non-finite value
    bad: RefCell<Vec<(usize, usize)>>,
    /// the same value for all other calls at the start of a step
    steady: Cell<bool>,
    bad_from: Cell<usize>,
    bad_value: Cell<f64>,
}

/// abstol of one, as the implicit method turns it into its internal tolerance
const SCAL: f64 = 1.0;

impl Drv {
    fn new(radau: bool, n: usize, attempts: usize, h0: f64, errs: &Rc<RefCell<Vec<f64>>>) -> Drv {
        Drv {
            run: Run::new(n, attempts),
            radau,
            n,
            h0,
            scal: SCAL,
            errs: errs.clone(),
            next: Cell::new(0),
            phase: Cell::new(9),
            f0: Cell::new(0.0),
            e: Cell::new(0.0),
            dir: Cell::new(0.0),
            bad: RefCell::new(vec![]),
            steady: Cell::new(false),
            bad_from: Cell::new(usize::MAX),
            bad_value: Cell::new(f64::NAN),
        }
    }
    /// The next error number; runs that share `errs` see the same ones.
    fn err(&self) -> f64 {
        let k = self.next.get();
        self.next.set(k + 1);
        if k >= self.errs.borrow().len() {
            let e = real(100, 0.0, 1e4);
            self.errs.borrow_mut().push(e);
        }
        self.errs.borrow()[k]
    }
    fn explicit(&self, mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64) {
        let r = &self.run;
        if self.dir.get() != 0.0 && self.phase.get() == 0 {
            let evs = r.evs.borrow();
            let e = &evs[evs.len() - 1];
            if e.kind == Kind::Stage(5) && (t - e.t) * self.dir.get() > 0.0 {
                r.now.set(e.t);
            }
        }
        let kind = match self.phase.get() {
            9 => {
                r.now.set(t);
                *r.state.borrow_mut() = u.to_vec();
                self.phase.set(0);
                Kind::Build
            }
            0 => {
                if t == r.now.get() {
                    Kind::Start
                } else {
                    if r.attempt.get() >= r.attempts.get() {
                        stop();
                    }
                    r.attempt.set(r.attempt.get() + 1);
                    r.h.set((t - r.now.get()) / 0.2);
                    self.e.set(self.err());
                    self.phase.set(1);
                    Kind::Stage(0)
                }
            }
            p => {
                self.phase.set(if p == 5 { 0 } else { p + 1 });
                Kind::Stage(p)
            }
        };
        let v = match kind {
            Kind::Build | Kind::Start | Kind::Stage(5) => 1.0,
            Kind::Stage(4) => (self.e.get() * self.scal / r.h.get() - E1 - E7) / E6,
            _ => 0.0,
        };
        for a in 0..self.n {
            du[a] = v;
        }
        r.evs.borrow_mut().push(Ev {
            kind,
            t,
            u: u.to_vec(),
            du: vec![v; self.n],
            h: r.h.get(),
            attempt: r.attempt.get(),
            iter: 1,
            z: vec![self.e.get()],
            jacs: 0,
        });
    }
    fn implicit(&self, du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64) {
        let n = self.n;
        let target = |r: &Run| {
            let w = 0.5 + 0.25 * r.attempt.get() as f64;
            let mut z = Vec::with_capacity(3 * n);
            for s in 0..3 {
                for _ in 0..n {
                    z.push(D[s] * w);
                }
            }
            z
        };
        let slope = |r: &Run, k: Kind| {
            let h = if k == Kind::Build { self.h0 } else { r.h.get() };
            if k == Kind::Extra && !self.steady.get() {
                return vec![self.err() * self.scal * GAMMA0 / h; n];
            }
            if k != Kind::Start && k != Kind::Extra {
                self.f0.set(self.err() * self.scal * GAMMA0 / h);
            }
            vec![self.f0.get(); n]
        };
        self.run.eval(du, u, t, &target, &slope);
    }
    fn eval(&self, mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64) {
        let k = self.run.count();
        if self.radau {
            self.implicit(du.view_mut(), u, t);
        } else {
            self.explicit(du.view_mut(), u, t);
        }
        // what is not a number stays so
        let mut bad = k >= self.bad_from.get();
        for i in 0..self.n {
            bad = bad || !u[i].is_finite();
        }
        for i in 0..self.n {
            if bad || self.bad.borrow().contains(&(k, i)) {
                du[i] = self.bad_value.get();
            }
        }
    }
    /// Where the next step starts.
    fn sync(&self, t: f64, u: &[f64]) {
        self.run.now.set(t);
        *self.run.state.borrow_mut() = u.to_vec();
    }
    /// What the last attempt adds to the state.
    fn gain(&self) -> f64 {
        let evs = self.run.evs.borrow();
        let e = &evs[self.run.first(self.run.attempt.get(), Kind::Stage(0)).unwrap()];
        if self.radau {
            return e.z[2 * self.n];
        }
        A71 * e.h + A76 * (e.z[0] * self.scal - e.h * (E1 + E7)) / E6
    }
    fn h(&self, attempt: usize) -> f64 {
        self.run.evs.borrow()[self.run.first(attempt, Kind::Stage(0)).unwrap()].h
    }
}

fn tolerances<'a, P, A: OdeAlgorithm>(b: OdeIntegratorBuilder<'a, P, A>, radau: bool) -> OdeIntegratorBuilder<'a, P, A> {
    // the implicit method turns 1e-3 into 1e-3
    if radau {
        b.reltol(1e-3).abstol(SCAL).fnewt(1e12)
    } else {
        b.reltol(0.0).abstol(SCAL)
    }
}

/// The next step is half the last one, whatever the error, where the choice does not matter.
fn halving<'a, P, A: OdeAlgorithm>(b: OdeIntegratorBuilder<'a, P, A>, radau: bool) -> OdeIntegratorBuilder<'a, P, A> {
    if radau {
        b.modern_pred(false).facl(2.0).facr(2.0)
    } else {
        b
    }
}

/// Time grid, limits, recording and counters over a few steps.
fn grid<A: OdeAlgorithm>(alg: A, radau: bool, n: usize, back: bool, mode: usize, steps: usize, attempts: usize, half: bool) {
    let dir = if back { -1.0 } else { 1.0 };
    let t0 = real(1, -2.0, 2.0);
    let start = real(3, 0.01, 0.5);
    let near = mode == 1 || mode == 3 || mode == 4;
    let len = if near { real(2, 0.01, 2.0) } else { 1e4 };
    let dtmax = if mode == 2 || mode == 3 { real(4, 0.005, 1.0) } else { f64::INFINITY };
    let budget = if mode == 4 { 1 + choice(910, 3) } else { 100000 };
    let errs = Rc::new(RefCell::new(vec![]));
    let drv = Drv::new(radau, n, attempts, start.min(dtmax), &errs);
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.eval(du, u, t);
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.run.jacobian(df, u, t);
    let tf = t0 + dir * len;
    let u0 = vec![0.0; n];
    let b = OdeIntegratorBuilder::default(&f, Array1::from(u0.clone()), (t0, tf), alg, ());
    let b = tolerances(b, radau).dfdu(&df).max_steps(budget);
    let b = if half { halving(b, radau) } else { b };
    let given = if flag(911) { -start } else { start };
    let mut it = match flag(909) {
        false => b.dtstart(given).dtmax(dtmax).build(),
        true => b.dtmax(dtmax).dtstart(given).build(),
    };
    it.opts.reltol = 0.0;
    // the first step
    let want = start.min(dtmax);
    close(110, it.dt * dir, want, TOL, 1.0);
    let (mut accepts, mut rejects, mut held) = (0, 0, 0);
    let mut keep = false;
    let mut seen: Vec<(f64, Vec<f64>)> = vec![(t0, u0.clone())];
    for step in 0..steps {
        let (t, u) = (it.t, it.u.to_vec());
        let dt = it.dt;
        let (from, calls) = (drv.run.attempt.get() + 1, drv.run.count());
        it.step();
        let done = it.sol.retcode == OdeRetCode::Success;
        let ended = it.sol.retcode == OdeRetCode::MaxIters;
        let last = drv.run.attempt.get();
        check(100, done || ended || it.sol.retcode == OdeRetCode::Continue || it.sol.retcode == OdeRetCode::DtLessThanMin);
        for e in drv.run.evs.borrow()[calls..].iter() {
            // never beyond the end
            check(101, (tf - e.t) * dir >= -TOL);
        }
        let moved = (it.t - t) * dir;
        let accepted = moved != 0.0;
        if step == 0 && last >= from {
            let h = drv.h(1) * dir;
            if len > 1.01 * want + TOL {
                close(110, h, want, TOL, 1.0);
                reach(11);
            } else if len < want {
                close(110, h, len, TOL, 1.0);
                reach(12);
            } else {
                check(110, h >= want - TOL && h <= len + TOL);
            }
        }
        for a in from..last + 1 {
            let h = drv.h(a) * dir;
            let end = (tf - t) * dir;
            let slack = if radau { 1.0001 } else { 1.01 };
            check(111, h > 0.0 && (h <= dtmax * (1.0 + TOL) || (h - end).abs() <= TOL && h <= slack * dtmax * (1.0 + TOL)));
            check(112, h <= end * (1.0 + TOL) + TOL);
        }
        if accepted {
            accepts += 1;
            check(102, moved > 0.0 && (tf - it.t) * dir >= -TOL);
            close(102, it.t, t + drv.h(last), TOL, 1.0);
            let gain = drv.gain();
            for i in 0..n {
                close(130, it.u[i], u[i] + gain, TOL, 1.0);
            }
            seen.push((it.t, it.u.to_vec()));
            // what the integrator says about the step
            close(132, it.tprev, t, TOL, 1.0);
            close(132, it.dtprev, drv.h(last), TOL, 1.0);
            for i in 0..n {
                close(132, it.uprev[i], u[i], TOL, 1.0);
            }
            reach(1);
        } else {
            for i in 0..n {
                close(130, it.u[i], u[i], TOL, 1.0);
            }
            check(103, !done);
        }
        if done {
            close(103, it.t, tf, TOL, 1.0);
            reach(2);
        } else {
            check(103, (tf - it.t) * dir > 0.0);
        }
        // the budget
        if radau {
            check(120, last <= budget);
            check(121, ended == (!done && !accepted && last == budget));
        } else {
            check(120, accepts <= budget);
            check(121, ended == (!done && accepts == budget));
        }
        if ended {
            check(121, mode == 4);
            reach(3);
        }
        // recorded
        check(131, it.sol.ts.len() == accepts + 1 && it.sol.us.len() == accepts + 1);
        for k in 0..accepts + 1 {
            close(131, it.sol.ts[k], seen[k].0, TOL, 1.0);
            for i in 0..n {
                close(131, it.sol.us[k][i], seen[k].1[i], TOL, 1.0);
            }
        }
        // counted
        let tried = last + 1 - from;
        let failed = if accepted { tried - 1 } else { tried };
        if failed > 0 {
            reach(4);
        }
        if accepts > if accepted { 1 } else { 0 } {
            rejects += failed;
            if failed > 0 {
                reach(6);
            }
        }
        check(140, it.stats.accepts == accepts && it.stats.rejects == rejects);
        if radau {
            if keep && tried > 0 && (tf - t - drv.h(from)) * dir > TOL {
                held += 1;
                reach(5);
            }
            counters(141, &it, &drv.run);
            if !ended {
                check(142, it.stats.decompositions == last - held);
            }
        } else {
            check(141, it.stats.steps == accepts);
            check(141, it.stats.function_evals == drv.run.count() - 1);
            check(142, it.stats.linear_solves + it.stats.decompositions + it.stats.jacobian_evals == 0);
        }
        obs(1, it.t);
        obs(2, it.dt);
        obsi(3, it.stats.function_evals);
        drv.sync(it.t, it.u.as_slice().unwrap());
        if it.sol.retcode != OdeRetCode::Continue {
            return;
        }
        // a step that is kept needs no new matrices, unless it leads to the end
        keep = it.dt == it.dtprev;
        let _ = dt;
    }
    reach(7);
}

/// Stepping, integrating and both iterators on the same problem.
fn same<A: OdeAlgorithm + Copy2>(alg: A, radau: bool, back: bool, mode: usize, attempts: usize) {
    let dir = if back { -1.0 } else { 1.0 };
    let t0 = 1.0 + real(1, 0.0, 1.0);
    let start = 0.25;
    let len = if mode == 0 { real(2, 0.1, 0.7) } else { 1e4 };
    let budget = if mode == 1 { 2 } else { 100000 };
    let errs = Rc::new(RefCell::new(vec![]));
    if mode == 2 {
        // accepted once, then never
        errs.borrow_mut().push(0.25);
        for _ in 0..200 {
            errs.borrow_mut().push(9e3);
        }
    }
    let mut runs: Vec<Vec<(f64, f64)>> = vec![];
    for way in 0..4 {
        let drv = Drv::new(radau, 1, attempts, start, &errs);
        drv.dir.set(dir);
        let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.eval(du, u, t);
        let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.run.jacobian(df, u, t);
        let b = OdeIntegratorBuilder::default(&f, array![0.0], (t0, t0 + dir * len), alg.again(), ());
        let mut it = halving(tolerances(b, radau), radau).dfdu(&df).max_steps(budget).dtstart(start).build();
        it.opts.reltol = 0.0;
        let mut seen = vec![];
        match way {
            0 | 1 => {
                if way == 0 {
                    let mut more = true;
                    while more {
                        let n = it.sol.ts.len();
                        let r = it.step();
                        check(150, r.is_none() == (it.sol.retcode != OdeRetCode::Continue));
                        if let Some(k) = r {
                            check(151, k == it.stats.steps);
                        }
                        more = r.is_some();
                        if it.sol.ts.len() > n {
                            seen.push((it.t, it.u[0]));
                        }
                    }
                } else {
                    it.integrate();
                    for k in 1..it.sol.ts.len() {
                        seen.push((it.sol.ts[k], it.sol.us[k][0]));
                    }
                }
                let want = [OdeRetCode::Success, OdeRetCode::MaxIters, OdeRetCode::DtLessThanMin];
                check(152, it.sol.retcode == want[mode]);
                // finished for good
                let (t, u, n, calls) = (it.t, it.u[0], it.sol.ts.len(), drv.run.count());
                let (dt, st) = (it.dt, it.stats.clone());
                check(153, it.step().is_none() && it.step().is_none());
                it.integrate();
                check(153, it.t == t && it.u[0] == u && it.dt == dt);
                check(153, it.sol.ts.len() == n && drv.run.count() == calls && it.sol.retcode == want[mode]);
                check(153, it.stats.steps == st.steps && it.stats.function_evals == st.function_evals);
                check(153, it.stats.accepts == st.accepts && it.stats.rejects == st.rejects);
            }
            2 => {
                let mut s = it.into_iter();
                while let Some((t, u)) = s.next() {
                    seen.push((t, u[0]));
                }
                let calls = drv.run.count();
                check(154, s.next().is_none() && s.next().is_none() && drv.run.count() == calls);
                check(155, s.integrator.sol.ts.len() == seen.len() + 1);
            }
            _ => mutable(it, &mut seen, &drv),
        }
        for k in 0..seen.len() {
            obs(1, seen[k].0);
        }
        runs.push(seen);
    }
    for way in 1..4 {
        check(156, runs[way].len() == runs[0].len());
        for k in 0..runs[0].len().min(runs[way].len()) {
            close(157, runs[way][k].0, runs[0][k].0, TOL, 1.0);
            close(157, runs[way][k].1, runs[0][k].1, TOL, 1.0);
        }
    }
    if runs[0].len() > 1 {
        reach(1);
    }
    if mode == 2 || runs[0].len() > 0 {
        reach(2);
    }
}

fn mutable<'a, A: OdeAlgorithm + 'a>(it: OdeIntegrator<'a, (), A>, seen: &mut Vec<(f64, f64)>, drv: &Drv) {
    // the iterator borrows for the integrator's own lifetime
    let it: &'a mut OdeIntegrator<'a, (), A> = Box::leak(Box::new(it));
    let mut s = it.into_iter();
    while let Some((t, u)) = s.next() {
        seen.push((t, u[0]));
    }
    let calls = drv.run.count();
    check(154, s.next().is_none() && s.next().is_none() && drv.run.count() == calls);
    check(155, s.integrator.sol.ts.len() == seen.len() + 1);
}

trait Copy2 {
    fn again(&self) -> Self;
}
impl Copy2 for DormandPrince5 {
    fn again(&self) -> Self {
        DormandPrince5
    }
}
impl Copy2 for Radau5 {
    fn again(&self) -> Self {
        Radau5
    }
}

/// Iterating a solution.
fn solution(nt: usize, nu: usize) {
    let fill = || {
        let mut s = OdeSolution::new();
        for k in 0..nt {
            s.ts.push(k as f64);
        }
        for k in 0..nu {
            s.us.push(array![k as f64, -1.0]);
        }
        s
    };
    let mut s = fill();
    let mut v = vec![];
    for k in 0..nt {
        s.ts[k] = real(10 + k as u32, -10.0, 10.0);
    }
    for k in 0..nu {
        s.us[k][0] = real(20 + k as u32, -10.0, 10.0);
        s.us[k][1] = real(30 + k as u32, -10.0, 10.0);
        v.push((s.us[k][0], s.us[k][1]));
    }
    let ts = s.ts.clone();
    let m = nt.min(nu);
    let mut k = 0;
    {
        let mut r = (&mut s).into_iter();
        while let Some((t, u)) = r.next() {
            check(160, k < m);
            close(161, *t, ts[k], TOL, 1.0);
            check(162, u.len() == 2);
            close(162, u[0], v[k].0, TOL, 1.0);
            close(162, u[1], v[k].1, TOL, 1.0);
            k += 1;
        }
        check(163, r.next().is_none());
    }
    check(160, k == m);
    check(164, s.ts.len() == nt && s.us.len() == nu);
    let mut r = s.into_iter();
    for k in 0..m {
        let (t, u) = r.next().unwrap();
        close(161, t, ts[k], TOL, 1.0);
        close(162, u[0], v[k].0, TOL, 1.0);
        close(162, u[1], v[k].1, TOL, 1.0);
        obs(1, u[0]);
    }
    check(163, r.next().is_none());
    reach(1);
}

/// What a callback sees and what becomes of its changes.
fn callback<A: OdeAlgorithm + Copy2>(alg: A, radau: bool, n: usize, back: bool, what: usize, near: bool, attempts: usize) {
    let again = alg.again();
    let dir = if back { -1.0 } else { 1.0 };
    let t0 = real(1, -2.0, 2.0);
    let start = real(3, 0.1, 0.5);
    let len = if near { real(2, 0.2, 1.0) } else { 1e4 };
    let errs = Rc::new(RefCell::new(vec![]));
    let drv = Drv::new(radau, n, attempts, start, &errs);
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.eval(du, u, t);
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.run.jacobian(df, u, t);
    let tf = t0 + dir * len;
    let du = vec_real(40, n, 10.0);
    let shift = real(50, -0.05, 0.05);
    let log: RefCell<Vec<(f64, Vec<f64>, usize, usize, f64)>> = RefCell::new(vec![]);
    let cb = |it: &mut OdeIntegrator<(), A>| {
        log.borrow_mut().push((it.t, it.u.to_vec(), it.sol.ts.len(), it.stats.accepts, it.tprev));
        if what & 1 != 0 {
            for i in 0..n {
                it.u[i] += du[i];
            }
        }
        if what & 2 != 0 {
            it.t += shift;
        }
    };
    let b = OdeIntegratorBuilder::default(&f, Array1::zeros(n), (t0, tf), alg, ());
    let mut it = halving(tolerances(b, radau), radau).dfdu(&df).callback(&cb).dtstart(start).build();
    it.opts.reltol = 0.0;
    check(170, log.borrow().is_empty());
    let mut calls = 0;
    for step in 0..2 {
        let (t, u) = (it.t, it.u.to_vec());
        drv.sync(t, &u);
        let (from, first) = (drv.run.attempt.get() + 1, drv.run.count());
        let jacs = drv.run.jac.borrow().len();
        let sols = it.sol.ts.len();
        it.step();
        calls += 1;
        check(170, log.borrow().len() == calls);
        let last = drv.run.attempt.get();
        if it.sol.retcode == OdeRetCode::DtLessThanMin {
            return;
        }
        let h = drv.h(last);
        let gain = drv.gain();
        let l = log.borrow()[calls - 1].clone();
        // it ran after the step's effects
        close(171, l.0, t + h, TOL, 1.0);
        close(171, l.4, t, TOL, 1.0);
        check(171, l.2 == sols + 1 && l.3 == calls);
        for i in 0..n {
            close(171, l.1[i], u[i] + gain, TOL, 1.0);
        }
        for c in drv.run.jac.borrow()[jacs..].iter() {
            close(93, c.t, t, TOL, 1.0);
            for i in 0..n {
                close(93, c.u[i], u[i], TOL, 1.0);
            }
            reach(5);
        }
        if it.sol.retcode == OdeRetCode::Success {
            close(104, l.0, tf, TOL, 1.0);
        } else {
            check(104, (tf - l.0) * dir > 0.0);
        }
        // and what it did stays
        close(172, it.t, l.0 + if what & 2 != 0 { shift } else { 0.0 }, TOL, 1.0);
        for i in 0..n {
            close(172, it.u[i], l.1[i] + if what & 1 != 0 { du[i] } else { 0.0 }, TOL, 1.0);
        }
        // the step started where the callback had left it
        let evs = drv.run.evs.borrow();
        if step > 0 {
            close(173, evs[first].t, t, TOL, 1.0);
            for i in 0..n {
                close(173, evs[first].u[i], u[i], TOL, 1.0);
            }
            reach(1);
        }
        for a in from..last + 1 {
            let k = drv.run.first(a, Kind::Stage(0)).unwrap();
            let e = &evs[k];
            close(174, e.t, t + e.h * if radau { C[0] } else { 0.2 }, TOL, 1.0);
            for i in 0..n {
                if !radau {
                    close(174, e.u[i], u[i] + 0.2 * e.h, TOL, 1.0);
                    let e = &evs[k + 5];
                    close(174, e.t, t + e.h, TOL, 1.0);
                } else if step == 0 {
                    close(174, e.u[i], u[i], TOL, 1.0);
                }
            }
        }
        obs(1, it.t);
        if it.sol.retcode != OdeRetCode::Continue {
            // no more calls once finished
            drop(evs);
            it.step();
            it.integrate();
            check(175, log.borrow().len() == calls);
            reach(2);
            return;
        }
        if what & 2 != 0 {
            assume((tf - it.t) * dir > 0.1);
        }
    }
    reach(3);
    if what == 0 {
        // a callback that changes nothing makes no difference
        let plain = Drv::new(radau, n, attempts, start, &errs);
        plain.dir.set(dir);
        let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| plain.eval(du, u, t);
        let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| plain.run.jacobian(df, u, t);
        let b = OdeIntegratorBuilder::default(&f, Array1::zeros(n), (t0, tf), again, ());
        let mut other = halving(tolerances(b, radau), radau).dfdu(&df).dtstart(start).build();
        other.opts.reltol = 0.0;
        for _ in 0..2 {
            other.step();
        }
        close(176, other.t, it.t, TOL, 1.0);
        close(176, other.dt, it.dt, TOL, 1.0);
        for i in 0..n {
            close(176, other.u[i], it.u[i], TOL, 1.0);
        }
        check(176, other.sol.ts.len() == it.sol.ts.len() && other.sol.retcode == it.sol.retcode);
        reach(4);
    }
}

/// A value that is not finite in some call.
fn nonfinite<A: OdeAlgorithm>(alg: A, radau: bool, n: usize, back: bool) {
    let dir = if back { -1.0 } else { 1.0 };
    let forever = flag(905);
    // away from zero, where no step is too small
    let t0 = if forever { 10.0 } else { real(1, 9.0, 10.0) };
    let start = 0.25;
    let errs = Rc::new(RefCell::new(vec![]));
    // one number of choice among good ones
    for _ in 0..100 {
        errs.borrow_mut().push(0.25);
    }
    errs.borrow_mut()[choice(908, 2)] = real(100, 0.0, 1e4);
    let drv = Drv::new(radau, n, 500, start, &errs);
    let value = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][choice(904, 3)];
    drv.bad_value.set(value);
    let k = choice(906, if radau { 10 } else { 14 });
    let at = (k, if n > 1 { choice(907, n) } else { 0 });
    if forever {
        drv.bad_from.set(k);
    } else {
        drv.bad.borrow_mut().push(at);
    }
    drv.dir.set(dir);
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.eval(du, u, t);
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.run.jacobian(df, u, t);
    let b = OdeIntegratorBuilder::default(&f, Array1::zeros(n), (t0, t0 + dir * 1e3), alg, ());
    let mut it = halving(tolerances(b, radau), radau).dfdu(&df).dtmax(2.0).dtstart(start).build();
    it.opts.reltol = 0.0;
    let mut accepts = 0;
    for step in 0..3 {
        let (t, u) = (it.t, it.u.to_vec());
        let from = drv.run.attempt.get() + 1;
        it.step();
        let last = drv.run.attempt.get();
        let moved = (it.t - t) * dir;
        let accepted = moved != 0.0;
        check(180, it.t.is_finite() && it.dt.is_finite());
        for i in 0..n {
            check(180, it.u[i].is_finite());
        }
        if accepted {
            accepts += 1;
            // nothing of the accepted attempt was bad, nor the derivative it started from
            let evs = drv.run.evs.borrow();
            for (c, e) in evs.iter().enumerate() {
                if e.attempt == last && e.kind != Kind::Accept {
                    check(181, c != k && !(forever && c >= k));
                }
                if c == k && k > 0 {
                    reach(1);
                }
            }
            check(181, k != 0);
            close(182, it.t, t + drv.h(last), TOL, 1.0);
            let gain = drv.gain();
            for i in 0..n {
                close(182, it.u[i], u[i] + gain, TOL, 1.0);
            }
        } else {
            check(183, it.sol.retcode == OdeRetCode::DtLessThanMin);
            for i in 0..n {
                close(183, it.u[i], u[i], TOL, 1.0);
            }
        }
        for a in from..last {
            // every attempt that failed is followed by a smaller one; the times of the calls tell
            // as long as the steps are not tiny
            if drv.h(a).abs() < 1e-6 {
                break;
            }
            check(184, drv.h(a + 1) * dir <= 0.999 * drv.h(a) * dir && drv.h(a + 1) * dir > 0.0);
        }
        check(185, it.sol.ts.len() == accepts + 1 && it.sol.us.len() == accepts + 1);
        for a in 0..accepts + 1 {
            check(185, it.sol.ts[a].is_finite());
            for i in 0..n {
                check(185, it.sol.us[a][i].is_finite());
            }
        }
        close(185, it.sol.ts[accepts], it.t, TOL, 1.0);
        for i in 0..n {
            close(185, it.sol.us[accepts][i], it.u[i], TOL, 1.0);
        }
        obs(1, it.t);
        drv.sync(it.t, it.u.as_slice().unwrap());
        if it.sol.retcode != OdeRetCode::Continue {
            check(186, it.sol.retcode == OdeRetCode::DtLessThanMin);
            reach(2);
            return;
        }
        let _ = step;
    }
    if forever {
        check(186, drv.run.count() <= k);
    }
    reach(3);
}

/// Errors that stay too large.
fn giveup<A: OdeAlgorithm>(alg: A, radau: bool, n: usize, back: bool, after: usize) {
    let dir = if back { -1.0 } else { 1.0 };
    let t0 = real(1, 1.0, 2.0) * if flag(903) { -1.0 } else { 1.0 };
    let start = 0.25;
    let errs = Rc::new(RefCell::new(vec![]));
    for k in 0..400 {
        errs.borrow_mut().push(if k < after { 0.01 } else { 2e3 });
    }
    // the first bad one may be anything too large; with the implicit method it belongs to the
    // state and shrinks with the step
    errs.borrow_mut()[after] = real(100, 1.5, 1e4) * if radau { 1e25 } else { 1.0 };
    let drv = Drv::new(radau, n, 200, start, &errs);
    drv.dir.set(dir);
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.eval(du, u, t);
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.run.jacobian(df, u, t);
    let b = OdeIntegratorBuilder::default(&f, Array1::zeros(n), (t0, t0 + dir * 1e3), alg, ());
    let mut it = tolerances(b, radau).dfdu(&df).dtstart(start).build();
    it.opts.reltol = 0.0;
    let (mut t, mut u) = (t0, vec![0.0; n]);
    let mut steps = 0;
    while it.sol.retcode == OdeRetCode::Continue && steps <= after {
        t = it.t;
        u = it.u.to_vec();
        it.step();
        steps += 1;
        drv.sync(it.t, it.u.as_slice().unwrap());
    }
    check(190, it.sol.retcode == OdeRetCode::DtLessThanMin);
    check(191, it.sol.ts.len() == steps && it.sol.us.len() == steps && it.stats.accepts == steps - 1);
    close(192, it.t, t, TOL, 1.0);
    close(192, it.sol.ts[steps - 1], t, TOL, 1.0);
    for i in 0..n {
        close(192, it.u[i], u[i], TOL, 1.0);
        close(192, it.sol.us[steps - 1][i], u[i], TOL, 1.0);
    }
    // it did not give up early nor go on below the limit
    let floor = t.abs() * f64::EPSILON * if radau { 10.0 } else { 1.0 };
    check(193, it.dt.abs() <= floor * 1.000001);
    for a in 1..drv.run.attempt.get() + 1 {
        check(194, drv.h(a).abs() > floor * 0.999999);
    }
    obsi(1, drv.run.attempt.get());
    reach(1);
}

/// Iteration matrices that are singular again and again.
fn singular(n: usize, back: bool) {
    let dir = if back { -1.0 } else { 1.0 };
    let t0 = real(1, -2.0, 2.0);
    let h0 = 0.5 * dir;
    // how often in the first and in the second step
    let (one, two) = (choice(904, 6), choice(905, 6));
    let h2 = 0.375 * dir;
    let errs = Rc::new(RefCell::new(vec![0.25; 40]));
    let drv = Drv::new(true, n, 12, h0, &errs);
    let calls = Cell::new(0);
    let which = if n > 1 { choice(906, 2) } else { 0 };
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| drv.eval(du, u, t);
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        let k = calls.get();
        calls.set(k + 1);
        let mut h = h0;
        let mut times = k;
        if k >= one {
            h = h2;
            times = k - one;
        }
        for _ in 0..times {
            h *= 0.5;
        }
        let j = if k < one || k - one < two { GAMMA0 / h } else { 0.0 };
        for i in 0..n {
            drv.run.j.borrow_mut()[i * n + i] = if i == which { j } else { 1.5 };
        }
        drv.run.jacobian(df, u, t)
    };
    let b = OdeIntegratorBuilder::default(&f, Array1::zeros(n), (t0, t0 + dir * 1e3), Radau5, ());
    let mut it = tolerances(b, true).dfdu(&df).dtstart(h0.abs()).quot2(0.5).build();
    it.opts.reltol = 0.0;
    it.step();
    let fails = |s: usize, it: &OdeIntegrator<(), Radau5>| {
        check(195, (it.sol.retcode == OdeRetCode::SingularMatrix) == (s >= 5));
        check(195, s >= 5 || it.sol.retcode == OdeRetCode::Continue);
    };
    fails(one, &it);
    let at = |from: usize, t: f64, u: &[f64]| {
        for c in drv.run.jac.borrow()[from..].iter() {
            close(93, c.t, t, TOL, 1.0);
            for i in 0..n {
                close(93, c.u[i], u[i], TOL, 1.0);
            }
        }
    };
    at(0, t0, &vec![0.0; n]);
    let mut kept = (t0, vec![0.0; n], 1);
    if one < 5 {
        let mut h = h0;
        for _ in 0..one {
            h *= 0.5;
        }
        close(196, drv.h(1), h, TOL, 1.0);
        check(197, calls.get() == 1 + one);
        close(196, it.t, t0 + h, TOL, 1.0);
        kept = (it.t, it.u.to_vec(), 2);
        it.dt = h2;
        drv.sync(it.t, it.u.as_slice().unwrap());
        let from = drv.run.attempt.get() + 1;
        let jacs = calls.get();
        it.step();
        at(jacs, kept.0, &kept.1);
        fails(one + two, &it);
        if one + two < 5 {
            let mut h = h2;
            for _ in 0..two {
                h *= 0.5;
            }
            close(196, drv.h(from), h, TOL, 1.0);
            close(196, it.t, kept.0 + drv.h(drv.run.attempt.get()), TOL, 1.0);
            reach(1);
            return;
        }
        check(198, drv.run.attempt.get() + 1 == from);
        reach(2);
    }
    close(199, it.t, kept.0, TOL, 1.0);
    check(199, it.sol.ts.len() == kept.2 && it.sol.us.len() == kept.2);
    close(199, it.sol.ts[kept.2 - 1], kept.0, TOL, 1.0);
    for i in 0..n {
        close(199, it.u[i], kept.1[i], TOL, 1.0);
        close(199, it.sol.us[kept.2 - 1][i], kept.1[i], TOL, 1.0);
    }
    check(199, it.step().is_none());
    reach(3);
}

struct Pars {
    a: f64,
    b: f64,
    id: u64,
}

/// Parameters in every call.
fn params<A: OdeAlgorithm>(alg: A, radau: bool, back: bool, jac: bool, cb: bool, attempts: usize) {
    let dir = if back { -1.0 } else { 1.0 };
    let t0 = real(1, -2.0, 2.0);
    let start = 0.25;
    let errs = Rc::new(RefCell::new(vec![]));
    let drv = Drv::new(radau, 1, attempts, start, &errs);
    drv.dir.set(if cb { 0.0 } else { dir });
    drv.steady.set(!jac);
    let want = RefCell::new((real(5, -10.0, 10.0), real(6, -10.0, 10.0), int(7, 0, 1000)));
    let seen = |p: &Pars| {
        let w = want.borrow();
        check(200, p.id == w.2);
        close(201, p.a, w.0, TOL, 1.0);
        close(201, p.b, w.1, TOL, 1.0);
    };
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Pars| {
        seen(p);
        drv.eval(du, u, t)
    };
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Pars| {
        seen(p);
        reach(2);
        drv.run.jacobian(df, u, t)
    };
    let again = |it: &mut OdeIntegrator<Pars, A>| {
        // what it finds, and what it leaves for the next step
        seen(&it.params);
        let w = (real(15, -10.0, 10.0), real(16, -10.0, 10.0), int(17, 0, 1000));
        it.params.a = w.0;
        it.params.b = w.1;
        it.params.id = w.2;
        *want.borrow_mut() = w;
    };
    let p = {
        let w = want.borrow();
        Pars { a: w.0, b: w.1, id: w.2 }
    };
    let mut b = OdeIntegratorBuilder::default(&f, array![0.0], (t0, t0 + dir * 1e3), alg, p);
    b = halving(tolerances(b, radau), radau).dtstart(start);
    if jac {
        b = b.dfdu(&df);
    }
    if cb {
        b = b.callback(&again);
    }
    let mut it = b.build();
    it.opts.reltol = 0.0;
    for _ in 0..2 {
        drv.sync(it.t, it.u.as_slice().unwrap());
        it.step();
        seen(&it.params);
        if !cb {
            let w = (real(25, -10.0, 10.0), real(26, -10.0, 10.0), int(27, 0, 1000));
            it.params = Pars { a: w.0, b: w.1, id: w.2 };
            *want.borrow_mut() = w;
        }
        obs(1, it.t);
        if it.sol.retcode != OdeRetCode::Continue {
            return;
        }
    }
    reach(1);
}

/// The options the builder knows, with the defaults of the two methods.
fn defaults(radau: bool) -> OdeIntegratorOpts {
    OdeIntegratorOpts {
        reltol: 1e-3,
        abstol: 1e-7,
        dense: false,
        dtstart: 1e-6,
        dtmax: f64::INFINITY,
        max_steps: 100000,
        max_newt_iter: 7,
        max_stiff: 1000,
        modern_pred: true,
        safe: 0.9,
        facr: if radau { 0.125 } else { 10.0 },
        facl: if radau { 5.0 } else { 0.2 },
        quot1: if radau { 1.0 } else { 0.0 },
        quot2: if radau { 1.2 } else { 0.0 },
        beta: if radau { 0.0 } else { 0.04 },
        fnewt: 0.0,
        use_ext_col: true,
        hess: false,
        theta: if radau { 0.001 } else { 0.0 },
    }
}

fn set<'a, A: OdeAlgorithm>(
    b: OdeIntegratorBuilder<'a, (), A>,
    w: &mut OdeIntegratorOpts,
    which: usize,
    v: &[f64],
    k: &[usize],
    on: &[bool],
) -> OdeIntegratorBuilder<'a, (), A> {
    match which {
        0 => {
            w.reltol = v[0];
            b.reltol(v[0])
        }
        1 => {
            w.abstol = v[1];
            b.abstol(v[1])
        }
        2 => {
            w.dense = on[0];
            b.dense(on[0])
        }
        3 => {
            w.dtstart = v[2];
            b.dtstart(v[2])
        }
        4 => {
            w.dtmax = v[3];
            b.dtmax(v[3])
        }
        5 => {
            w.max_steps = k[0];
            b.max_steps(k[0])
        }
        6 => {
            w.max_newt_iter = k[1];
            b.max_newt_iter(k[1])
        }
        7 => {
            w.max_stiff = k[2];
            b.max_stiff(k[2])
        }
        8 => {
            w.modern_pred = on[1];
            b.modern_pred(on[1])
        }
        9 => {
            w.safe = v[4];
            b.safe(v[4])
        }
        10 => {
            w.facr = v[5];
            b.facr(v[5])
        }
        11 => {
            w.facl = v[6];
            b.facl(v[6])
        }
        12 => {
            w.quot1 = v[7];
            b.quot1(v[7])
        }
        13 => {
            w.quot2 = v[8];
            b.quot2(v[8])
        }
        14 => {
            w.beta = v[9];
            b.beta(v[9])
        }
        15 => {
            w.fnewt = v[10];
            b.fnewt(v[10])
        }
        16 => {
            w.use_ext_col = on[2];
            b.use_ext_col(on[2])
        }
        _ => {
            w.hess = on[3];
            b.hess(on[3])
        }
    }
}

fn compare(o: &OdeIntegratorOpts, w: &OdeIntegratorOpts, tols: bool) {
    let same = |a: f64, b: f64| {
        if a.is_finite() && b.is_finite() {
            close(210, a, b, TOL, 1.0);
        } else {
            check(210, a == b);
        }
    };
    if tols {
        same(o.reltol, w.reltol);
        same(o.abstol, w.abstol);
        same(o.fnewt, w.fnewt);
    }
    check(211, o.dense == w.dense && o.modern_pred == w.modern_pred);
    check(211, o.use_ext_col == w.use_ext_col && o.hess == w.hess);
    same(o.dtstart, w.dtstart);
    same(o.dtmax, w.dtmax);
    check(212, o.max_steps == w.max_steps && o.max_newt_iter == w.max_newt_iter && o.max_stiff == w.max_stiff);
    same(o.safe, w.safe);
    same(o.facr, w.facr);
    same(o.facl, w.facl);
    same(o.quot1, w.quot1);
    same(o.quot2, w.quot2);
    same(o.beta, w.beta);
    same(o.theta, w.theta);
}

/// Options, initial values and span in the built integrator.
fn options<A: OdeAlgorithm>(alg: A, radau: bool, n: usize) {
    let (t0, t1) = (real(1, -2.0, 2.0), real(2, -2.0, 2.0));
    assume((t1 - t0).abs() > 1e-3);
    let u0 = vec_real(10, n, 10.0);
    let f = |mut du: ArrayViewMut1<f64>, _u: ArrayView1<f64>, _t: f64, _p: &()| du.fill(0.0);
    let df = |mut df: ArrayViewMut2<f64>, _u: ArrayView1<f64>, _t: f64, _p: &()| df.fill(0.0);
    let mut v = vec![];
    for i in 0..11 {
        v.push(real(30 + i, 1e-4, 20.0));
    }
    let mut k = vec![];
    for i in 0..3 {
        k.push(int(50 + i, 1, 1 << 20) as usize);
    }
    if radau {
        // enters the step control as a floating point number
        k[1] = [1, 4, 50][choice(909, 3)];
    }
    let on = [flag(960), flag(961), flag(962), flag(963)];
    // none, one, or all in either order
    let which = choice(910, 21);
    let mut w = defaults(radau);
    let mut b = OdeIntegratorBuilder::default(&f, u0.clone(), (t0, t1), alg, ());
    compare(&b.opts, &w, true);
    b = b.dfdu(&df);
    if which < 18 {
        b = set(b, &mut w, which, &v, &k, &on);
    }
    for j in 0..18 {
        if which == 18 {
            b = set(b, &mut w, j, &v, &k, &on);
        }
        if which == 19 {
            b = set(b, &mut w, 17 - j, &v, &k, &on);
        }
    }
    compare(&b.opts, &w, true);
    let it = b.build();
    // what the implicit method makes of the tolerances is another matter
    compare(&it.opts, &w, !radau);
    let dir = if t1 > t0 { 1.0 } else { -1.0 };
    check(213, it.tdir == dir);
    close(213, it.t, t0, TOL, 1.0);
    close(213, it.tfinal, t1, TOL, 1.0);
    close(213, it.tprev, t0, TOL, 1.0);
    close(214, it.dt, dir * w.dtstart.min(w.dtmax), TOL, 1.0);
    check(215, it.u.len() == n && it.sol.us.len() == 1 && it.sol.ts.len() == 1 && it.sol.us[0].len() == n);
    close(215, it.sol.ts[0], t0, TOL, 1.0);
    for i in 0..n {
        close(215, it.u[i], u0[i], TOL, 1.0);
        close(215, it.uprev[i], u0[i], TOL, 1.0);
        close(215, it.sol.us[0][i], u0[i], TOL, 1.0);
    }
    check(216, it.sol.retcode == OdeRetCode::Continue && it.stats.steps == 0 && it.stats.function_evals == 0);
    obs(1, it.t);
    reach(1);
}

/// Difference quotients in place of a Jacobian.
fn differences(n: usize, back: bool, jac: usize, steps: usize, attempts: usize) {
    let dir = if back { -1.0 } else { 1.0 };
    let t0 = real(1, -2.0, 2.0);
    let h0 = 0.25 * dir;
    let u0 = vec_real(10, n, 10.0);
    let run = Run::new(n, attempts);
    *run.j.borrow_mut() = match (n, jac) {
        (1, 0) => vec![real(200, -3.0, 3.0)],
        (1, _) => vec![-1.5],
        (2, 0) => {
            let mut j = vec![1.5, -0.5, 2.0, -1.0];
            j[choice(907, 4)] = real(200, -3.0, 3.0);
            j
        }
        (2, _) => vec![1.5, -0.5, 2.0, -1.0],
        _ => vec![1.5, -0.5, 2.0, -1.0, 0.25, -2.0, 0.5, 3.0, -0.75],
    };
    // whether the first attempt is too large, and whether convergence is slow
    let f0 = if flag(905) { 100.0 } else { 0.0 };
    let far = if flag(906) { 0.01 } else { 0.0 };
    let here = RefCell::new(vec![]);
    let target = |r: &Run| {
        let w = 0.25 + 0.125 * r.attempt.get() as f64;
        let more = if r.iter.get() > 1 { 1.0 + far } else { 1.0 };
        let mut z = Vec::with_capacity(3 * n);
        for s in 0..3 {
            for a in 0..n {
                z.push(D[s] * w * (1.0 + a as f64) * more);
            }
        }
        z
    };
    let slope = |r: &Run, k: Kind| {
        if k == Kind::Accept && far > 0.0 && r.iter.get() == 2 {
            // another matrix from here on
            for (k, x) in r.j.borrow_mut().iter_mut().enumerate() {
                *x = 1.25 - 0.5 * k as f64 - 0.75 * *x;
            }
        }
        let (st, u) = (r.state.borrow(), here.borrow());
        let mut v: Vec<f64> = Vec::with_capacity(n);
        for a in 0..n {
            let mut x = f0;
            for b in 0..n {
                let d: f64 = u[b] - st[b];
                x += r.j.borrow()[a * n + b] * d;
            }
            v.push(x);
        }
        v
    };
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        *here.borrow_mut() = u.to_vec();
        run.eval(du, u, t, &target, &slope)
    };
    let b = OdeIntegratorBuilder::default(&f, u0.clone(), (t0, t0 + dir * 1e3), Radau5, ());
    let mut it = b.reltol(1e-3).abstol(1.0).fnewt(if jac == 0 { 1e12 } else { 1e-2 }).use_ext_col(false).dtstart(h0.abs()).build();
    // one evaluation at the state and one for each component, from call c on
    let group = |c: usize, t: f64, u: &[f64]| {
        let evs = run.evs.borrow();
        for k in 0..n + 1 {
            let e = &evs[c + k];
            close(220, e.t, t, TOL, 1.0);
            for i in 0..n {
                if k == i + 1 {
                    let del = (f64::EPSILON * u[i].abs().max(1e-5)).sqrt();
                    close(222, (e.u[i] - u[i]) / del, 1.0, 1e-3, 1.0);
                } else {
                    close(221, e.u[i], u[i], TOL, 1.0);
                }
            }
        }
    };
    check(223, run.count() == n + 2);
    if run.count() == n + 2 {
        group(1, t0, u0.as_slice().unwrap());
    }
    for _ in 0..steps {
        let (t, u) = (it.t, it.u.to_vec());
        let start = run.count();
        it.step();
        if it.sol.retcode != OdeRetCode::Continue {
            return;
        }
        // the last iterate is where the right-hand side leads with its true derivative
        let z = run.z.borrow().clone();
        for i in 0..n {
            close(224, it.u[i], u[i] + z[2 * n + i], 1e-4, 1.0);
        }
        let evs = run.evs.borrow();
        let mut c = start;
        while c < evs.len() {
            if let Kind::Stage(_) = evs[c].kind {
                if evs[c].iter > 1 {
                    // so is the one before it
                    if let Kind::Stage(s) = evs[c].kind {
                        let z = &evs[c - s - 1].z;
                        for i in 0..n {
                            close(225, evs[c].u[i], u[i] + z[s * n + i], 1e-4, 1.0);
                        }
                    }
                }
                c += 1;
                continue;
            }
            let mut l = 0;
            while c + l < evs.len() && (evs[c + l].kind == Kind::Extra || evs[c + l].kind == Kind::Start || evs[c + l].kind == Kind::Accept) {
                l += 1;
            }
            if evs[c].kind == Kind::Accept {
                // renewed after slow convergence, which shows in the second iteration
                let slow = far > 0.0 && evs[c].iter == 2;
                check(226, l == 1 + if slow { n + 1 } else { 0 });
                if l == n + 2 {
                    group(c + 1, it.t, it.u.as_slice().unwrap());
                    reach(1);
                }
            } else {
                // the second estimate may come first
                check(226, l == n + 1 || l == n + 2);
                if l >= n + 1 {
                    group(c + l - n - 1, t, &u);
                    reach(2);
                }
            }
            c += l;
        }
        obs(1, it.t);
    }
    reach(3);
}

fn run_grid() {
    let (n, back) = (1 + choice(900, 2), flag(901));
    let (steps, attempts, mode) = (1 + choice(902, 3), 1 + choice(904, 4), choice(903, 5));
    if flag(899) {
        grid(Radau5, true, n, back, mode, steps, attempts, flag(905))
    } else {
        grid(DormandPrince5, false, n, back, mode, steps, attempts, false)
    }
}
fn run_same() {
    let (back, mode, attempts) = (flag(901), choice(902, 3), 1 + choice(904, 4));
    let attempts = if mode == 2 { 200 } else { attempts };
    if flag(899) {
        same(Radau5, true, back, mode, attempts)
    } else {
        same(DormandPrince5, false, back, mode, attempts)
    }
}
fn run_solution() {
    solution(choice(900, 5), choice(901, 5))
}
fn run_callback() {
    let (n, back, what, near) = (1 + choice(900, 2), flag(901), choice(902, 4), flag(903));
    let attempts = 2 + choice(904, 2);
    if flag(899) {
        callback(Radau5, true, n, back, what, near, attempts)
    } else {
        callback(DormandPrince5, false, n, back, what, near, attempts)
    }
}
fn run_nonfinite() {
    let (n, back) = (1 + choice(900, 2), flag(901));
    if flag(899) {
        nonfinite(Radau5, true, n, back)
    } else {
        nonfinite(DormandPrince5, false, n, back)
    }
}
fn run_giveup() {
    let (n, back, after) = (1 + choice(900, 2), flag(901), choice(902, 3));
    if flag(899) {
        giveup(Radau5, true, n, back, after)
    } else {
        giveup(DormandPrince5, false, n, back, after)
    }
}
fn run_singular() {
    singular(1 + choice(900, 2), flag(901))
}
fn run_params() {
    let (back, jac, cb, attempts) = (flag(901), flag(902), flag(903), 2 + choice(904, 2));
    if flag(899) {
        params(Radau5, true, back, jac, cb, attempts)
    } else {
        params(DormandPrince5, false, back, jac, cb, attempts)
    }
}
fn run_options() {
    let n = 1 + choice(900, 2);
    if flag(899) {
        options(Radau5, true, n)
    } else {
        options(DormandPrince5, false, n)
    }
}
fn run_differences() {
    let n = 1 + choice(900, 3);
    differences(n, flag(901), choice(902, 2), 1 + choice(903, 2), 1 + choice(904, 4))
}

harnesses! {
    h_grid => run_grid();
    h_same => run_same();
    h_solution => run_solution();
    h_callback => run_callback();
    h_nonfinite => run_nonfinite();
    h_giveup => run_giveup();
    h_singular => run_singular();
    h_params => run_params();
    h_options => run_options();
    h_differences => run_differences();
}
