//! Harnesses for the explicit (Dormand-Prince) integrator.
#[path = "../common.rs"]
mod common;
#[path = "../rt.rs"]
#[macro_use]
mod rt;
use common::*;
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use ndarray::prelude::*;
use rt::*;
use std::cell::{Cell, RefCell};

const TOL: f64 = 1e-9;

/// The Dormand-Prince 5(4) tableau, from the published rational coefficients.
const C: [f64; 7] = [0.0, 0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
const A: [[f64; 6]; 7] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.2, 0.0, 0.0, 0.0, 0.0, 0.0],
    [3.0 / 40.0, 9.0 / 40.0, 0.0, 0.0, 0.0, 0.0],
    [44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0, 0.0, 0.0, 0.0],
    [19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0, 0.0, 0.0],
    [9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0, 0.0],
    [35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
];
const E: [f64; 7] = [
    71.0 / 57600.0, 0.0, -71.0 / 16695.0, 71.0 / 1920.0, -17253.0 / 339200.0, 22.0 / 525.0, -1.0 / 40.0,
];

/// k1 of the current step and the recorded calls of one attempt.
fn k(rhs: &Rhs, k1: usize, base: usize, s: usize, i: usize) -> f64 {
    if s == 0 { rhs.du(k1, i) } else { rhs.du(base + s - 1, i) }
}

/// One integrator with symbolic state, step size and (optionally) tolerances.
fn stages(n: usize, steps: usize, attempts: usize, back: bool) {
    let (tu, uu) = units();
    let rhs = Rhs::new(100, 10.0 * uu / tu, 1 + 6 * (steps + attempts));
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| rhs.eval(du, u, t);
    let t0 = tu * real(1, -2.0, 2.0);
    let len = tu * real(2, 0.25, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let tf = t0 + dir * len;
    let u0 = vec_real(10, n, 10.0 * uu);
    let mut it = OdeIntegratorBuilder::default(&f, u0, (t0, tf), DormandPrince5, ()).build();
    it.dt = dir * tu * real(3, 0.001, 0.5);
    it.opts.reltol = real(4, 1e-6, 10.0);
    it.opts.abstol = uu * real(5, 1e-6, 10.0);
    check(1, rhs.count() == 1);
    close(2, rhs.t(0), t0, TOL, tu);
    let mut k1 = 0;
    for _ in 0..steps {
        let (t, base) = (it.t, rhs.count());
        let u: Vec<f64> = it.u.iter().cloned().collect();
        for i in 0..n {
            close(3, rhs.u(k1, i), u[i], TOL, uu);
        }
        let more = it.step().is_some();
        if it.sol.retcode == OdeRetCode::DtLessThanMin {
            // gave up: no step was made
            close(9, it.t, t, TOL, tu);
            for i in 0..n {
                close(10, it.u[i], u[i], TOL, uu);
            }
            reach(4);
            return;
        }
        let made = rhs.count() - base;
        check(4, made % 6 == 0 && made > 0);
        for a in 0..made / 6 {
            let b = base + 6 * a;
            let h = rhs.t(b + 5) - t;
            for s in 1..7 {
                close(5, rhs.t(b + s - 1), t + C[s] * h, TOL, tu);
                for i in 0..n {
                    let mut sum = 0.0;
                    for j in 0..s {
                        sum += A[s][j] * k(&rhs, k1, b, j, i);
                    }
                    close(6, rhs.u(b + s - 1, i), u[i] + h * sum, TOL, uu);
                }
            }
        }
        let b = rhs.count() - 6;
        let h = rhs.t(b + 5) - t;
        close(7, it.t, t + h, TOL, tu);
        for i in 0..n {
            let mut sum = 0.0;
            for j in 0..6 {
                sum += A[6][j] * k(&rhs, k1, b, j, i);
            }
            close(8, it.u[i], u[i] + h * sum, TOL, uu);
            obs(1, it.u[i]);
        }
        obs(2, it.t);
        k1 = b + 5;
        if made > 6 { reach(1); }
        if !more { reach(2); return; }
    }
    reach(3);
}

/// Scaled error norm (squared) of one attempt.
fn error2(rhs: &Rhs, n: usize, u: &[f64], k1: usize, b: usize, h: f64, abstol: f64, reltol: f64) -> f64 {
    let mut sum = 0.0;
    for i in 0..n {
        let mut e = 0.0;
        for j in 0..7 {
            e += E[j] * k(rhs, k1, b, j, i);
        }
        let sk = abstol + reltol * u[i].abs().max(rhs.u(b + 5, i).abs());
        sum += (h * e / sk) * (h * e / sk);
    }
    sum / n as f64
}

/// Which attempts are accepted, with arbitrary derivatives everywhere.
fn accept(n: usize, steps: usize, attempts: usize, back: bool) {
    let (tu, uu) = units();
    let rhs = Rhs::new(100, 10.0 * uu / tu, 1 + 6 * attempts);
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| rhs.eval(du, u, t);
    let t0 = tu * real(1, -2.0, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let u0 = vec_real(10, n, 10.0 * uu);
    let mut it = OdeIntegratorBuilder::default(&f, u0, (t0, t0 + dir * 50.0 * tu), DormandPrince5, ()).build();
    it.dt = dir * tu * real(3, 0.01, 0.5);
    let reltol = real(4, 1e-3, 10.0);
    let abstol = uu * real(5, 1e-3, 10.0);
    it.opts.reltol = reltol;
    it.opts.abstol = abstol;
    let mut k1 = 0;
    for step in 0..steps {
        let (t, base) = (it.t, rhs.count());
        let u: Vec<f64> = it.u.iter().cloned().collect();
        it.step();
        if it.sol.retcode != OdeRetCode::Continue {
            return;
        }
        let m = (rhs.count() - base) / 6;
        check(24, m > 0);
        for a in 0..m {
            let b = base + 6 * a;
            let h = rhs.t(b + 5) - t;
            let e2 = error2(&rhs, n, &u, k1, b, h, abstol, reltol);
            if a + 1 < m {
                check(21, e2 >= 1.0 - 1e-9);
                reach(1);
            } else {
                check(20, e2 <= 1.0 + 1e-9);
                k1 = b + 5;
                reach(2);
                if step > 0 { reach(3); }
            }
        }
        close(23, it.t, rhs.t(rhs.count() - 1), TOL, tu);
    }
}

/// Step size proposals.  The derivatives are chosen such that the error norm of
/// every attempt is an arbitrary number of its own.
fn control(n: usize, steps: usize, attempts: usize, back: bool, vary: bool) {
    let (tu, uu) = units();
    let dir = if back { -1.0 } else { 1.0 };
    let t0 = tu * real(1, -2.0, 2.0);
    let abstol = uu * real(5, 1e-3, 10.0);
    let now = Cell::new(t0);
    let k1 = Cell::new(0.0);
    let es = RefCell::new(Vec::with_capacity(16));
    let hs = RefCell::new(Vec::with_capacity(16));
    let calls = Cell::new(0);
    let f = |mut du: ArrayViewMut1<f64>, _u: ArrayView1<f64>, t: f64, _p: &()| {
        let c = calls.get();
        if c >= 1 + 6 * attempts {
            stop();
        }
        calls.set(c + 1);
        let mut v = 0.0;
        if c == 0 {
            v = uu / tu * real(7, -10.0, 10.0);
            k1.set(v);
        } else if c % 6 == 0 {
            let e = real(100, 0.0, 1e4);
            let h = t - now.get();
            es.borrow_mut().push(e);
            hs.borrow_mut().push(h);
            v = (e * abstol / h - E[0] * k1.get()) / E[6];
        }
        for i in 0..n {
            du[i] = v;
        }
    };
    let u0 = vec_real(10, n, 10.0 * uu);
    let len = if flag(904) { tu * real(2, 0.01, 2.0) } else { 1e4 * tu };
    let mut it = OdeIntegratorBuilder::default(&f, u0, (t0, t0 + dir * len), DormandPrince5, ()).build();
    it.dt = dir * tu * real(3, 0.01, 0.5);
    it.opts.reltol = 0.0;
    it.opts.abstol = abstol;
    if vary {
        it.opts.safe = real(20, 0.5, 1.0);
        it.opts.facl = real(21, 0.1, 0.9);
        it.opts.facr = real(22, 1.5, 20.0);
        it.opts.dtmax = tu * real(24, 0.01, 1.0);
        it.opts.max_stiff = 1;
        if flag(905) {
            it.opts.beta = 0.0;
        }
    }
    let (safe, facl, facr) = (it.opts.safe, it.opts.facl, it.opts.facr);
    let (beta, dtmax) = (it.opts.beta, it.opts.dtmax);
    let expo = 0.2 - 0.75 * beta;
    let mut p: f64 = 1e-4;
    for step in 0..steps {
        let (t, base) = (it.t, hs.borrow().len());
        now.set(t);
        let more = it.step().is_some();
        let gave_up = it.sol.retcode == OdeRetCode::DtLessThanMin;
        let m = hs.borrow().len() - base;
        for a in 0..m {
            let (e, h): (f64, f64) = (es.borrow()[base + a], hs.borrow()[base + a]);
            if a + 1 < m || gave_up {
                check(21, e >= 1.0);
                let q = (1.0 / facl).min(e.powf(expo) / safe);
                let next = if a + 1 < m { hs.borrow()[base + a + 1] } else { it.dt };
                close(30, next * q, h, TOL, tu);
                check(22, next.abs() < h.abs());
                check(32, next * dir >= 0.0);
                reach(1);
            } else {
                check(20, e <= 1.0);
                let q = (1.0 / facr).max((1.0 / facl).min(e.powf(expo) / p.powf(beta) / safe));
                let mut next = (h * dir / q).min(dtmax);
                if a > 0 {
                    next = next.min(h * dir);
                }
                close(31, it.dt * dir, next, TOL, tu);
                check(32, it.dt * dir > 0.0);
                p = e.max(1e-4);
                k1.set((e * abstol / h - E[0] * k1.get()) / E[6]);
                reach(2);
                if step > 0 { reach(3); }
                obs(3, it.dt);
            }
        }
        if gave_up || !more {
            reach(4);
            return;
        }
    }
}

/// Weights of the continuous extension.
const D: [f64; 7] = [
    -12715105075.0 / 11282082432.0, 0.0, 87487479700.0 / 32700410799.0, -10690763975.0 / 1880347072.0,
    701980252875.0 / 199316789632.0, -1453857185.0 / 822651844.0, 69997945.0 / 29380423.0,
];

/// Dense output.
fn dense(n: usize, steps: usize, attempts: usize, back: bool) {
    let (tu, uu) = units();
    let rhs = Rhs::new(100, 10.0 * uu / tu, 1 + 6 * attempts);
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| rhs.eval(du, u, t);
    let t0 = tu * real(1, -2.0, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let len = if flag(904) { tu * real(2, 0.25, 2.0) } else { 50.0 * tu };
    let u0 = vec_real(10, n, 10.0 * uu);
    let mut it = OdeIntegratorBuilder::default(&f, u0, (t0, t0 + dir * len), DormandPrince5, ())
        .dense(true)
        .build();
    it.dt = dir * tu * real(3, 0.01, 0.5);
    it.opts.reltol = 0.0;
    it.opts.abstol = uu * real(5, 1e-3, 10.0);
    let x = real(6, 0.0, 1.0);
    let mut k1 = 0;
    for _ in 0..steps {
        let t = it.t;
        let u: Vec<f64> = it.u.iter().cloned().collect();
        let more = it.step().is_some();
        if it.sol.retcode == OdeRetCode::DtLessThanMin {
            return;
        }
        let b = rhs.count() - 6;
        let h = it.t - t;
        let at = |it: &mut OdeIntegrator<(), DormandPrince5>, x: f64| {
            let dt = it.dtprev;
            cyphus_diffeq::verif_hooks::dp5_dense_output(it, t + x * h, dt)
        };
        let (l, r) = (at(&mut it, 0.0), at(&mut it, 1.0));
        let m = at(&mut it, x);
        for i in 0..n {
            close(40, l[i], u[i], TOL, uu);
            close(41, r[i], it.u[i], TOL, uu);
            let d = it.u[i] - u[i];
            let bspl = h * k(&rhs, k1, b, 0, i) - d;
            let r4 = d - h * k(&rhs, k1, b, 6, i) - bspl;
            let mut r5 = 0.0;
            for j in 0..7 {
                r5 += D[j] * k(&rhs, k1, b, j, i);
            }
            let want = u[i] + x * (d + (1.0 - x) * (bspl + x * (r4 + (1.0 - x) * h * r5)));
            close(42, m[i], want, TOL, uu);
            obs(4, m[i]);
        }
        if b != 1 { reach(1); }
        k1 = b + 5;
        if !more { reach(2); return; }
    }
    reach(3);
}

harnesses! {
    h_accept => accept(1 + choice(900, 3), 1 + choice(905, 2), 1 + choice(902, 3), flag(901));
    h_control => control(1 + choice(900, 2), 1 + choice(906, 3), 1 + choice(902, 4), flag(901), flag(903));
    h_dense => dense(1 + choice(900, 3), 2, 1 + choice(902, 3), flag(901));
    h_stages => stages(1 + choice(900, 3), 2, 2, flag(901));
}
