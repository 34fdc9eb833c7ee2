//! Harnesses for the implicit (Radau IIA) integrator.
#[path = "../common.rs"]
mod common;
#[path = "../rt.rs"]
#[macro_use]
mod rt;
#[path = "../plan.rs"]
mod plan;
use common::*;
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::verif_hooks::radau_dense_output;
use ndarray::prelude::*;
use plan::*;
use rt::*;
use std::cell::{Cell, RefCell};

const TOL: f64 = 1e-9;
/// What the right-hand side returns.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Zero,
    Any,
    Value(f64),
}

struct Sys {
    n: usize,
    calls: RefCell<Vec<Call>>,
    mode: Cell<Mode>,
    limit: Cell<usize>,
    jac: RefCell<Vec<Call>>,
    j: RefCell<Vec<f64>>,
    units: Cell<(f64, f64)>,
}

impl Sys {
    fn new(n: usize) -> Sys {
        Sys {
            n,
            calls: RefCell::new(Vec::with_capacity(64)),
            mode: Cell::new(Mode::Zero),
            limit: Cell::new(60),
            jac: RefCell::new(Vec::with_capacity(16)),
            j: RefCell::new(vec![0.0; n * n]),
            units: Cell::new((1.0, 1.0)),
        }
    }
    fn eval(&self, mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64) {
        if self.count() >= self.limit.get() {
            stop();
        }
        let mut uu = Vec::with_capacity(self.n);
        let mut dd = Vec::with_capacity(self.n);
        for i in 0..self.n {
            let v = match self.mode.get() {
                Mode::Zero => 0.0,
                Mode::Any => self.units.get().1 / self.units.get().0 * real(100 + i as u32, -10.0, 10.0),
                Mode::Value(x) => x,
            };
            du[i] = v;
            uu.push(u[i]);
            dd.push(v);
        }
        self.calls.borrow_mut().push(Call { t, u: uu, du: dd });
    }
    /// The Jacobian in use from now on.
    fn jacobian(&self, mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64) {
        for a in 0..self.n {
            for b in 0..self.n {
                df[[a, b]] = self.j.borrow()[a * self.n + b];
            }
        }
        self.jac.borrow_mut().push(Call { t, u: u.to_vec(), du: self.j.borrow().clone() });
    }
    fn count(&self) -> usize {
        self.calls.borrow().len()
    }
    fn t(&self, k: usize) -> f64 {
        self.calls.borrow()[k].t
    }
    fn u(&self, k: usize, i: usize) -> f64 {
        self.calls.borrow()[k].u[i]
    }
    fn du(&self, k: usize, i: usize) -> f64 {
        self.calls.borrow()[k].du[i]
    }
}

/// A Jacobian: zero, all entries arbitrary, or integers with one arbitrary entry.
fn any_jac(n: usize, kind: usize) -> Vec<f64> {
    let mut j = vec![0.0; n * n];
    if kind == 1 {
        for k in 0..n * n {
            j[k] = real(200 + k as u32, -5.0, 5.0);
        }
    }
    if kind == 2 {
        for k in 0..n * n {
            j[k] = [2.0, -1.0, 3.0, -2.0, 1.0, 2.0, -3.0, 1.0, -1.0][k];
        }
        j[choice(903, n * n)] = real(200, -5.0, 5.0);
    }
    if kind == 3 {
        for k in 0..n * n {
            j[k] = [-2.0, 1.0, 3.0, -4.0, 1.0, 2.0, -1.0, 3.0, -3.0][k];
        }
    }
    j
}

/// The three stage calls from k on are one Newton iteration with increments z, those from k+3 on
/// the next: the difference solves the simplified Newton system.
fn newton_system(s: &Sys, k: usize, t: f64, u: &[f64], j: &[f64]) {
    let n = s.n;
    let h = s.t(k + 2) - t;
    for st in 0..3 {
        for a in 0..n {
            let z = s.u(k + st, a) - u[a];
            let d = |q: usize, b: usize| s.u(k + 3 + q, b) - s.u(k + q, b);
            let mut lhs = d(st, a);
            let mut rhs = -z;
            for q in 0..3 {
                let mut jd = 0.0;
                for b in 0..n {
                    jd += j[a * n + b] * d(q, b);
                }
                lhs -= h * A[st][q] * jd;
                rhs += h * A[st][q] * s.du(k + q, a);
            }
            close(51, lhs, rhs, TOL, s.units.get().1);
        }
    }
}

/// Newton systems after different histories.
///  0 first attempt, 1 after an accepted step with a larger step size, 2 after an accepted step with
///  the same step size, 3 after a rejected first attempt, 4 after a failed Newton iteration,
///  5 after an accepted step that renewed the Jacobian
fn newton(n: usize, hist: usize, back: bool, kind: usize, iters: usize) {
    let (tu, uu) = units();
    let s = Sys::new(n);
    s.units.set((tu, uu));
    let probe = Cell::new(usize::MAX);
    let now = Cell::new(0.0);
    let state = RefCell::new(vec![]);
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        let k = s.count();
        let p = probe.get();
        if p != usize::MAX && k >= p + 3 {
            let j = (k - p) / 3;
            if k == p + 3 {
                let h = s.t(k - 1) - now.get();
                for st in 0..3 {
                    close(50, s.t(p + st), now.get() + C[st] * h, TOL, tu);
                }
            }
            if j >= 2 && (k - p) % 3 == 0 {
                let jac = s.jac.borrow().last().unwrap().du.clone();
                newton_system(&s, k - 6, now.get(), &state.borrow(), &jac);
                reach(j as u32 - 1);
            }
            // the bound, or no further iteration
            if j == iters || (t - s.t(p + (k - p) % 3)).abs() > 1e-4 * tu {
                stop();
            }
        }
        s.eval(du, u, t)
    };
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| s.jacobian(df, u, t);
    let t0 = tu * real(1, -2.0, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let u0 = vec_real(10, n, 10.0 * uu);
    *s.j.borrow_mut() = any_jac(n, kind).iter().map(|x| x / tu).collect();
    if hist == 3 {
        s.mode.set(Mode::Value(1e9 * uu / tu));
    }
    let h0 = if flag(905) { tu * real(3, 0.02, 0.1) } else { 0.0625 * tu };
    let mut it = OdeIntegratorBuilder::default(&f, u0.clone(), (t0, t0 + dir * 50.0 * tu), Radau5, ())
        .dfdu(&df)
        .fnewt(1e-3)
        .abstol(1e-7 * uu)
        .dtstart(h0)
        .build();
    it.opts.use_ext_col = flag(906);
    now.set(t0);
    *state.borrow_mut() = u0.to_vec();
    if hist == 2 {
        it.opts.dtmax = h0;
    }
    if hist == 0 {
        s.mode.set(Mode::Any);
        probe.set(s.count());
    } else if hist == 1 || hist == 2 {
        it.step();
        now.set(it.t);
        *state.borrow_mut() = it.u.to_vec();
        close(52, it.dt, dir * if hist == 1 { 8.0 * h0 } else { h0 }, TOL, tu);
        if hist == 1 {
            it.dt = dir * tu * real(4, 0.02, 0.1);
        }
        s.mode.set(Mode::Any);
        probe.set(s.count());
    }
    it.step();
}


/// Which attempts are accepted.  Stage increments, derivatives and state are arbitrary.
fn accept(n: usize, steps: usize, attempts: usize, back: bool, kind: usize) {
    let (tu, uu) = units();
    let run = Run::new(n, attempts);
    let target = |_: &Run| vec_real(100, 3 * n, 10.0 * uu).to_vec();
    let slope = |_: &Run, _: Kind| vec_real(120, n, 10.0 * uu / tu).to_vec();
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| run.eval(du, u, t, &target, &slope);
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| run.jacobian(df, u, t);
    let t0 = tu * real(1, -2.0, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let u0 = vec_real(10, n, 10.0 * uu);
    *run.j.borrow_mut() = any_jac(n, kind).iter().map(|x| x / tu).collect();
    run.renew.set(kind == 3);
    let h0 = if kind < 2 { tu * real(3, 0.02, 0.1) } else { 0.0625 * tu };
    let abstol = uu * real(4, 1e-4, 10.0);
    let mut it = OdeIntegratorBuilder::default(&f, u0, (t0, t0 + dir * 50.0 * tu), Radau5, ())
        .dfdu(&df)
        .fnewt(1e12)
        .use_ext_col(false)
        .reltol(1e-3)
        .abstol(abstol)
        .dtstart(h0)
        .build();
    // in effect from the second step on
    let (mut atol, mut rtol) = (0.1 * 0.01 * abstol / 1e-3, 0.1 * 0.01);
    it.opts.abstol = uu * real(5, 1e-4, 10.0);
    it.opts.reltol = real(6, 1e-4, 10.0);
    let mut accepted = 0;
    let mut f0 = run.evs.borrow()[0].du.clone();
    for _ in 0..steps {
        let t = it.t;
        let u = it.u.to_vec();
        let from = run.attempt.get() + 1;
        it.step();
        if it.sol.retcode != OdeRetCode::Continue {
            return;
        }
        let last = run.attempt.get();
        for a in from..last + 1 {
            let evs = run.evs.borrow();
            let st = &evs[run.first(a, Kind::Stage(0)).unwrap()];
            check(66, st.iter == 1 && st.jacs > 0);
            let j = run.jac.borrow()[st.jacs - 1].du.clone();
            let norm2 = |f: &[f64]| {
                let x = estimate(n, f, &st.z, &j, st.h);
                let mut sum = 0.0;
                for i in 0..n {
                    let q = x[i] / (atol + rtol * u[i].abs());
                    sum += q * q;
                }
                (x, (sum / n as f64).sqrt())
            };
            for i in 0..n {
                close(65, st.u[i], u[i], TOL, uu);
            }
            let (x, mut e2) = norm2(&f0);
            let extra = run.first(a, Kind::Extra);
            let again = accepted == 0 || a > from;
            if let Some(k) = extra {
                check(63, again && e2 >= 1.0 - 1e-9);
                for i in 0..n {
                    close(62, evs[k].u[i], u[i] + x[i], TOL, uu);
                }
                close(67, evs[k].t, t, TOL, tu);
                e2 = norm2(&evs[k].du).1;
                reach(3);
            } else if again {
                check(63, e2 <= 1.0 + 1e-9);
            }
            if a < last {
                check(61, e2 >= 1.0 - 1e-9);
                reach(1);
            } else {
                check(60, e2 <= 1.0 + 1e-9);
                close(64, it.t, t + st.h, TOL, tu);
                for i in 0..n {
                    close(64, it.u[i], u[i] + st.z[2 * n + i], TOL, uu);
                }
                reach(2);
                if accepted > 0 { reach(4); }
            }
        }
        accepted += 1;
        let evs = run.evs.borrow();
        let k = run.first(last, Kind::Accept).unwrap();
        for i in 0..n {
            close(68, evs[k].u[i], it.u[i], TOL, uu);
        }
        close(68, evs[k].t, it.t, TOL, tu);
        f0 = evs[k].du.clone();
        atol = it.opts.abstol;
        rtol = it.opts.reltol;
    }
}

/// How the Newton iteration of a step goes: increments in multiples of the scaled norm.
///  0 one iteration, 1 two with fast convergence, 2 two with slow convergence, 3 three
fn iterates(way: usize, iter: usize, fnewt: f64) -> f64 {
    match (way, iter) {
        (0, _) => 0.0,
        (1, _) => 2.0 * fnewt,
        (2, 1) => 1.5 * fnewt,
        (2, _) => 2.25 * fnewt,
        (_, 1) => 10.0 * fnewt,
        (_, _) => 15.0 * fnewt,
    }
}

/// Step size proposals.  The derivatives are chosen such that the error estimate of every attempt
/// is an arbitrary number of its own.
///
/// The first error norms may be given numbers (`past`): a third step after two accepted ones, or
/// after one that was rejected first.
///
/// The first attempt of the second step may be one whose iteration fails (`fail`): 1 for a large
/// contraction rate, 2 for a large predicted increment, 3 for want of iterations.
fn control(steps: usize, attempts: usize, back: bool, vary: usize, near: bool, past: usize, fail: usize) {
    let given: &[f64] = [&[][..], &[0.3], &[0.3, 0.6], &[0.3, 5.0, 0.2], &[20.0, 0.4, 0.7]][past];
    let (tu, uu) = units();
    let run = Run::new(1, attempts);
    let (fnewt, rtol, atol0) = (0.01, 0.1 * 0.01, uu);
    let scal = rtol * (atol0 / 1e-3);
    let way = Cell::new(0);
    let target = |r: &Run| {
        let mut x = iterates(way.get(), r.iter.get(), fnewt) * scal;
        if fail > 0 && r.attempt.get() == 2 {
            x = scal * if r.iter.get() == 1 { 1.0 } else { [0.0, 3.0, 1.9, 1.5][fail] };
        }
        vec![W[0] * x, W[1] * x, W[2] * x]
    };
    let h0 = if past > 0 { 0.25 * tu } else { tu * real(3, 0.01, 0.5) };
    let asked = Cell::new(0);
    let slope = |r: &Run, k: Kind| {
        let e = if asked.get() < given.len() { given[asked.get()] } else { real(100, 0.0, 1e4) };
        asked.set(asked.get() + 1);
        let h = if k == Kind::Build { h0 } else { r.h.get() };
        vec![e * scal * GAMMA0 / h]
    };
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| run.eval(du, u, t, &target, &slope);
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| run.jacobian(df, u, t);
    let t0 = tu * real(1, -2.0, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let len = if near { tu * real(2, 0.01, if past > 0 { 8.0 } else { 2.0 }) } else { 1e4 * tu };
    let mut b = OdeIntegratorBuilder::default(&f, array![0.0], (t0, t0 + dir * len), Radau5, ())
        .dfdu(&df)
        .fnewt(fnewt)
        .use_ext_col(false)
        .reltol(1e-3)
        .abstol(atol0)
        .dtstart(h0);
    if vary == 1 {
        b = b.safe(real(20, 0.5, 0.95)).facl(real(21, 1.1, 10.0)).facr(real(22, 0.05, 0.9));
    }
    if vary == 2 {
        b = b.dtmax(tu * real(24, 0.01, 1.0)).max_newt_iter(4).quot1(real(25, 0.8, 1.0)).quot2(real(26, 1.1, 1.5));
    }
    if vary == 3 {
        b = b.modern_pred(false);
    }
    if fail == 3 {
        b = b.max_newt_iter(2);
    }
    let mut it = b.build();
    // keeps the scaling as it was in the first step
    it.opts.reltol = 0.0;
    let o = (it.opts.safe, it.opts.facl, it.opts.facr, it.opts.dtmax, it.opts.max_newt_iter as f64);
    let (safe, facl, facr, dtmax, m) = o;
    let (quot1, quot2) = (it.opts.quot1, it.opts.quot2);
    let (mut accepted, mut refused) = (0, 0);
    let mut f0 = run.evs.borrow()[0].du[0];
    let (mut hacc, mut eacc): (f64, f64) = (0.0, 0.0);
    for _ in 0..steps {
        let (t, u) = (it.t, it.u[0]);
        way.set(if flag(907) { choice(908, 4) } else { 0 });
        let from = run.attempt.get() + 1;
        let jacs = run.jac.borrow().len();
        it.step();
        let gave_up = it.sol.retcode == OdeRetCode::DtLessThanMin;
        let done = it.sol.retcode == OdeRetCode::Success;
        let last = run.attempt.get();
        counters(141, &it, &run);
        let took = if gave_up { 0 } else { 1 };
        check(140, it.stats.accepts == accepted + took);
        refused += if accepted > 0 { last + 1 - from - took } else { 0 };
        if fail > 0 && from == 2 {
            refused -= 1;
        }
        check(140, it.stats.rejects == refused);
        check(92, run.evs.borrow().iter().all(|e| e.kind != Kind::Start));
        for a in from..last + 1 {
            let evs = run.evs.borrow();
            let st = &evs[run.first(a, Kind::Stage(0)).unwrap()];
            let h = st.h;
            let k = evs.iter().filter(|e| e.attempt == a && e.kind == Kind::Stage(0)).count();
            check(73, k >= 1 && k <= 3);
            if fail > 0 && a == 2 {
                // predicted: theta = 0.9, fac = 9, four more iterations
                let factor = if fail == 2 { 0.8 * 20f64.powf(-1.0 / 8.0) } else { 0.5 };
                check(61, k == 2 && a < last);
                close(71, evs[run.first(a + 1, Kind::Stage(0)).unwrap()].h, factor * h, TOL, tu);
                reach(6);
                continue;
            }
            let mut e: f64 = (f0 * h / (GAMMA0 * scal)).abs();
            let again = accepted == 0 || a > from;
            match run.first(a, Kind::Extra) {
                Some(k) => {
                    check(63, again && e >= 1.0 - 1e-9);
                    e = (evs[k].du[0] * h / (GAMMA0 * scal)).abs();
                }
                None => check(63, !again || e <= 1.0 + 1e-9),
            }
            e = e.max(1e-10);
            let fac = safe.min(safe * (1.0 + 2.0 * m) / (k as f64 + 2.0 * m));
            let mut q = facr.max(facl.min(e.powf(0.25) / fac));
            if a < last || gave_up {
                check(61, e >= 1.0 - 1e-9);
                let next = if a < last { evs[run.first(a + 1, Kind::Stage(0)).unwrap()].h } else { it.dt };
                if accepted == 0 {
                    close(71, next, 0.1 * h, TOL, tu);
                    reach(1);
                } else {
                    close(71, next * q, h, TOL, tu);
                    reach(2);
                }
                check(72, next * dir >= 0.0);
            } else {
                check(60, e <= 1.0 + 1e-9);
                if it.opts.modern_pred && accepted > 0 {
                    let g = (hacc / h) * (e * e / eacc).powf(0.25) / safe;
                    q = q.max(facr.max(facl.min(g)));
                    reach(3);
                }
                hacc = h;
                eacc = e.max(1e-2);
                let mut next = (h * dir / q).min(dtmax);
                if a > from {
                    next = next.min(h * dir);
                }
                let theta = k == 2 && way.get() >= 2;
                if !done {
                    let end = (it.tfinal - it.t) * dir;
                    let past = next / quot1 - end;
                    let qt = next / (h * dir);
                    let is = |x: f64| (it.dt * dir - x).abs() <= 1e-8 * tu;
                    if past > 1e-9 * tu {
                        close(74, it.dt, end * dir, TOL, tu);
                        reach(5);
                    } else if past < -1e-9 * tu {
                        if !theta && qt > quot1 + 1e-9 && qt < quot2 - 1e-9 {
                            close(75, it.dt, h, TOL, tu);
                            reach(4);
                        } else if theta || qt < quot1 - 1e-9 || qt > quot2 + 1e-9 {
                            close(70, it.dt * dir, next, TOL, tu);
                        } else {
                            // on the edge, either of the two
                            check(70, is(next) || is(h * dir));
                            reach(7);
                        }
                    } else {
                        check(70, is(end) || is(next) || is(h * dir));
                    }
                    check(72, it.dt * dir > 0.0);
                    // the Jacobian is renewed after slow convergence and after rejections
                    let renew = last - from + if theta { 1 } else { 0 };
                    check(92, run.jac.borrow().len() == jacs + renew);
                    for c in jacs..run.jac.borrow().len() {
                        let at = if c - jacs < last - from { (t, u) } else { (it.t, it.u[0]) };
                        close(91, run.jac.borrow()[c].t, at.0, TOL, tu);
                        close(91, run.jac.borrow()[c].u[0], at.1, TOL, uu);
                    }
                }
                obs(1, it.dt);
            }
        }
        if gave_up || done {
            return;
        }
        accepted += 1;
        f0 = run.evs.borrow()[run.first(last, Kind::Accept).unwrap()].du[0];
    }
}

/// When the Newton iteration stops, and how.  The norm of every increment is an arbitrary number,
/// in the first step or after a first one with given norms (`past`).
fn convergence(n: usize, m: usize, attempts: usize, back: bool, jac: bool, past: bool) {
    let (tu, uu) = units();
    let run = Run::new(n, attempts);
    if jac {
        run.j.borrow_mut()[0] = -3.0;
        run.renew.set(true);
    }
    let mut u0 = vec![uu * if past { -3.0 } else { real(10, -10.0, 10.0) }];
    u0.extend([uu * 40.0, uu * -4000.0][..n - 1].iter());
    let scal = RefCell::new(u0.iter().map(|u| 0.1 * 0.01 * (uu / 1e-3 + u.abs())).collect::<Vec<f64>>());
    let fnewt = if past { 0.03125 } else { real(5, 1e-3, 0.1) };
    let ds = RefCell::new(Vec::with_capacity(16));
    let pos = Cell::new(0.0);
    let target = |r: &Run| {
        if r.iter.get() == 1 {
            pos.set(0.0);
            ds.borrow_mut().push(vec![]);
        }
        let d = if past && r.attempt.get() == 1 {
            fnewt * if m > 1 && r.iter.get() == 1 { 2.0 } else { 0.5 }
        } else {
            real(100, 0.0, 2.0)
        };
        ds.borrow_mut().last_mut().unwrap().push(d);
        pos.set(pos.get() + d);
        // every component moves by the same multiple of its tolerance
        (0..3 * n).map(|k| W[k / n] * pos.get() * scal.borrow()[k % n]).collect()
    };
    let slope = |_: &Run, _: Kind| vec![0.0; n];
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| run.eval(du, u, t, &target, &slope);
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| run.jacobian(df, u, t);
    let t0 = tu * real(1, -2.0, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let mut it = OdeIntegratorBuilder::default(&f, Array1::from(u0), (t0, t0 + dir * 50.0 * tu), Radau5, ())
        .dfdu(&df)
        .fnewt(fnewt)
        .use_ext_col(false)
        .max_newt_iter(m)
        .reltol(1e-3)
        .abstol(uu)
        .dtstart(if jac || past { 0.25 * tu } else { tu * real(3, 0.1, 0.5) })
        .build();
    if past {
        it.step();
        check(80, it.sol.retcode == OdeRetCode::Continue && run.attempt.get() == 1);
        *scal.borrow_mut() = it.u.iter().map(|u| it.opts.abstol + it.opts.reltol * u.abs()).collect();
        reach(6);
    }
    let (t0, u0) = (it.t, it.u.to_vec());
    let before = if past { 1 } else { 0 };
    it.step();
    let more = it.sol.retcode == OdeRetCode::Continue;
    let last = run.attempt.get();
    // failed iterations are no rejected steps
    counters(141, &it, &run);
    check(140, it.stats.rejects == 0 && it.stats.accepts == before + if more { 1 } else { 0 });
    check(142, it.stats.decompositions == last || !more);
    let mut fac: f64 = 1.0;
    for a in 1..last + 1 {
        let evs = run.evs.borrow();
        let h = evs[run.first(a, Kind::Stage(0)).unwrap()].h;
        let jacs = evs[run.first(a, Kind::Stage(0)).unwrap()].jacs;
        let d = ds.borrow()[a - 1].clone();
        fac = fac.max(f64::EPSILON).powf(0.8);
        let (mut old, mut thqold): (f64, f64) = (0.0, 0.0);
        for k in 1..d.len() + 1 {
            let end = k == d.len();
            let converged = end && (a <= before || a == last && more);
            let dk: f64 = d[k - 1];
            let (mut stop_lo, mut stop_hi) = (false, false);
            let mut factor: f64 = 0.5;
            if k > 1 && k < m {
                let thq = dk / old;
                let theta: f64 = if k == 2 { thq } else { (thq * thqold).sqrt() };
                thqold = thq;
                if theta >= 0.99 - 1e-9 {
                    stop_hi = true;
                    stop_lo = theta >= 0.99 + 1e-9;
                } else {
                    fac = theta / (1.0 - theta);
                    let mut pw = 1.0;
                    for _ in 0..m - 1 - k {
                        pw *= theta;
                    }
                    let dyth = fac * dk * pw / fnewt;
                    if dyth >= 1.0 - 1e-9 {
                        stop_hi = true;
                        stop_lo = dyth >= 1.0 + 1e-9;
                        factor = 0.8 * dyth.min(20.0).max(1e-4).powf(-1.0 / (3 + m - k) as f64);
                    }
                }
            }
            // on the edge, rounding decides
            assume(stop_lo || !stop_hi);
            old = dk.max(f64::EPSILON);
            let small_lo = fac * dk <= fnewt * (1.0 - 1e-9);
            let small_hi = fac * dk <= fnewt * (1.0 + 1e-9);
            if converged {
                check(80, small_hi && !stop_lo);
                reach(1);
            } else if end {
                check(81, stop_hi || k == m && !small_lo);
                if a < last {
                    let next = &evs[run.first(a + 1, Kind::Stage(0)).unwrap()];
                    check(83, next.jacs == jacs + 1);
                    close(83, run.jac.borrow()[next.jacs - 1].t, t0, TOL, tu);
                    for i in 0..n {
                        close(83, run.jac.borrow()[next.jacs - 1].u[i], u0[i], TOL, uu);
                        close(86, next.u[i], u0[i], TOL, uu);
                    }
                    close(84, next.h, factor * h, TOL, tu);
                    check(85, next.h.abs() <= 0.81 * h.abs());
                    if factor == 0.5 { reach(3) } else { reach(4) };
                }
                reach(2);
            } else {
                check(82, k < m && !stop_lo && !small_lo);
                reach(5);
            }
        }
    }
}

/// The cubic through (0,0), (c1,z1), (c2,z2), (1,z3) for component i of n.
fn cubic(z: &[f64], n: usize, i: usize, x: f64) -> f64 {
    let mut v = 0.0;
    for s in 0..3 {
        let mut w = x / C[s];
        for q in 0..3 {
            if q != s {
                w *= (x - C[q]) / (C[s] - C[q]);
            }
        }
        v += w * z[s * n + i];
    }
    v
}

/// Initial guess of the stages and dense output.
fn guess(n: usize, back: bool) {
    let (tu, uu) = units();
    let run = Run::new(n, 4);
    let target = |_: &Run| vec_real(100, 3 * n, 10.0 * uu).to_vec();
    let slope = |_: &Run, _: Kind| vec_real(120, n, 10.0 * uu / tu).to_vec();
    let ext = flag(906);
    let reject = flag(903);
    let prev: RefCell<(Vec<f64>, f64)> = RefCell::new((vec![], 0.0));
    let f = |du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        run.eval(du, u, t, &target, &slope);
        let evs = run.evs.borrow();
        let e = &evs[evs.len() - 1];
        if let Kind::Stage(s) = e.kind {
            close(50, t, run.now.get() + C[s] * e.h, TOL, tu);
            let (z, h) = &*prev.borrow();
            for i in 0..n {
                let mut want = run.state.borrow()[i];
                if z.len() > 0 && ext {
                    want += cubic(z, n, i, 1.0 + C[s] * e.h / h) - z[2 * n + i];
                    reach(1);
                }
                close(53, e.u[i], want, TOL, 100.0 * uu);
            }
            if e.attempt == 3 && s == 2 {
                reach(2);
                stop();
            }
        }
    };
    let df = |df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| run.jacobian(df, u, t);
    let t0 = tu * real(1, -2.0, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let h0 = tu * real(3, 0.02, 0.1);
    let mut it = OdeIntegratorBuilder::default(&f, vec_real(10, n, 10.0 * uu), (t0, t0 + dir * 50.0 * tu), Radau5, ())
        .dfdu(&df)
        .fnewt(1e30)
        .use_ext_col(ext)
        .dense(true)
        .reltol(1e-3)
        .abstol(if reject { 1e-3 * uu } else { 1e9 * uu })
        .quot2(0.5)
        .dtstart(h0)
        .build();
    it.opts.reltol = 0.0;
    let x = real(6, 0.0, 1.0);
    for step in 0..2 {
        let (t, u) = (it.t, it.u.to_vec());
        if step == 1 {
            it.dt = dir * tu * real(4, 0.02, 0.1);
        }
        it.step();
        if it.sol.retcode != OdeRetCode::Continue {
            return;
        }
        let k = run.first(run.attempt.get(), Kind::Stage(0)).unwrap();
        let (z, h) = (run.evs.borrow()[k].z.clone(), run.evs.borrow()[k].h);
        for (tag, y) in [(54, 0.0), (55, C[0]), (56, C[1]), (57, 1.0), (58, x)] {
            let d = radau_dense_output(&mut it, t + y * h);
            for i in 0..n {
                let want = match tag {
                    54 => u[i],
                    55 => u[i] + z[i],
                    56 => u[i] + z[n + i],
                    57 => it.u[i],
                    _ => u[i] + cubic(&z, n, i, y),
                };
                close(tag, d[i], want, TOL, uu);
            }
        }
        reach(3 + step as u32);
        *prev.borrow_mut() = (z, h);
    }
}

/// Linear problems.
fn linear(n: usize, steps: usize, back: bool, kind: usize, tight: bool) {
    let (tu, uu) = units();
    let j: Vec<f64> = any_jac(n, kind).iter().map(|x| x / tu).collect();
    let g = if flag(908) { vec_real(30, n, 5.0 * uu / tu).to_vec() } else { vec![0.0; n] };
    let f = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, _t: f64, _p: &()| {
        for a in 0..n {
            let mut v = g[a];
            for b in 0..n {
                v += j[a * n + b] * u[b];
            }
            du[a] = v;
        }
    };
    let df = |mut df: ArrayViewMut2<f64>, _u: ArrayView1<f64>, _t: f64, _p: &()| {
        for a in 0..n {
            for b in 0..n {
                df[[a, b]] = j[a * n + b];
            }
        }
    };
    let t0 = tu * real(1, -2.0, 2.0);
    let dir = if back { -1.0 } else { 1.0 };
    let u0 = vec_real(10, n, 10.0 * uu);
    let h0 = if n == 1 { tu * real(3, 0.02, 0.1) } else { 0.0625 * tu };
    let mut it = OdeIntegratorBuilder::default(&f, u0, (t0, t0 + dir * 50.0 * tu), Radau5, ())
        .dfdu(&df)
        .fnewt(if tight { 1e-3 } else { 1e12 })
        .use_ext_col(flag(906))
        .reltol(1e-3)
        .abstol(if tight { uu } else { 1e9 * uu })
        .dtstart(h0)
        .build();
    for step in 0..steps {
        let (t, u) = (it.t, it.u.to_vec());
        if step == 1 {
            it.dt = dir * if n == 1 { tu * real(4, 0.02, 0.1) } else { 0.03125 * tu };
        }
        it.step();
        if it.sol.retcode != OdeRetCode::Continue {
            return;
        }
        let h = it.t - t;
        if step == 0 && !tight {
            close(59, h, dir * h0, TOL, tu);
        }
        // z^k v
        let mul = |v: &[f64]| {
            let mut r = vec![0.0; n];
            for a in 0..n {
                for b in 0..n {
                    r[a] += h * j[a * n + b] * v[b];
                }
            }
            r
        };
        let v1 = it.u.to_vec();
        let (d1, n1, g1) = (mul(&v1), mul(&u), mul(&g));
        let (d2, n2, g2) = (mul(&d1), mul(&n1), mul(&g1));
        let d3 = mul(&d2);
        for i in 0..n {
            let lhs = v1[i] - 0.6 * d1[i] + 0.15 * d2[i] - d3[i] / 60.0;
            let rhs = u[i] + 0.4 * n1[i] + 0.05 * n2[i] + h * (g[i] - 0.1 * g1[i] + g2[i] / 60.0);
            close(40, lhs, rhs, TOL, 10.0 * uu);
            obs(2, it.u[i]);
        }
        reach(1 + step as u32);
    }
}

/// Tolerances derived when building.
fn tolerances() {
    let f = |mut du: ArrayViewMut1<f64>, _u: ArrayView1<f64>, _t: f64, _p: &()| du[0] = 0.0;
    let (r, a) = (real(1, 1e-15, 1.0), real(2, 1e-15, 10.0));
    let own = flag(900);
    let fnewt = real(3, 1e-6, 1.0);
    let mut b = OdeIntegratorBuilder::default(&f, array![0.0], (0.0, 1.0), Radau5, ());
    b = if flag(901) { b.reltol(r).abstol(a) } else { b.abstol(a).reltol(r) };
    if own {
        b = b.fnewt(fnewt);
    }
    let it = b.build();
    let want = 0.1 * r.powf(2.0 / 3.0);
    close(1, it.opts.reltol, want, TOL, want);
    close(2, it.opts.abstol * r, want * a, TOL, want * a);
    if own {
        close(3, it.opts.fnewt, fnewt, TOL, fnewt);
        reach(1);
    } else {
        let want = (10.0 * f64::EPSILON / want).max(want.sqrt().min(0.03));
        close(4, it.opts.fnewt, want, TOL, want);
        reach(2);
    }
    obs(1, it.opts.reltol);
    obs(2, it.opts.abstol);
}

harnesses! {
    h_accept => accept(1 + choice(900, 3), 1 + choice(905, 2), 1 + choice(902, 3), flag(901), choice(904, 4));
    h_control => control(1 + choice(905, 3), 1 + choice(902, 5), flag(901), choice(903, 4), flag(904), choice(906, 5), choice(909, 4));
    h_convergence => convergence(1 + choice(905, 3), 1 + choice(900, 5), 1 + choice(902, 3), flag(901), flag(904), flag(906));
    h_guess => guess(1 + choice(900, 3), flag(901));
    h_linear => linear(1 + choice(900, 3), 1 + choice(905, 2), flag(901), choice(904, 4), flag(902));
    h_newton => newton(1 + choice(900, 3), choice(902, 6), flag(901), choice(904, 4), 2 + choice(907, 2));
    h_tolerances => tolerances();
}
