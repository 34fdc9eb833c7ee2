//! Harnesses for the factorisations and solves.
#[path = "../rt.rs"]
#[macro_use]
mod rt;
use cyphus_diffeq::verif_hooks::linalg::*;
use ndarray::prelude::*;
use rt::*;

const TOL: f64 = 1e-6;
const R: f64 = 10.0;

/// n x n entries (r, c) with r - c <= lb and c - r <= ub are arbitrary, the others zero.
fn matrix(tag: u32, n: usize, lb: usize, ub: usize) -> Array2<f64> {
    let mut a = Array2::<f64>::zeros((n, n));
    for r in 0..n {
        for c in 0..n {
            if r <= c + lb && c <= r + ub {
                a[[r, c]] = real(tag + (r * n + c) as u32, -R, R);
            }
        }
    }
    a
}

fn vector(tag: u32, n: usize) -> Array1<f64> {
    let mut v = Array1::<f64>::zeros(n);
    for i in 0..n {
        v[i] = real(tag + i as u32, -R, R);
    }
    v
}

/// Like `matrix`, but only the k-th entry is arbitrary and the others hold small integers.
fn entry_matrix(tag: u32, n: usize, lb: usize, ub: usize, k: usize) -> Array2<f64> {
    let mut a = Array2::<f64>::zeros((n, n));
    let m = if tag < 150 { 3 } else { 5 };
    for r in 0..n {
        for c in 0..n {
            if r <= c + lb && c <= r + ub {
                let v = (7 * r * r + 5 * c + m * r * c + m) % 11;
                a[[r, c]] = if r * n + c == k { real(tag, -R, R) } else { v as f64 - 4.0 };
            }
        }
    }
    a
}

/// Complex matrices: all entries arbitrary up to order two, one of them above.
fn matrix_c(n: usize, lb: usize, ub: usize) -> (Array2<f64>, Array2<f64>) {
    if n < 3 {
        return (matrix(100, n, lb, ub), matrix(150, n, lb, ub));
    }
    let k = choice(903, n * n);
    assume(k / n <= k % n + lb && k % n <= k / n + ub);
    (entry_matrix(100, n, lb, ub, k), entry_matrix(150, n, lb, ub, k))
}

/// A x = b, row by row.
fn residual(n: usize, a: &Array2<f64>, x: &Array1<f64>, b: &Array1<f64>) {
    for r in 0..n {
        let mut s = 0.0;
        let mut m = 1.0;
        for c in 0..n {
            s += a[[r, c]] * x[c];
            m += (a[[r, c]] * x[c]).abs();
        }
        close(1, s, b[r], TOL, m);
        obs(1, x[r]);
    }
    reach(1);
}

fn residual_c(
    n: usize,
    a: (&Array2<f64>, &Array2<f64>),
    x: (&Array1<f64>, &Array1<f64>),
    b: (&Array1<f64>, &Array1<f64>),
) {
    for r in 0..n {
        let (mut s, mut q) = (0.0, 0.0);
        let mut m = 1.0;
        for c in 0..n {
            let (ar, ai, xr, xi) = (a.0[[r, c]], a.1[[r, c]], x.0[c], x.1[c]);
            s += ar * xr - ai * xi;
            q += ar * xi + ai * xr;
            m += (ar.abs() + ai.abs()) * (xr.abs() + xi.abs());
        }
        close(1, s, b.0[r], TOL, m);
        close(2, q, b.1[r], TOL, m);
        obs(1, x.0[r]);
        obs(2, x.1[r]);
    }
    reach(1);
}

/// Determinant by expansion along the first row.
fn det(n: usize, a: &Array2<f64>) -> f64 {
    fn minor(a: &Array2<f64>, rows: usize, cols: &[usize]) -> f64 {
        if cols.is_empty() {
            return 1.0;
        }
        let mut s = 0.0;
        let mut sign = 1.0;
        for (k, &c) in cols.iter().enumerate() {
            let mut rest = Vec::with_capacity(4);
            for (j, &d) in cols.iter().enumerate() {
                if j != k {
                    rest.push(d);
                }
            }
            s += sign * a[[rows, c]] * minor(a, rows + 1, &rest);
            sign = -sign;
        }
        s
    }
    let cols: Vec<usize> = (0..n).collect();
    minor(a, 0, &cols)
}

fn det_c(n: usize, ar: &Array2<f64>, ai: &Array2<f64>) -> (f64, f64) {
    fn minor(ar: &Array2<f64>, ai: &Array2<f64>, row: usize, cols: &[usize]) -> (f64, f64) {
        if cols.is_empty() {
            return (1.0, 0.0);
        }
        let mut s = (0.0, 0.0);
        let mut sign = 1.0;
        for (k, &c) in cols.iter().enumerate() {
            let mut rest = Vec::with_capacity(4);
            for (j, &d) in cols.iter().enumerate() {
                if j != k {
                    rest.push(d);
                }
            }
            let m = minor(ar, ai, row + 1, &rest);
            s.0 += sign * (ar[[row, c]] * m.0 - ai[[row, c]] * m.1);
            s.1 += sign * (ar[[row, c]] * m.1 + ai[[row, c]] * m.0);
            sign = -sign;
        }
        s
    }
    let cols: Vec<usize> = (0..n).collect();
    minor(ar, ai, 0, &cols)
}

/// A reported singularity is one.
fn singular(n: usize, a: &Array2<f64>, ier: usize) {
    check(11, ier >= 1 && ier <= n);
    close(10, det(n, a), 0.0, TOL, 1e4);
    reach(2);
}

fn singular_c(n: usize, ar: &Array2<f64>, ai: &Array2<f64>, ier: usize) {
    check(11, ier >= 1 && ier <= n);
    let d = det_c(n, ar, ai);
    close(10, d.0, 0.0, TOL, 1e4);
    close(12, d.1, 0.0, TOL, 1e4);
    reach(2);
}

/// Real matrices: all entries arbitrary up to order four, one of them above.
fn matrix_r(n: usize, lb: usize, ub: usize) -> Array2<f64> {
    if n < 5 {
        matrix(100, n, lb, ub)
    } else {
        let k = choice(903, n * n);
        assume(k / n <= k % n + lb && k % n <= k / n + ub);
        entry_matrix(100, n, lb, ub, k)
    }
}

fn dense(n: usize) {
    let a = matrix_r(n, n, n);
    let b = vector(200, n);
    let mut lu = a.clone();
    let mut ip = Array1::<i32>::zeros(n);
    let ier = dec(n, lu.view_mut(), ip.view_mut());
    if ier != 0 {
        return singular(n, &a, ier);
    }
    let mut x = b.clone();
    sol(n, lu.view(), x.view_mut(), ip.view());
    residual(n, &a, &x, &b);
}

fn hess(n: usize, lb: usize) {
    let a = matrix_r(n, lb, n);
    let b = vector(200, n);
    let mut lu = a.clone();
    let mut ip = Array1::<i32>::zeros(n);
    let ier = dech(n, lu.view_mut(), lb, ip.view_mut());
    if ier != 0 {
        return singular(n, &a, ier);
    }
    let mut x = b.clone();
    solh(n, lu.view(), lb, x.view_mut(), ip.view());
    residual(n, &a, &x, &b);
}

fn band(n: usize, lb: usize, ub: usize) {
    let a = matrix_r(n, lb, ub);
    let b = vector(200, n);
    let md = lb + ub;
    // what is not part of the band may hold anything
    let mut lu = Array2::<f64>::zeros((2 * lb + ub + 1, n));
    lu.fill(real(190, -R, R));
    for r in 0..n {
        for c in 0..n {
            if r <= c + lb && c <= r + ub {
                lu[[md + r - c, c]] = a[[r, c]];
            }
        }
    }
    let mut ip = Array1::<i32>::zeros(n);
    let ier = decb(n, lu.view_mut(), lb, ub, ip.view_mut());
    if ier != 0 {
        return singular(n, &a, ier);
    }
    if lb == 0 {
        // diagonal elimination is not needed and the factorisation only looks at the last pivot
        for i in 0..n {
            assume(a[[i, i]] != 0.0);
        }
    }
    let mut x = b.clone();
    solb(n, lu.view(), lb, ub, x.view_mut(), ip.view());
    residual(n, &a, &x, &b);
}

fn dense_c(n: usize) {
    let (ar, ai) = matrix_c(n, n, n);
    let (br, bi) = (vector(200, n), vector(250, n));
    let (mut lr, mut li) = (ar.clone(), ai.clone());
    let mut ip = Array1::<i32>::zeros(n);
    let ier = decc(n, lr.view_mut(), li.view_mut(), ip.view_mut());
    if ier != 0 {
        return singular_c(n, &ar, &ai, ier);
    }
    let (mut xr, mut xi) = (br.clone(), bi.clone());
    solc(n, lr.view(), li.view(), xr.view_mut(), xi.view_mut(), ip.view());
    residual_c(n, (&ar, &ai), (&xr, &xi), (&br, &bi));
}

fn hess_c(n: usize, lb: usize) {
    let (ar, ai) = matrix_c(n, lb, n);
    let (br, bi) = (vector(200, n), vector(250, n));
    let (mut lr, mut li) = (ar.clone(), ai.clone());
    let mut ip = Array1::<i32>::zeros(n);
    let ier = dechc(n, lr.view_mut(), li.view_mut(), lb, ip.view_mut());
    if ier != 0 {
        return singular_c(n, &ar, &ai, ier);
    }
    if lb == 0 {
        for i in 0..n {
            assume(ar[[i, i]] != 0.0 || ai[[i, i]] != 0.0);
        }
    }
    let (mut xr, mut xi) = (br.clone(), bi.clone());
    solhc(n, lr.view(), li.view(), lb, xr.view_mut(), xi.view_mut(), ip.view());
    residual_c(n, (&ar, &ai), (&xr, &xi), (&br, &bi));
}

fn band_c(n: usize, lb: usize, ub: usize) {
    let (ar, ai) = matrix_c(n, lb, ub);
    let (br, bi) = (vector(200, n), vector(250, n));
    let md = lb + ub;
    let mut lr = Array2::<f64>::zeros((2 * lb + ub + 1, n));
    let mut li = Array2::<f64>::zeros((2 * lb + ub + 1, n));
    lr.fill(real(190, -R, R));
    li.fill(real(191, -R, R));
    for r in 0..n {
        for c in 0..n {
            if r <= c + lb && c <= r + ub {
                lr[[md + r - c, c]] = ar[[r, c]];
                li[[md + r - c, c]] = ai[[r, c]];
            }
        }
    }
    let mut ip = Array1::<i32>::zeros(n);
    let ier = decbc(n, lr.view_mut(), li.view_mut(), lb, ub, ip.view_mut());
    if ier != 0 {
        return singular_c(n, &ar, &ai, ier);
    }
    if lb == 0 {
        for i in 0..n {
            assume(ar[[i, i]] != 0.0 || ai[[i, i]] != 0.0);
        }
    }
    let (mut xr, mut xi) = (br.clone(), bi.clone());
    solbc(n, lr.view(), li.view(), lb, ub, xr.view_mut(), xi.view_mut(), ip.view());
    residual_c(n, (&ar, &ai), (&xr, &xi), (&br, &bi));
}

/// Undo the recorded operations of the reduction and compare with the input.
/// The range is low..igh (igh exclusive), outside of which the matrix is
/// already block triangular, as balancing leaves it.
fn elim(n: usize, low: usize, igh: usize) {
    let mut a = matrix(100, n, n, n);
    for r in 0..n {
        for c in 0..n {
            if (r >= low && c < low && r > c) || (r >= igh && c < r) {
                a[[r, c]] = 0.0;
            }
        }
    }
    let mut h = a.clone();
    let mut int = Array1::<i32>::zeros(n);
    elmhes(n, low, igh, h.view_mut(), int.view_mut());
    // split into the Hessenberg matrix and the multipliers
    let mut y = Array2::<f64>::zeros((n, n));
    for r in 0..n {
        for c in 0..n {
            if c >= low && r > c + 1 && r < igh {
                y[[r, c]] = h[[r, c]];
                h[[r, c]] = 0.0;
            }
        }
    }
    let mut m = igh;
    while m > low + 2 {
        m -= 1;
        let p = m - 1; // the stage eliminated below row p, using column p - 1
        if p < low + 1 {
            break;
        }
        for i in (p + 1..igh).rev() {
            let f = y[[i, p - 1]];
            for r in 0..n {
                let t = h[[r, i]];
                h[[r, p]] -= f * t;
            }
            for c in 0..n {
                let t = h[[p, c]];
                h[[i, c]] += f * t;
            }
        }
        let q = int[p] as usize;
        check(22, q >= p && q < igh);
        if q != p {
            for c in 0..n {
                let t = h[[p, c]];
                h[[p, c]] = h[[q, c]];
                h[[q, c]] = t;
            }
            for r in 0..n {
                let t = h[[r, p]];
                h[[r, p]] = h[[r, q]];
                h[[r, q]] = t;
            }
        }
    }
    for r in 0..n {
        for c in 0..n {
            close(21, h[[r, c]], a[[r, c]], TOL, 1e3);
            obs(1, h[[r, c]]);
        }
    }
    reach(1);
}

harnesses! {
    h_dense => dense(1 + choice(900, 6));
    h_hess => { let n = 1 + choice(900, 6); hess(n, choice(901, n)) };
    h_band => { let n = 1 + choice(900, 6); let lb = choice(901, n); band(n, lb, choice(902, n)) };
    h_dense_c => dense_c(1 + choice(900, 5));
    h_hess_c => { let n = 1 + choice(900, 5); hess_c(n, choice(901, n)) };
    h_band_c => { let n = 1 + choice(900, 5); let lb = choice(901, n); band_c(n, lb, choice(902, n)) };
    h_elim => { let n = 1 + choice(900, 5); let low = choice(901, n); elim(n, low, low + 1 + choice(902, n - low)) };
}
