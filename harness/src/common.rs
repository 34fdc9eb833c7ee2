//! Shared pieces of the harnesses: a right-hand side that may return anything.
#![allow(dead_code)]
use crate::rt::*;
use ndarray::prelude::*;
use std::cell::{Cell, RefCell};

pub struct Call {
    pub t: f64,
    pub u: Vec<f64>,
    pub du: Vec<f64>,
}

/// An arbitrary right-hand side: every call returns unconstrained values in
/// [-range, range] and is recorded.  Exploration of a path ends when more than
/// `limit` calls are made (the stated bound).
pub struct Rhs {
    pub tag: u32,
    pub range: f64,
    pub calls: RefCell<Vec<Call>>,
    pub limit: Cell<usize>,
}

impl Rhs {
    pub fn new(tag: u32, range: f64, limit: usize) -> Rhs {
        Rhs {
            tag,
            range,
            calls: RefCell::new(Vec::with_capacity(64)),
            limit: Cell::new(limit),
        }
    }
    pub fn eval(&self, mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64) {
        let n = u.len();
        if self.calls.borrow().len() >= self.limit.get() {
            stop();
        }
        let mut uu = Vec::with_capacity(n);
        let mut dd = Vec::with_capacity(n);
        for i in 0..n {
            let v = real(self.tag + i as u32, -self.range, self.range);
            du[i] = v;
            uu.push(u[i]);
            dd.push(v);
        }
        self.calls.borrow_mut().push(Call { t, u: uu, du: dd });
    }
    pub fn count(&self) -> usize {
        self.calls.borrow().len()
    }
    pub fn t(&self, k: usize) -> f64 {
        self.calls.borrow()[k].t
    }
    pub fn u(&self, k: usize, i: usize) -> f64 {
        self.calls.borrow()[k].u[i]
    }
    pub fn du(&self, k: usize, i: usize) -> f64 {
        self.calls.borrow()[k].du[i]
    }
}

pub fn vec_real(tag: u32, n: usize, range: f64) -> Array1<f64> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(real(tag + i as u32, -range, range));
    }
    Array1::from(v)
}
