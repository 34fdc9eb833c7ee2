//! Interface between the harnesses and the symbolic executor (or, natively, shim.c).
#![allow(dead_code)]

extern "C" {
    fn v_f64(tag: u32, lo: f64, hi: f64) -> f64;
    fn v_u64(tag: u32, lo: u64, hi: u64) -> u64;
    fn v_choice(tag: u32, n: u32) -> u32;
    fn v_assume(c: bool);
    fn v_check(tag: u32, c: bool);
    fn v_close(tag: u32, a: f64, b: f64, tol: f64, scale: f64);
    fn v_obs(tag: u32, x: f64);
    fn v_obsi(tag: u32, x: u64);
    fn v_reach(tag: u32);
    fn v_stop();
}

/// Any real number in [lo, hi].
#[inline(always)]
pub fn real(tag: u32, lo: f64, hi: f64) -> f64 {
    unsafe { v_f64(tag, lo, hi) }
}
/// Any integer in [lo, hi] (a bit-vector).
#[inline(always)]
pub fn int(tag: u32, lo: u64, hi: u64) -> u64 {
    unsafe { v_u64(tag, lo, hi) }
}
/// Any of 0..n, explored one by one.
#[inline(always)]
pub fn choice(tag: u32, n: usize) -> usize {
    unsafe { v_choice(tag, n as u32) as usize }
}
#[inline(always)]
pub fn flag(tag: u32) -> bool {
    choice(tag, 2) == 1
}
/// Units of time and state: ordinary, both tiny, both huge.
#[allow(dead_code)]
pub fn units() -> (f64, f64) {
    match choice(950, 3) {
        0 => (1.0, 1.0),
        1 => (1.0 / (1u64 << 30) as f64, 1.0 / (1u64 << 40) as f64),
        _ => ((1u64 << 20) as f64, (1u64 << 30) as f64),
    }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { v_assume(c) }
}
/// Must hold for every input.
#[inline(always)]
pub fn check(tag: u32, c: bool) {
    unsafe { v_check(tag, c) }
}
/// |a - b| <= tol * scale must hold for every input.
#[inline(always)]
pub fn close(tag: u32, a: f64, b: f64, tol: f64, scale: f64) {
    unsafe { v_close(tag, a, b, tol, scale) }
}
#[inline(always)]
pub fn obs(tag: u32, x: f64) {
    unsafe { v_obs(tag, x) }
}
#[inline(always)]
pub fn obsi(tag: u32, x: usize) {
    unsafe { v_obsi(tag, x as u64) }
}
/// Vacuity witness: some explored path must get here.
#[inline(always)]
pub fn reach(tag: u32) {
    unsafe { v_reach(tag) }
}
/// End this path (bound of the exploration).
#[inline(always)]
pub fn stop() {
    unsafe { v_stop() }
}

/// Define the harness entry points and a `main` that runs one of them natively.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() { $body; }
        )*
        fn main() {
            let a: Vec<String> = std::env::args().collect();
            let which = if a.len() > 1 { a[1].as_str() } else { "" };
            match which {
                $( stringify!($name) => $name(), )*
                _ => { println!("unknown harness"); std::process::exit(46); }
            }
            println!("DONE");
        }
    };
}
