// Executes one matrix operation of the specification on the real library, for several element types.
use crate::json::J;
use la::{m, m_one, m_rec, ApproxEq, Matrix};
use num::{Float, Num, Signed};
use rand as rand_trait;
use std::cell::RefCell;
use std::fmt::Debug;
use std::ops::Neg;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const NAN: i64 = 1000000001;
pub const PINF: i64 = 1000000002;
pub const NINF: i64 = 1000000003;
pub const NZ: i64 = 1000000004;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Mat(Vec<Vec<i64>>),
    Slf(Vec<Vec<i64>>),
    Val(Vec<i64>),
    Rej,
    /// Shape and some elements of a returned (or, if the flag is set, changed) matrix.
    Pts(bool, i64, i64, Vec<Vec<i64>>),
    /// Something the record format cannot express: always a mismatch.
    Bad(String),
}

impl Out {
    pub fn from_json(x: &J) -> Option<Out> {
        match x.g("k").s() {
            "mat" => Some(Out::Mat(x.g("m").rows())),
            "self" => Some(Out::Slf(x.g("m").rows())),
            "val" => Some(Out::Val(x.g("v").ints())),
            "rej" => Some(Out::Rej),
            "pts" => Some(Out::Pts(x.g("s").i() == 1, x.g("r").i(), x.g("c").i(), x.g("p").rows())),
            _ => None,
        }
    }
    pub fn map(&self, f: &dyn Fn(i64) -> i64) -> Out {
        let mm = |m: &Vec<Vec<i64>>| m.iter().map(|r| r.iter().map(|x| f(*x)).collect()).collect();
        match self {
            Out::Mat(m) => Out::Mat(mm(m)),
            Out::Slf(m) => Out::Slf(mm(m)),
            Out::Val(v) => Out::Val(v.iter().map(|x| f(*x)).collect()),
            Out::Pts(s, r, c, p) => Out::Pts(*s, *r, *c, p.iter().map(|q| vec![q[0], q[1], f(q[2])]).collect()),
            o => o.clone(),
        }
    }
    /// The part of this outcome that `want` speaks about.
    pub fn seen_by(self, want: &Out) -> Out {
        let p = match want { Out::Pts(_, _, _, p) => p, _ => return self };
        let (m, s) = match &self { Out::Mat(m) => (m, false), Out::Slf(m) => (m, true), _ => return self };
        let (r, c) = (m.len() as i64, m[0].len() as i64);
        Out::Pts(s, r, c, p.iter().filter(|q| q[0] < r && q[1] < c).map(|q| vec![q[0], q[1], m[q[0] as usize][q[1] as usize]]).collect())
    }
    pub fn json(&self) -> J {
        match self {
            Out::Mat(m) => J::obj(vec![("k", J::st("mat")), ("m", J::am(m))]),
            Out::Slf(m) => J::obj(vec![("k", J::st("self")), ("m", J::am(m))]),
            Out::Val(v) => J::obj(vec![("k", J::st("val")), ("v", J::ai(v))]),
            Out::Rej => J::obj(vec![("k", J::st("rej"))]),
            Out::Pts(f, r, c, p) => J::obj(vec![("k", J::st("pts")), ("s", J::I(*f as i64)), ("r", J::I(*r)), ("c", J::I(*c)), ("p", J::am(p))]),
            Out::Bad(s) => J::obj(vec![("k", J::st("bad")), ("s", J::st(s))]),
        }
    }
}

/// Element types: how a specification value becomes an element and back.
pub trait Elem: Copy + PartialEq + Debug + 'static {
    fn of(k: i64) -> Self;
    fn tok(&self) -> i64;
}
/// An opaque element: a value carried in several fields of different widths.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tok { a: u8, b: u64, c: [u16; 3] }
impl Elem for Tok {
    fn of(k: i64) -> Tok { Tok { a: (k % 251) as u8, b: (k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15), c: [k as u16, (k >> 16) as u16, (k >> 32) as u16] } }
    fn tok(&self) -> i64 {
        let k = (self.c[0] as u64 | (self.c[1] as u64) << 16 | (self.c[2] as u64) << 32) as i64;
        let k = (k << 16) >> 16;
        if Tok::of(k) == *self { k } else { i64::max_value() }
    }
}
/// Floating-point elements that are NaNs distinguished by their payload only.
#[derive(Clone, Copy, Debug)]
pub struct Bits(pub f64);
impl PartialEq for Bits { fn eq(&self, o: &Bits) -> bool { self.0.to_bits() == o.0.to_bits() } }
impl Elem for Bits {
    fn of(k: i64) -> Bits { Bits(f64::from_bits(0x7ff8_0000_0000_0000u64 ^ ((k as u64) << 63) ^ (k as u64 & 0xFFFF_FFFF_FFFF))) }
    fn tok(&self) -> i64 {
        let b = self.0.to_bits();
        let k = ((b & 0xFFFF_FFFF_FFFF) as i64) << 16 >> 16;
        if Bits::of(k).0.to_bits() == b { k } else { i64::max_value() }
    }
}
impl Elem for i64 {
    fn of(k: i64) -> i64 { if k == NZ { 0 } else { k } }
    fn tok(&self) -> i64 { *self }
}
impl Elem for i32 {
    fn of(k: i64) -> i32 { if k == NZ { 0 } else { k as i32 } }
    fn tok(&self) -> i64 { *self as i64 }
}
fn ftok(x: f64) -> i64 {
    if x.is_nan() { NAN }
    else if x == f64::INFINITY { PINF }
    else if x == f64::NEG_INFINITY { NINF }
    else if x == 0.0 && x.is_sign_negative() { NZ }
    else if x.fract() == 0.0 && x.abs() < 1e15 { x as i64 }
    else { i64::max_value() }
}
fn fof(k: i64) -> f64 {
    match k { NAN => f64::NAN, PINF => f64::INFINITY, NINF => f64::NEG_INFINITY, NZ => -0.0, k => k as f64 }
}
impl Elem for f64 {
    fn of(k: i64) -> f64 { fof(k) }
    fn tok(&self) -> i64 { ftok(*self) }
}
impl Elem for f32 {
    fn of(k: i64) -> f32 { fof(k) as f32 }
    fn tok(&self) -> i64 { ftok(*self as f64) }
}

pub fn build<E: Elem>(m: &[Vec<i64>]) -> Matrix<E> {
    Matrix::new(m.len(), m[0].len(), m.iter().flat_map(|r| r.iter().map(|x| E::of(*x))).collect())
}
/// The abstraction of a library matrix: its rows, or a complaint if it is not a rectangular non-empty matrix.
pub fn rows_of<E: Elem>(m: &Matrix<E>) -> Result<Vec<Vec<i64>>, String> {
    let d = m.get_data();
    let r = m.rows();
    if r == 0 || d.is_empty() { return Err(format!("empty matrix: {} rows, {} elements", r, d.len())) }
    let c = m.cols();
    if r * c != d.len() { return Err(format!("{} rows x {} cols but {} elements", r, c, d.len())) }
    Ok((0..r).map(|i| (0..c).map(|j| d[i * c + j].tok()).collect()).collect())
}
thread_local! {
    /// When enabled, the matrix object most recently returned by the library.
    static KEEP: RefCell<(bool, Option<Box<dyn std::any::Any>>)> = RefCell::new((false, None));
}
pub fn keep(on: bool) { KEEP.with(|k| *k.borrow_mut() = (on, None)) }
pub fn kept<E: Elem>() -> Option<Matrix<E>> { KEEP.with(|k| k.borrow_mut().1.take()).and_then(|b| b.downcast::<Matrix<E>>().ok()).map(|b| *b) }
fn mat<E: Elem>(m: Matrix<E>) -> Out {
    let r = match rows_of(&m) { Ok(v) => Out::Mat(v), Err(s) => Out::Bad(s) };
    KEEP.with(|k| { let mut k = k.borrow_mut(); if k.0 { k.1 = Some(Box::new(m)) } });
    r
}
fn slf<E: Elem>(m: &Matrix<E>) -> Out { match rows_of(m) { Ok(v) => Out::Slf(v), Err(s) => Out::Bad(s) } }
fn val(v: Vec<i64>) -> Out { Out::Val(v) }
fn b(x: bool) -> Out { Out::Val(vec![x as i64]) }
/// Arguments too large for the specification's integers: -1000-e is 2^e, -2000-e is 2^e + 1, -k is 2^64 - k.
fn ix(k: i64) -> usize {
    if k >= 0 { k as usize }
    else if k <= -2000 { (1usize << (-k - 2000)) + 1 }
    else if k <= -1000 { 1usize << (-k - 1000) }
    else { usize::max_value() - (-k - 1) as usize }
}

/// Runs `f`; a panic is the library's way of rejecting a call.
pub fn caught<F: FnOnce() -> Out>(f: F) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(o) => o, Err(_) => Out::Rej }
}

/// Operations that only move elements (any Copy type).
pub fn exec_move<E: Elem>(op: &str, a: &mut Matrix<E>, y: &Option<Matrix<E>>, n: &[i64]) -> Option<Out> {
    let el = |v: &[i64]| v.iter().map(|x| E::of(*x)).collect::<Vec<E>>();
    let us = |v: &[i64]| v.iter().map(|x| ix(*x)).collect::<Vec<usize>>();
    let fl = |v: &[i64]| v.iter().map(|x| *x == 1).collect::<Vec<bool>>();
    let yr = || y.as_ref().unwrap();
    Some(match op {
        "new" => mat(Matrix::new(ix(n[0]), ix(n[1]), el(&n[2..]))),
        "vector" => mat(Matrix::vector(el(n))),
        "row_vector" => mat(Matrix::row_vector(el(n))),
        "clone" => mat(a.clone()),
        "rows" => val(vec![a.rows() as i64]),
        "cols" => val(vec![a.cols() as i64]),
        "get_data" => val(a.get_data().iter().map(|x| x.tok()).collect()),
        "is_square" => b(a.is_square()),
        "is_not_square" => b(a.is_not_square()),
        "get" => val(vec![a.get(ix(n[0]), ix(n[1])).tok()]),
        "get_ref" => val(vec![a.get_ref(ix(n[0]), ix(n[1])).tok()]),
        "get_mref" => val(vec![a.get_mref(ix(n[0]), ix(n[1])).tok()]),
        "index" => val(vec![a[(ix(n[0]), ix(n[1]))].tok()]),
        "set" => { a.set(ix(n[0]), ix(n[1]), E::of(n[2])); slf(a) }
        "set_mref" => { *a.get_mref(ix(n[0]), ix(n[1])) = E::of(n[2]); slf(a) }
        "set_data" => { a.get_mut_data()[ix(n[0])] = E::of(n[1]); slf(a) }
        "t" => mat(a.t()),
        "mt" => { a.mt(); slf(a) }
        "minor" => mat(a.minor(ix(n[0]), ix(n[1]))),
        "sub_matrix" => mat(a.sub_matrix(ix(n[0]), ix(n[1]), ix(n[2]), ix(n[3]))),
        "get_column" => mat(a.get_column(ix(n[0]))),
        "cr" => mat(a.cr(yr())),
        "cb" => mat(a.cb(yr())),
        "bitor" => mat(a.clone() | yr()),
        "permute_rows" => mat(a.permute_rows(&us(n))),
        "permute_columns" => mat(a.permute_columns(&us(n))),
        "select_rows" => mat(a.select_rows(&fl(n))),
        "select_columns" => mat(a.select_columns(&fl(n))),
        "filter_rows" | "filter_columns" | "filter_rows_calls" | "filter_columns_calls" => {
            let flags = fl(n);
            let own = rows_of(a).unwrap();
            let calls = RefCell::new(vec![]);
            let wrong = RefCell::new(false);
            let probe = op.ends_with("_calls");
            let r = {
                let f = |m: &Matrix<E>, i: usize| -> bool {
                    if rows_of(m).ok().as_ref() != Some(&own) { *wrong.borrow_mut() = true }
                    calls.borrow_mut().push(i as i64);
                    if probe { true } else { flags[i] }
                };
                if op.starts_with("filter_rows") { a.filter_rows(&f) } else { a.filter_columns(&f) }
            };
            if wrong.into_inner() { Out::Bad("the predicate saw another matrix".to_string()) }
            else if probe { val(calls.into_inner()) } else { mat(r) }
        }
        _ => return None,
    })
}

fn func<E: Num + Neg<Output = E> + Copy + Elem>(id: i64) -> Box<dyn Fn(&E) -> E> {
    match id {
        0 => Box::new(|x| E::of(2) * *x + E::of(1)),
        1 => Box::new(|x| *x * *x),
        2 => Box::new(|_| E::of(7)),
        3 => Box::new(|x| *x),
        _ => Box::new(|x| -*x),
    }
}
fn fold<E: Num + Neg<Output = E> + Copy + Elem>(id: i64) -> Box<dyn Fn(&E, &E) -> E> {
    match id {
        0 => Box::new(|acc, x| E::of(2) * *acc - *x),
        1 => Box::new(|acc, x| *acc + *x),
        2 => Box::new(|_, x| *x),
        _ => Box::new(|acc, _| *acc),
    }
}

/// Operations that need scalar arithmetic.
pub fn exec_ring<E>(op: &str, a: &mut Matrix<E>, y: &Option<Matrix<E>>, n: &[i64]) -> Option<Out>
where E: Elem + Num + Neg<Output = E> {
    let el = |v: &[i64]| v.iter().map(|x| E::of(*x)).collect::<Vec<E>>();
    let yr = || y.as_ref().unwrap();
    let yv = || y.as_ref().unwrap().clone();
    Some(match op {
        "id" => mat(Matrix::<E>::id(ix(n[0]), ix(n[1]))),
        "zero" => mat(Matrix::<E>::zero(ix(n[0]), ix(n[1]))),
        "diag" => mat(Matrix::diag(el(n))),
        "block_diag" => mat(Matrix::block_diag(ix(n[0]), ix(n[1]), el(&n[2..]))),
        "zero_vector" => mat(Matrix::<E>::zero_vector(ix(n[0]))),
        "one_vector" => mat(Matrix::<E>::one_vector(ix(n[0]))),
        "neg_r" => mat(-&*a),
        "neg_v" => mat(-a.clone()),
        "mneg" => { a.mneg(); slf(a) }
        "scale" => mat(a.scale(E::of(n[0]))),
        "mscale" => { a.mscale(E::of(n[0])); slf(a) }
        "map" => mat(a.map(&*func::<E>(n[0]))),
        "mmap" => { a.mmap(&*func::<E>(n[0])); slf(a) }
        "reduce" => mat(a.reduce(&el(&n[1..]), &*fold::<E>(n[0]))),
        "add_rr" => mat(&*a + yr()),
        "add_rv" => mat(&*a + yv()),
        "add_vr" => mat(a.clone() + yr()),
        "add_vv" => mat(a.clone() + yv()),
        "sub_rr" => mat(&*a - yr()),
        "sub_rv" => mat(&*a - yv()),
        "sub_vr" => mat(a.clone() - yr()),
        "sub_vv" => mat(a.clone() - yv()),
        "mul_rr" => mat(&*a * yr()),
        "mul_rv" => mat(&*a * yv()),
        "mul_vr" => mat(a.clone() * yr()),
        "mul_vv" => mat(a.clone() * yv()),
        "elem_mul" => mat(a.elem_mul(yr())),
        "elem_div" => mat(a.elem_div(yr())),
        "madd" => { a.madd(yr()); slf(a) }
        "msub" => { a.msub(yr()); slf(a) }
        "melem_mul" => { a.melem_mul(yr()); slf(a) }
        "melem_div" => { a.melem_div(yr()); slf(a) }
        "mmul" => { a.mmul(yr()); slf(a) }
        _ => return None,
    })
}

/// Calls whose second operand is the receiver itself, where the operation takes it by reference.
pub fn alias_move<E: Elem>(op: &str, a: &Matrix<E>) -> Option<Out> {
    Some(match op {
        "cr" => mat(a.cr(a)),
        "cb" => mat(a.cb(a)),
        _ => return None,
    })
}
pub fn alias_ring<E>(op: &str, a: &Matrix<E>) -> Option<Out>
where E: Elem + Num + Neg<Output = E> {
    Some(match op {
        "add_rr" => mat(a + a),
        "sub_rr" => mat(a - a),
        "mul_rr" => mat(a * a),
        "add_vr" => mat(a.clone() + a),
        "sub_vr" => mat(a.clone() - a),
        "mul_vr" => mat(a.clone() * a),
        "elem_mul" => mat(a.elem_mul(a)),
        "elem_div" => mat(a.elem_div(a)),
        _ => return None,
    })
}
pub fn alias_float<E>(op: &str, a: &Matrix<E>) -> Option<Out>
where E: Elem + Float + Signed + ApproxEq<E> {
    let unit = E::of(2).powi(-40);
    let a = Matrix::new(a.rows(), a.cols(), a.get_data().iter().map(|x| *x * unit).collect());
    let r = &a;
    Some(match op {
        "eq" => b(a == *r),
        "ne" => b(a != *r),
        "approx_eq" => b(a.approx_eq(r)),
        _ => return None,
    })
}

/// Operations on floating-point matrices with exact answers.  For comparisons an element k stands for k * 2^-40.
pub fn exec_float<E>(op: &str, a: &mut Matrix<E>, y: &Option<Matrix<E>>, n: &[i64]) -> Option<Out>
where E: Elem + Float + Signed + ApproxEq<E> {
    let unit = E::of(2).powi(-40);
    let sc = |m: &Matrix<E>| Matrix::new(m.rows(), m.cols(), m.get_data().iter().map(|x| *x * unit).collect());
    let e = |k: i64| E::of(k) * unit;
    Some(match op {
        "trace" => val(vec![a.trace().tok()]),
        "eq" => b(sc(a) == sc(y.as_ref().unwrap())),
        "ne" => b(sc(a) != sc(y.as_ref().unwrap())),
        "approx_eq" => b(sc(a).approx_eq(&sc(y.as_ref().unwrap()))),
        "is_symmetric" => b(sc(a).is_symmetric()),
        "is_non_symmetric" => b(sc(a).is_non_symmetric()),
        "scalar_approx_eq" => b(e(n[0]).approx_eq(&e(n[1]))),
        "scalar_approx_eq_eps" => b(e(n[0]).approx_eq_eps(&e(n[1]), &e(n[2]))),
        _ => return None,
    })
}

pub fn is_numeric_comparison(op: &str) -> bool {
    ["approx_eq", "is_symmetric", "is_non_symmetric", "scalar_approx_eq", "scalar_approx_eq_eps", "eq", "ne"].contains(&op)
}
pub fn zero_sign_free(op: &str) -> bool { op.starts_with("mul_") || op == "mmul" || op == "trace" }
pub fn is_in_place(op: &str) -> bool {
    ["set", "set_mref", "set_data", "mt", "mneg", "mscale", "mmap", "madd", "msub", "melem_mul", "melem_div", "mmul"].contains(&op)
}

/// Literals written with the m! macro, by number; the specification has the same table (Literals).
pub fn literal(k: i64) -> Out {
    fn sq(x: i64, y: i64) -> i64 { x * 10 + y }
    let three = 3i64;
    mat(match k {
        1 => m!(1i64),
        2 => m!(1i64, 2, 3),
        3 => m!(1i64; 2; 3),
        4 => m!(1i64, 2; 3, 4),
        5 => m!(1i64, 2, 3; 4, 5, 6),
        6 => m!(1i64, 2; 3, 4; 5, 6),
        7 => m!(sq(1, 1), 2 + three; -three, sq(three, 4)),
        8 => m!(1i64, 2, 3, 4, 5; 6, 7, 8, 9, 10; 11, 12, 13, 14, 15; 16, 17, 18, 19, 20),
        9 => m!(1i64, 2, 3; 4),
        10 => m!(1i64; 2, 3, 4),
        11 => m!(1i64, 2; 3, 4, 5; 6),
        12 => m!(1i64, 2, 3; 4, 5),
        13 => m!(1i64; 2; 3, 4),
        14 => m!(1i64, 2; 3; 4, 5; 6, 7, 8),
        15 => m!(1i64, 2, 3, 4; 5, 6; 7, 8, 9),
        _ => return Out::Bad(format!("no literal {}", k)),
    })
}

/// A random matrix: its shape and whether all elements lie in [0, 1).
pub fn random<E: num::Float + rand_trait::Rand>(r: i64, c: i64) -> Out {
    let m: Matrix<E> = Matrix::random(r as usize, c as usize);
    let ok = m.get_data().iter().all(|x| *x >= E::zero() && *x < E::one());
    val(vec![m.rows() as i64, m.cols() as i64, (ok && m.get_data().len() as i64 == r * c) as i64])
}

/// Every value drawn is another one.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Draw(u64);
thread_local! { static DRAWN: std::cell::Cell<u64> = std::cell::Cell::new(1) }
impl rand_trait::Rand for Draw { fn rand<R: rand_trait::Rng>(_: &mut R) -> Draw { DRAWN.with(|d| { d.set(d.get() + 1); Draw(d.get()) }) } }
/// Every element of a random matrix is a draw of its own.
pub fn random_draws(r: i64, c: i64) -> Out {
    let first = DRAWN.with(|d| d.get());
    let m: Matrix<Draw> = Matrix::random(r as usize, c as usize);
    let last = DRAWN.with(|d| d.get());
    let mut v = m.get_data().clone();
    v.sort();
    let ok = v.len() as i64 == r * c && v.windows(2).all(|w| w[0] < w[1]) && v.iter().all(|x| x.0 > first && x.0 <= last);
    val(vec![m.rows() as i64, m.cols() as i64, ok as i64])
}
