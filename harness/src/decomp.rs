// Records executions of the decompositions and solvers as matrices of exact fixed-point numbers.
use crate::alloc::fill;
use crate::fam::*;
use crate::json::J;
use crate::rng::Rng;
use crate::watch::Watch;
use la::{ApproxEq, CholeskyDecomposition, EigenDecomposition, LUDecomposition, Matrix, QRDecomposition, SVD};
use num::{Float, Signed};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Fl: Float + Signed + ApproxEq<Self> + Debug + Copy + 'static { const NAME: &'static str; const NL: usize; fn of(x: f64) -> Self; fn f(self) -> f64; fn next(self) -> Self; }
impl Fl for f64 { const NAME: &'static str = "f64"; const NL: usize = 4; fn of(x: f64) -> f64 { x } fn f(self) -> f64 { self } fn next(self) -> f64 { f64::from_bits(self.to_bits() ^ 1) } }
impl Fl for f32 { const NAME: &'static str = "f32"; const NL: usize = 3; fn of(x: f64) -> f32 { x as f32 } fn f(self) -> f64 { self as f64 } fn next(self) -> f32 { f32::from_bits(self.to_bits() ^ 1) } }

pub type M = Vec<Vec<f64>>;
pub fn get<T: Fl>(m: &Matrix<T>) -> M { let d = m.get_data(); let c = d.len() / m.rows(); (0..m.rows()).map(|i| (0..c).map(|j| d[i * c + j].f()).collect()).collect() }
pub fn put<T: Fl>(m: &M) -> Matrix<T> { Matrix::new(m.len(), m[0].len(), m.iter().flat_map(|r| r.iter().map(|x| T::of(*x))).collect()) }
pub fn finite(m: &M) -> bool { m.iter().all(|r| r.iter().all(|x| x.is_finite())) }

/// Multiplies by 2^k exactly (barring subnormal results).
pub fn ldexp(x: f64, k: i32) -> f64 { let h = k / 2; x * 2f64.powi(h) * 2f64.powi(k - h) }
/// The least e with |x| < 2^e (0 for x = 0).
pub fn exp_of(x: f64) -> i32 {
    if x == 0.0 { return 0 }
    let mut e = x.abs().log2().floor() as i32;
    while ldexp(x.abs(), -e) >= 1.0 { e += 1 }
    while ldexp(x.abs(), -e) < 0.5 { e -= 1 }
    e
}
pub fn exp_m(m: &M) -> i32 { exp_of(m.iter().flat_map(|r| r.iter()).fold(0.0, |a: f64, x| a.max(x.abs()))) }
pub fn exp_v(v: &[f64]) -> i32 { exp_of(v.iter().fold(0.0, |a: f64, x| a.max(x.abs()))) }
const BIG: i64 = 1 << 24;
pub fn digits(x: f64, e: i32, nl: usize) -> J {
    let mut y = ldexp(x, -e);
    let mut d = vec![];
    for _ in 0..nl {
        y *= 4096.0;
        if !(y.abs() < BIG as f64) { y = if y > 0.0 { BIG as f64 } else { -BIG as f64 } }
        let r = y.round();
        d.push(r as i64);
        y -= r;
    }
    if x != 0.0 && d.iter().all(|v| *v == 0) { d[nl - 1] = if x > 0.0 { 1 } else { -1 } }
    J::ai(&d)
}
pub fn fx(m: &M, e: i32, nl: usize) -> J { J::A(m.iter().map(|r| J::A(r.iter().map(|x| digits(*x, e, nl)).collect())).collect()) }
pub fn fv(v: &[f64], e: i32, nl: usize) -> J { J::A(v.iter().map(|x| digits(*x, e, nl)).collect()) }

/// Names for bit patterns: equal magnitudes have equal names, 0 is zero, the sign is kept.
#[derive(Default)]
pub struct Names(Vec<u64>);
impl Names {
    pub fn of(&mut self, x: f64) -> i64 {
        if x == 0.0 { return 0 }
        let b = x.abs().to_bits();
        let k = match self.0.iter().position(|y| *y == b) { Some(k) => k, None => { self.0.push(b); self.0.len() - 1 } };
        (k as i64 + 1) * if x < 0.0 { -1 } else { 1 }
    }
    pub fn m(&mut self, m: &M) -> J { J::A(m.iter().map(|r| J::A(r.iter().map(|x| J::I(self.of(*x))).collect())).collect()) }
    pub fn v(&mut self, v: &[f64]) -> J { J::A(v.iter().map(|x| J::I(self.of(*x))).collect()) }
}
/// Mantissa (24 bits) and exponent of a positive number, rounded down; 0 for zero.
pub fn mantissa(x: f64) -> J {
    if x == 0.0 { return J::ai(&[0, 0]) }
    let e = exp_of(x);
    J::ai(&[ldexp(x, 24 - e).trunc() as i64, e as i64 - 24])
}

pub enum Res<R> { Ok(R), None, Rej }
pub fn call<R, F: FnOnce() -> Option<R>>(f: F) -> Res<R> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(Some(r)) => Res::Ok(r), Ok(None) => Res::None, Err(_) => Res::Rej }
}
pub fn some<R, F: FnOnce() -> R>(f: F) -> Res<R> { call(|| Some(f())) }

/// The input with its elements rounded to the element type.
fn rounded<T: Fl>(a: &Input) -> Input { let mut b = a.clone(); b.x = get::<T>(&put(&a.x)); b }
/// The matrix given to the library.
fn given<T: Fl>(a: &Input) -> Matrix<T> {
    if a.cs.is_empty() { return put(&a.x) }
    put(&real_mat(a.m, a.n, &mut |i, j| ldexp(a.x[i][j], a.cs[j] + if a.sym { a.cs[i] } else { 0 })))
}
fn columns(m: &M, a: &Input) -> M { m.iter().map(|r| r.iter().enumerate().map(|(j, x)| ldexp(*x, -a.c(j))).collect()).collect() }
fn rows(m: &M, a: &Input, s: i32) -> M { m.iter().enumerate().map(|(i, r)| r.iter().map(|x| ldexp(*x, s * a.c(i))).collect()).collect() }
pub type Rec = Vec<(&'static str, J)>;
fn base<T: Fl>(op: &'static str, a: &Input) -> Rec {
    let mut r: Rec = vec![("op", J::st(op)), ("ty", J::st(T::NAME)), ("nl", J::I(T::NL as i64)), ("m", J::I(a.m as i64)), ("n", J::I(a.n as i64)),
        ("fam", J::st(a.fam)), ("src", J::A(a.x.iter().map(|r| J::A(r.iter().map(|x| J::st(&format!("{:e}", x))).collect())).collect()))];
    if let Some(ref ai) = a.ai { r.push(("ai", J::am(ai))); r.push(("k", J::I(a.k as i64))) }
    r.push(("isint", J::B(a.ai.is_some())));
    if !a.cs.is_empty() { r.push(("cs", J::ai(&a.cs.iter().map(|x| *x as i64).collect::<Vec<i64>>()))) }
    r
}
fn st(mut r: Rec, s: &str) -> Rec { r.push(("st", J::st(s))); r }
/// Adds the fields when the results are finite matrices, otherwise the status says what happened.
fn done<R, F: FnOnce(&mut Rec, R) -> bool>(r: Rec, x: Res<R>, f: F) -> Rec {
    let mut r = r;
    match x {
        Res::Rej => st(r, "rej"),
        Res::None => st(r, "none"),
        Res::Ok(v) => { let mut extra = vec![]; if f(&mut extra, v) { r.extend(extra); st(r, "ok") } else { st(r, "malformed") } }
    }
}
fn shaped(m: &M, r: usize, c: usize) -> bool { m.len() == r && m.iter().all(|x| x.len() == c) && finite(m) }

// ---------------------------------------------------------------------------------------------
pub fn lu<T: Fl>(a: &Input) -> Rec {
    let a = &rounded::<T>(a);
    let m: Matrix<T> = given(a);
    let (h, w) = (a.m, a.n);
    done(base::<T>("lu", a), some(|| { let d = LUDecomposition::new(&m); (get(&d.get_l()), columns(&get(&d.get_u()), a), get(&d.get_p()), d.get_piv().clone()) }), |r, (l, u, p, piv)| {
        let k = h.min(w);
        if !(shaped(&l, h, k) && shaped(&u, k, w) && shaped(&p, h, h)) { return false }
        let (el, eu) = (exp_m(&l), exp_m(&u));
        r.push(("L", fx(&l, el, T::NL)));
        r.push(("U", fx(&u, eu, T::NL)));
        r.push(("A", fx(&a.x, el + eu, T::NL)));
        r.push(("eL", J::I(el as i64)));
        r.push(("P", J::A(p.iter().map(|r| J::A(r.iter().map(|x| J::I(if *x == 0.0 { 0 } else if *x == 1.0 { 1 } else { 2 })).collect())).collect())));
        r.push(("piv", J::ai(&piv.iter().map(|x| *x as i64).collect::<Vec<i64>>())));
        true
    })
}

/// An (almost) integral number: rounded magnitude in base 4096, sign, deviation in 2^-20.
fn integral(x: f64) -> Option<J> {
    if !(x.abs() < 2f64.powi(46)) { return None }
    let y = x.round();
    let mut k = y.abs() as i64;
    let mut d = vec![];
    for _ in 0..4 { d.push(k & 4095); k >>= 12 }
    d.reverse();
    Some(J::obj(vec![("neg", J::B(y < 0.0)), ("d", J::ai(&d)), ("fr", J::I(((x - y).abs() * 1048576.0).ceil() as i64))]))
}
pub fn det<T: Fl>(a: &Input) -> Rec {
    let a = &rounded::<T>(a);
    let m: Matrix<T> = given(a);
    let lu = LUDecomposition::new(&m);
    let mut r = base::<T>("det", a);
    let flag = |x: Res<bool>| match x { Res::Ok(b) => J::I(b as i64), _ => J::I(-1) };
    r.push(("sing", flag(some(|| m.is_singular()))));
    r.push(("nons", flag(some(|| m.is_non_singular()))));
    r.push(("lusing", flag(if a.m >= a.n { some(|| lu.is_singular()) } else { Res::Rej })));
    r.push(("lunons", flag(if a.m >= a.n { some(|| lu.is_non_singular()) } else { Res::Rej })));
    let dd = some(|| m.det().f());
    let ld = some(|| lu.det().f());
    match (dd, ld) {
        (Res::Rej, Res::Rej) => st(r, "rej"),
        (Res::Ok(x), Res::Ok(y)) => {
            if !(x.is_finite() && y.is_finite()) { return st(r, "malformed") }
            r.push(("same", J::B(x == y)));
            if a.ai.is_some() {
                let s = -a.k * a.n as i32 - a.cs.iter().sum::<i32>();
                match (integral(ldexp(x, s)), integral(ldexp(y, s))) { (Some(p), Some(q)) => { r.push(("det", p)); r.push(("ludet", q)) } _ => return st(r, "malformed") }
            }
            // the determinant as the signed product of the pivots
            let u = get(&lu.get_u());
            let diag: Vec<f64> = (0..a.n).map(|i| ldexp(u[i][i], -a.c(i))).collect();
            let es: Vec<i32> = diag.iter().map(|x| exp_of(*x)).collect();
            r.push(("pivots", J::A(diag.iter().zip(&es).map(|(x, e)| digits(*x, *e, T::NL)).collect())));
            r.push(("prod", digits(ldexp(y, -a.cs.iter().sum::<i32>()), es.iter().sum(), T::NL)));
            r.push(("zero", J::B(y == 0.0)));
            r.push(("piv", J::ai(&lu.get_piv().iter().map(|x| *x as i64).collect::<Vec<i64>>())));
            st(r, "ok")
        }
        _ => st(r, "malformed"),
    }
}

/// A*X = B; `how`: 0 Matrix::solve, 1 LUDecomposition::solve, 2 Matrix::inverse, 3 Cholesky, 4 QR.
pub fn solve<T: Fl>(op: &'static str, a: &Input, b: &M, how: usize) -> Rec {
    let a = &rounded::<T>(a);
    let m: Matrix<T> = given(a);
    let b: M = get::<T>(&put(b));
    let rhs: Matrix<T> = if a.sym && b.len() == a.m { put(&rows(&b, a, 1)) } else { put(&b) };
    let x = call(|| match how {
        0 => m.solve(&rhs),
        1 => LUDecomposition::new(&m).solve(&rhs),
        2 => m.inverse(),
        3 => CholeskyDecomposition::new(&m).map(|c| c.solve(&rhs)),
        _ => QRDecomposition::new(&m).solve(&rhs),
    });
    let mut r = base::<T>(op, a);
    r.push(("b", J::I(b.len() as i64)));
    r.push(("how", J::I(how as i64)));
    if how == 4 { r.push(("full", match some(|| QRDecomposition::new(&m).is_full_rank()) { Res::Ok(v) => J::I(v as i64), _ => J::I(-1) })) }
    done(r, x, |r, x| {
        let x = get(&x);
        if !shaped(&x, a.n, b[0].len()) { return false }
        let x = rows(&x, a, 1);
        let ex = exp_m(&x);
        let ea = exp_m(&a.x).max(exp_m(&b) - ex);
        let e = ea + ex;
        r.push(("A", fx(&a.x, ea, T::NL)));
        r.push(("X", fx(&x, ex, T::NL)));
        r.push(("B", fx(&b, e, T::NL)));
        r.push(("e", J::I(e as i64)));
        true
    })
}

pub fn chol<T: Fl>(a: &Input, cert: Vec<(&'static str, J)>) -> Rec {
    let a = &rounded::<T>(a);
    let m: Matrix<T> = given(a);
    let mut r = base::<T>("chol", a);
    let mut nm = Names::default();
    r.push(("At", nm.m(&get(&m))));
    r.push(("cert", J::obj(cert)));
    done(r, call(|| CholeskyDecomposition::new(&m).map(|c| get(c.get_l()))), |r, l| {
        if !shaped(&l, a.m, a.m) { return false }
        let l = rows(&l, a, -1);
        let e = exp_m(&l);
        r.push(("L", fx(&l, e, T::NL)));
        r.push(("A", fx(&a.x, 2 * e, T::NL)));
        r.push(("Lt", J::A(l.iter().map(|r| J::A(r.iter().map(|x| J::I(if *x == 0.0 { 0 } else if *x > 0.0 { 1 } else { -1 })).collect())).collect())));
        true
    })
}

pub fn qr<T: Fl>(a: &Input) -> Rec {
    let a = &rounded::<T>(a);
    let m: Matrix<T> = given(a);
    let (h, w) = (a.m, a.n);
    let x = a.x.clone();
    done(base::<T>("qr", a), some(|| { let d = QRDecomposition::new(&m); (get(&d.get_q()), columns(&get(&d.get_r()), a), get(&d.get_h())) }), |r, (q, rr, hh)| {
        if !(shaped(&q, h, h) && shaped(&rr, h, w) && shaped(&hh, h, w)) { return false }
        let eq = exp_m(&q).max(0);
        let er = exp_m(&rr).max(exp_m(&x) - eq);
        r.push(("Q", fx(&q, eq, T::NL)));
        r.push(("eQ", J::I(eq as i64)));
        r.push(("R", fx(&rr, er, T::NL)));
        r.push(("A", fx(&x, eq + er, T::NL)));
        if h.max(w) > 48 { r.push(("Hz", J::A(vec![]))); return true }
        // the Householder vectors, each scaled to length about one, and the matrices between the reflections
        // (witnesses: the specification checks each step)
        let k = h.min(w);
        let vs: Vec<Vec<f64>> = (0..k).map(|j| { let c: Vec<f64> = hh.iter().map(|r| r[j]).collect(); let e = exp_v(&c); c.iter().map(|x| ldexp(*x, -e)).collect() }).collect();
        let mut ws = vec![x.clone()];
        for j in 0..k {
            let mut u = ws[j].clone();
            let vv: f64 = vs[j].iter().map(|x| x * x).sum();
            if vv > 0.0 {
                for c in 0..w {
                    let s: f64 = (0..h).map(|i| vs[j][i] * u[i][c]).sum::<f64>() * 2.0 / vv;
                    for i in 0..h { u[i][c] -= s * vs[j][i] }
                }
            }
            ws.push(u);
        }
        let ew = ws.iter().map(|m| exp_m(m)).max().unwrap().max(exp_m(&rr));
        r.push(("V", J::A(vs.iter().map(|v| fv(v, 0, T::NL)).collect())));
        r.push(("W", J::A(ws.iter().map(|m| fx(m, ew, T::NL)).collect())));
        r.push(("Rw", fx(&rr, ew, T::NL)));
        r.push(("Hz", J::A(hh.iter().map(|r| J::A(r.iter().map(|x| J::I((*x != 0.0) as i64)).collect())).collect())));
        true
    })
}

pub fn pinv<T: Fl>(a: &Input) -> Rec {
    let a = &rounded::<T>(a);
    let m: Matrix<T> = put(&a.x);
    done(base::<T>("pinv", a), some(|| get(&m.pinverse())), |r, x| {
        if !shaped(&x, a.n, a.m) { return false }
        let (ea, ex) = (exp_m(&a.x), exp_m(&x));
        r.push(("A", fx(&a.x, ea, T::NL)));
        r.push(("X", fx(&x, ex, T::NL)));
        r.push(("eAX", J::I((ea + ex) as i64)));
        true
    })
}

pub fn svd<T: Fl>(op: &'static str, a: &Input) -> Rec {
    let a = &rounded::<T>(a);
    let m: Matrix<T> = put(&a.x);
    let (h, w) = (a.m, a.n);
    let direct = op == "direct";
    done(base::<T>(op, a), some(|| { let d = if direct { SVD::direct(&m) } else { SVD::new(&m) }; let k = if direct { 0 } else { d.rank() }; (get(d.get_u()), get(d.get_s()), get(d.get_v()), k) }), |r, (u, s, v, rank)| {
        if !(shaped(&u, h, h) && shaped(&s, h, w) && shaped(&v, w, w)) { return false }
        let (eu, ev) = (exp_m(&u).max(0), exp_m(&v).max(0));
        let k = h.min(w);
        let d: Vec<f64> = (0..k).map(|i| s[i][i]).collect();
        let es = exp_v(&d).max(exp_m(&a.x) + ev - eu);
        r.push(("U", fx(&u, eu, T::NL)));
        r.push(("eU", J::I(eu as i64)));
        r.push(("V", fx(&v, ev, T::NL)));
        r.push(("eV", J::I(ev as i64)));
        r.push(("s", fv(&d, es, T::NL)));
        r.push(("A", fx(&get(&m), es + eu - ev, T::NL)));
        r.push(("At", fx(&get(&m), es + ev - eu, T::NL)));      // for the transposed equation A'*U = V*S'
        r.push(("Sz", J::A(s.iter().map(|r| J::A(r.iter().map(|x| J::I((*x != 0.0) as i64)).collect())).collect())));
        r.push(("sm", J::A(d.iter().map(|x| mantissa(x.abs())).collect())));
        r.push(("rank", J::I(rank as i64)));
        true
    })
}

pub fn eig<T: Fl>(op: &'static str, a: &Input) -> Rec {
    let a = &rounded::<T>(a);
    let m: Matrix<T> = put(&a.x);
    let n = a.n;
    done(base::<T>(op, a), some(|| { let d = EigenDecomposition::new(&m);
        (get(d.get_v()), get(&d.get_d()), d.get_real_eigenvalues().iter().map(|x| x.f()).collect::<Vec<f64>>(), d.get_imag_eigenvalues().iter().map(|x| x.f()).collect::<Vec<f64>>()) }),
        |r, (v, d, re, im)| {
        let fin = |v: &Vec<f64>| v.len() == n && v.iter().all(|x| x.is_finite());
        if !(shaped(&v, n, n) && shaped(&d, n, n) && fin(&re) && fin(&im)) { return false }
        let x = get(&m);
        let e = exp_m(&x).max(exp_m(&d));
        let mut nm = Names::default();
        r.push(("Dt", nm.m(&d)));
        r.push(("ret", nm.v(&re)));
        r.push(("imt", nm.v(&im)));
        r.push(("A", fx(&x, e, T::NL)));
        r.push(("D", fx(&d, e, T::NL)));
        r.push(("re", fv(&re, e, T::NL)));
        // columns of V brought to the same size (a conjugate pair together)
        let col = |j: usize| v.iter().map(|r| r[j]).collect::<Vec<f64>>();
        let mut ce: Vec<i32> = (0..n).map(|j| exp_v(&col(j))).collect();
        for j in 0..n { if im[j] > 0.0 && j + 1 < n { let z: Vec<f64> = col(j).into_iter().chain(col(j + 1)).collect(); let k = exp_v(&z); ce[j] = k; ce[j + 1] = k } }
        let vn: M = (0..n).map(|i| (0..n).map(|j| ldexp(v[i][j], -ce[j])).collect()).collect();
        r.push(("Vn", fx(&vn, 0, T::NL)));
        if op == "symeig" { let ev = exp_m(&v).max(0); r.push(("V", fx(&v, ev, T::NL))); r.push(("eV", J::I(ev as i64))) }
        // scaled so that the spectral radius is below one half: for the power sums
        let g = e + 1 + exp_of(n as f64 - 0.5);
        r.push(("Ap", fx(&x, g, T::NL)));
        r.push(("rep", fv(&re, g, T::NL)));
        r.push(("imp", fv(&im, g, T::NL)));
        true
    })
}

// ---------------------------------------------------------------------------------------------
thread_local! { static TURN: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0)); }
/// A dimension: mostly small ones, or (max = 1000 * least + most) between two bounds: the records take them in turn for one of their
/// dimensions; the other is the same or any.
fn dims(g: &mut Rng, lo: usize, max: usize) -> usize {
    if max >= 1000 {
        let (a, b) = (max / 1000, max % 1000);
        let (turn, before) = TURN.with(|t| t.get());
        let n = if before == 0 { a.max(lo) + turn % (b - a.max(lo) + 1) } else if g.chance(3) { before } else { a.max(lo) + g.below(b - a.max(lo) + 1) };
        TURN.with(|t| t.set((turn, n)));
        return n;
    }
    if g.chance(6) { lo + g.below(max - lo + 1) } else { lo + g.below(max.min(5) - lo + 1) }
}
fn most(max: usize, k: usize) -> usize { if max >= 1000 { max } else { max.min(k) } }
fn rhs(m: usize, n: usize, k: i32, g: &mut Rng) -> M {
    let s = 2f64.powi(k);
    if g.chance(6) { return real_mat(m, n, &mut |_, _| 0.0) }
    match g.below(8) {
        // columns of the identity; few elements that are not zero; rows of zeros
        0 => { let p = perm(m, g); return real_mat(m, n, &mut |i, j| if i == p[j % m] { s } else { 0.0 }) }
        1 => return real_mat(m, n, &mut |_, _| if g.chance(m + 1) { g.range(-5, 5) as f64 * s } else { 0.0 }),
        2 => { let z: Vec<bool> = (0..m).map(|_| g.chance(2)).collect(); return real_mat(m, n, &mut |i, _| if z[i] { 0.0 } else { (g.unit() * 2.0 - 1.0) * s }) }
        _ => {}
    }
    if g.chance(3) { real_mat(m, n, &mut |_, _| (g.unit() * 2.0 - 1.0) * s) } else { real_mat(m, n, &mut |_, _| g.range(-5, 5) as f64 * s) }
}
fn product(a: &M, x: &M) -> M { a.iter().map(|r| (0..x[0].len()).map(|j| r.iter().zip(x).map(|(p, q)| p * q[j]).sum()).collect()).collect() }
fn shuffle_rows(a: &Input, p: &[usize]) -> Input { let mut b = a.clone(); b.x = p.iter().map(|i| a.x[*i].clone()).collect(); b.ai = a.ai.as_ref().map(|v| p.iter().map(|i| v[*i].clone()).collect()); b }

/// Symmetric with a positive, dominant diagonal: positive definite.
fn heavy(n: usize, g: &mut Rng) -> Input {
    let mut a = int_mat(n, n, &mut |_, _| 0);
    for i in 0..n { for j in 0..i { let v = g.range(-2, 2); a[i][j] = v; a[j][i] = v } }
    for i in 0..n { a[i][i] = 2 * a[i].iter().map(|x| x.abs()).sum::<i64>() + g.range(1, 5) }
    Input::ints("dominant", a, 0)
}

/// The number of right-hand sides.
fn width(n: usize, max: usize, g: &mut Rng) -> usize { if n <= 6 && max < 1000 && g.chance(8) { 5 + g.below(40) } else if max < 20000 && max > 1000 && g.chance(8) { 5 + g.below(20) } else { 1 + g.below(4) } }
/// Takes the column scaling back where the determinant would leave the range of the element type.
fn sober(mut a: Input, lim: i64) -> Input {
    let t = |a: &Input| (a.k as i64 * a.n as i64 + a.cs.iter().map(|x| *x as i64).sum::<i64>()).abs();
    if t(&a) > lim && !a.cs.is_empty() { a.cs = a.cs.iter().map(|x| x % 4).collect(); if t(&a) > lim { a.cs = vec![] } }
    a
}

/// Takes scalings back where the solution of a badly conditioned system with right-hand sides of size 2^kb could leave the range of the element type.
fn within(mut a: Input, kb: i32, f32s: bool) -> Input {
    let lim = if f32s { 85 } else { 900 };
    let size = |a: &Input| exp_m(&a.x).abs() + kb.abs() + a.cs.iter().map(|x| x.abs()).max().unwrap_or(0) * (1 + a.sym as i32);
    if size(&a) > lim { a.cs = vec![] }
    a
}

fn one<T: Fl>(kind: &str, g: &mut Rng, max: usize) -> Rec {
    let f32s = T::NAME == "f32";
    match kind {
        "lu" => { let (m, n) = (dims(g, 1, max), dims(g, 1, max)); let a = extreme(any(m, n, f32s, g), f32s, g); lu::<T>(&within(far(a, f32s, g), 0, f32s)) }
        "det" => {
            let n = dims(g, 1, if f32s && max < 1000 { 4 } else { most(max, 8) });
            let m = if g.chance(12) { n + 1 } else { n };
            if max >= 1000 {
                let p = perm(n, g);
                let q = perm(n, g);
                let c = *g.pick(&[0, 3, 17]);
                let t = int_mat(n, n, &mut |i, j| if j > i && j - i < 20 { g.range(-1, 1) } else if j == i { if i < c { *g.pick(&[2, -2, 4]) } else { *g.pick(&[1, 1, -1]) } } else { 0 });
                let a = shuffle_rows(&Input::ints("permuted triangular", t, 0), &p);
                let a = if g.chance(2) { a } else { shuffle_rows(&a.t(), &q) };
                return det::<T>(&sober(far(a, f32s, g), if f32s { 110 } else { 900 }))
            }
            let mut a = match g.below(6) {
                0 => { let p = perm(m, g); let z = *g.pick(&[0, 0, 20, 8]); shuffle_rows(&Input::ints("row-permuted triangular", int_mat(m, n, &mut |i, j| if i == j && z > 0 && g.chance(z) { 0 } else if j >= i { *g.pick(&[1, -1, 2, 3, -3]) } else { 0 }), scale(g, f32s)), &p) }
                1 => any(m, n, f32s, g),
                2 => dominant(m, n, f32s, g),
                // permuted triangular matrices: known pivots
                3 => { let p = perm(m, g); let t = int_mat(m, n, &mut |i, j| if j > i { g.range(-2, 2) } else if j == i { *g.pick(&[1, 2, -1, 3]) } else { 0 }); shuffle_rows(&Input::ints("permuted triangular", t, scale(g, f32s)), &p) }
                _ => Input::ints("small integers", int_mat(m, n, &mut |_, _| g.range(-3, 3)), scale(g, f32s)),
            };
            if a.ai.is_some() && (a.k.abs() as usize * n) > (if f32s { 60 } else { 600 }) { let ai = a.ai.clone().unwrap(); a = Input::ints(a.fam, ai, 0) }
            if a.ai.is_none() && a.x.iter().any(|r| r.iter().any(|x| exp_of(*x).abs() > (if f32s { 15 } else { 60 }))) { a = Input::ints("signs", int_mat(m, n, &mut |_, _| g.range(-1, 1)), 0) }
            if m == n { a = sober(far(a, f32s, g), if f32s { 110 } else { 900 }) }
            det::<T>(&a)
        }
        "solve" => {
            let how = g.below(3);
            let n = if how == 2 && max < 1000 && g.chance(2) { 1 + g.below(3) } else { dims(g, 1, max) };
            let tall = how < 2 && g.chance(4);
            let m = if tall { n + 1 + g.below(3) } else if how == 2 && g.chance(10) { n + 1 } else { n };
            let a = if tall { let a = dominant(m, n, f32s, g); let p = perm(m, g); if g.chance(2) { shuffle_rows(&a, &p) } else { a } }
                    else if how == 2 && m != n { any(m, n, f32s, g) }
                    else { match g.below(4) { 0 => { let a = dominant(n, n, f32s, g); let p = perm(n, g); nearly(shuffle_rows(&a, &p), false, f32s, g) } 1 => Input::ints("small integers", int_mat(n, n, &mut |_, _| g.range(-3, 3)), scale(g, f32s)), _ => any(n, n, f32s, g) } };
            let a = if m == n { let a = extreme(a, f32s, g); far(a, f32s, g) } else { graded(a, false, f32s, g) };
            let k = if how < 2 && g.chance(4) { a.k } else { 0 };
            let a = within(a, k, f32s);
            if how == 2 { return solve::<T>("inverse", &a, &real_mat(m, m, &mut |i, j| (i == j) as i64 as f64), 2) }
            let w = width(n, max, g);
            let b = if tall { let x = real_mat(n, w, &mut |_, _| g.range(-4, 4) as f64); product(&a.x, &x) } else { rhs(m, w, k, g) };
            if g.chance(12) { let b = rhs(m + 1 - 2 * (m > 1 && g.chance(2)) as usize, w, 0, g); return solve::<T>("solve", &a, &b, how) }
            solve::<T>(if tall { "solve_tall" } else { "solve" }, &a, &b, how)
        }
        "chol" => {
            let n = dims(g, 1, max);
            let k = 2 * scale(g, f32s) / 2;
            if max >= 1000 { return chol::<T>(&graded(heavy(n, g), true, f32s, g), vec![("t", J::st("none"))]) }
            match g.below(8) {
                0 => chol::<T>(&any(n, n + 1 - 2 * (n > 1 && g.chance(2)) as usize, f32s, g), vec![("t", J::st("none"))]),
                1 | 2 | 3 => { // G*G' + D
                    let gg = int_mat(n, n, &mut |_, _| g.range(-2, 2));
                    let d: Vec<i64> = (0..n).map(|_| g.range(1, 3)).collect();
                    let a = int_mat(n, n, &mut |i, j| (0..n).map(|t| gg[i][t] * gg[j][t]).sum::<i64>() + if i == j { d[i] } else { 0 });
                    let mut inp = Input::ints("gram", a, k);
                    let cert = vec![("t", J::st("gram")), ("g", J::am(&gg)), ("d", J::ai(&d))];
                    if n > 1 && g.chance(3) { // asymmetric at one position, by the smallest possible amount or by sign
                        let i = g.below(n); let j = (i + 1 + g.below(n - 1)) % n;
                        let v = inp.x[i][j];
                        inp.x[i][j] = if v == 0.0 { 2f64.powi(k) } else if g.chance(2) { -v } else { T::of(v).next().f() };
                        inp.ai = None;
                        inp.fam = "asymmetric";
                    }
                    let inp = nearly(extreme(inp, f32s, g), true, f32s, g);
                    chol::<T>(&graded(inp, true, f32s, g), cert)
                }
                4 => { // indefinite with a witness
                    let mut a = int_mat(n, n, &mut |_, _| 0);
                    for i in 0..n { for j in 0..=i { let v = if i == j { g.range(1, 6) } else { g.range(-4, 4) }; a[i][j] = v; a[j][i] = v } }
                    let x: Vec<i64> = (0..n).map(|_| g.range(-2, 2)).collect();
                    chol::<T>(&graded(Input::ints("symmetric", a, k), true, f32s, g), vec![("t", J::st("vec")), ("x", J::ai(&x))])
                }
                _ => {
                    let n = if f32s { n.min(3) } else { n.min(4) };
                    let mut a = int_mat(n, n, &mut |_, _| 0);
                    for i in 0..n { for j in 0..=i { let lo = if g.chance(8) { -1 } else { 1 }; let v = if i == j { g.range(lo, 4) } else { g.range(-2, 2) }; a[i][j] = v; a[j][i] = v } }
                    chol::<T>(&graded(Input::ints("symmetric", a, k), true, f32s, g), vec![("t", J::st("none"))])
                }
            }
        }
        "cholsolve" => {
            let n = dims(g, 1, max);
            if max >= 1000 {
                let a = graded(heavy(n, g), true, f32s, g);
                let mut r = solve::<T>("cholsolve", &a, &rhs(n, 1 + g.below(4), 0, g), 3);
                r.push(("cert", J::obj(vec![("t", J::st("none"))])));
                return r
            }
            let gg = int_mat(n, n, &mut |_, _| g.range(-2, 2));
            let d: Vec<i64> = (0..n).map(|_| g.range(1, 3)).collect();
            let a = Input::ints("gram", int_mat(n, n, &mut |i, j| (0..n).map(|t| gg[i][t] * gg[j][t]).sum::<i64>() + if i == j { d[i] } else { 0 }), scale(g, f32s));
            let a = nearly(extreme(a, f32s, g), true, f32s, g);
            let a = graded(a, true, f32s, g);
            let w = width(n, max, g);
            let rows = if g.chance(12) { n + 1 - 2 * (n > 1 && g.chance(2)) as usize } else { n };
            let k = if g.chance(4) { a.k } else { 0 };
            let a = within(a, k, f32s);
            let mut r = solve::<T>("cholsolve", &a, &rhs(rows, w, k, g), 3);
            r.push(("cert", J::obj(vec![("t", J::st("gram")), ("g", J::am(&gg)), ("d", J::ai(&d))])));
            r
        }
        "qr" => { let (m, n) = (dims(g, 1, max), dims(g, 1, max)); let a = extreme(any(m, n, f32s, g), f32s, g); qr::<T>(&within(graded(a, false, f32s, g), 0, f32s)) }
        "qrsolve" => {
            let n = dims(g, 1, max);
            let (m, kind) = match g.below(8) { 0 => (if n > 1 { 1 + g.below(n - 1) } else { 1 }, "wide"), 1 => (n + g.below(3), "zero column"), 2 | 3 => (n, "square"), _ => (n + 1 + g.below(4), "tall") };
            let mut a = if m >= n { let a = dominant(m, n, f32s, g); let p = perm(m, g); shuffle_rows(&a, &p) } else { any(m, n, f32s, g) };
            if kind != "wide" && m >= n && g.chance(3) { a = Input::reals("uniform tall", real_mat(m + n, n, &mut |i, j| (if i == j { 2.0 } else { 0.0 }) + g.unit())) }
            if kind == "zero column" {
                let j = g.below(n);
                for r in a.x.iter_mut() { r[j] = 0.0 }
                if let Some(ref mut v) = a.ai { for r in v.iter_mut() { r[j] = 0 } }
            }
            let w = width(n, max, g);
            a = extreme(a, f32s, g);
            if kind != "zero column" { a = nearly(a, false, f32s, g) }
            a = graded(a, false, f32s, g);
            let rows = if g.chance(12) { a.m + 1 - 2 * (a.m > 1 && g.chance(2)) as usize } else { a.m };
            let k = if g.chance(4) { a.k } else { 0 };
            let a = within(a, k, f32s);
            solve::<T>("qrsolve", &a, &rhs(rows, w, k, g), 4)
        }
        "pinv" | "direct" => {
            let n = dims(g, 1, most(max, 8));
            let m = n + g.below(3);
            let mut a = dominant(m, n, f32s, g);
            if a.k.abs() > (if f32s { 9 } else { 60 }) { a = Input::ints(a.fam, a.ai.clone().unwrap(), 0) }
            if g.chance(2) { a = a.t() }
            a = nearly(extreme(a, f32s, g), false, f32s, g);
            if kind == "pinv" { pinv::<T>(&a) } else { svd::<T>("direct", &a) }
        }
        "svd" | "rank" => {
            let (m, n) = (dims(g, 1, max), dims(g, 1, max));
            let a = if kind == "rank" && g.chance(2) {
                // a well-conditioned core and exactly zero rows and columns, shuffled
                let k = g.below(m.min(n) + 1);
                let c = if k > 0 { let h = k + g.below(m - k + 1); let c = dominant(h, k, f32s, g); c.ai } else { None };
                let (p, q) = (perm(m, g), perm(n, g));
                let f = |i: usize, j: usize| match c { Some(ref c) if i < c.len() && j < c[0].len() => c[i][j], _ => 0 };
                let mut a = Input::ints("core", int_mat(m, n, &mut |i, j| f(p[i], q[j])), scale(g, f32s));
                if f32s && a.k.abs() > 20 { a.k = 0 }
                a
            } else { any(m, n, f32s, g) };
            let a = extreme(a, f32s, g);
            let mut r = svd::<T>("svd", &a);
            r.push(("core", J::B(a.fam == "core" || a.fam == "dominant")));
            r
        }
        "symeig" => { let n = dims(g, 1, max); let a = symmetric(n, f32s, g); eig::<T>("symeig", &extreme(a, f32s, g)) }
        "eig" => { let n = dims(g, 1, max); if g.chance(25) { return eig::<T>("eig", &any(n, if n > 1 && g.chance(2) { n - 1 } else { n + 1 }, f32s, g)) } let a = spectral(n, f32s, g); eig::<T>("eig", &extreme(a, f32s, g)) }
        _ => panic!("unknown kind {}", kind),
    }
}

pub fn record(kind: &str, seed: u64, count: usize, max: usize, path: &str, w: &Watch) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("trace file"));
    let stream = kind.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    for i in 0..count {
        w.at(i as u64, &format!("{} seed {} case {} max {}", kind, seed, i, max));
        let mut g = Rng::new(seed ^ stream.wrapping_mul(0x1234567), i as u64);
        fill(if g.chance(2) { 0xFF } else { 0x3F });
        // few records are spread over the sizes
        let step = if max >= 1000 { ((max % 1000 - max / 1000 + 1) / count.max(1)).max(1) } else { 1 };
        TURN.with(|t| t.set((i * step + seed as usize, 0)));
        let f32s = g.chance(4);
        let r = if f32s { one::<f32>(kind, &mut g, max) } else { one::<f64>(kind, &mut g, max) };
        fill(0xFF);
        writeln!(f, "{}", J::obj(r).text()).unwrap();
    }
}

/// One call on a member of a finite set of matrices.
fn each<T: Fl>(kind: &str, a: &Input, g: &mut Rng) -> Option<Rec> {
    let id = |m: usize| real_mat(m, m, &mut |i, j| (i == j) as i64 as f64);
    let f32s = T::NAME == "f32";
    let tw = match kind { "lu" | "det" | "solve" => far(a.clone(), f32s, g), "qr" | "qrsolve" => graded(a.clone(), false, f32s, g), "cholsolve" => graded(a.clone(), true, f32s, g), _ => a.clone() };
    let a = &tw;
    Some(match kind {
        "lu" => lu::<T>(a),
        "det" => det::<T>(a),
        "solve" => { let how = g.below(3); if how == 2 { solve::<T>("inverse", a, &id(a.m), 2) } else { solve::<T>("solve", a, &rhs(a.m, 1 + g.below(3), 0, g), how) } }
        "chol" => { if g.chance(3) && a.n > 1 { let mut b = a.clone(); b.ai.as_mut().unwrap()[0][1] += 1; let b = Input::ints("every, one more", b.ai.unwrap(), 0); chol::<T>(&b, vec![("t", J::st("none"))]) } else { chol::<T>(&graded(a.clone(), true, f32s, g), vec![("t", J::st("none"))]) } }
        "cholsolve" => {
            if !(1..=a.n).all(|k| minor(a.ai.as_ref().unwrap(), k) > 0) { return None }
            let mut r = solve::<T>("cholsolve", a, &rhs(a.n, 1 + g.below(3), 0, g), 3);
            r.push(("cert", J::obj(vec![("t", J::st("none"))])));
            r
        }
        "qr" => qr::<T>(a),
        "qrsolve" => solve::<T>("qrsolve", a, &rhs(a.m, 1 + g.below(2), 0, g), 4),
        "pinv" => pinv::<T>(a),
        "direct" => svd::<T>("direct", a),
        "svd" | "rank" => svd::<T>("svd", a),
        "symeig" => eig::<T>("symeig", a),
        _ => eig::<T>("eig", a),
    })
}
fn minor(a: &Vec<Vec<i64>>, k: usize) -> i64 {
    if k == 0 { return 1 }
    fn det(a: &Vec<Vec<i64>>) -> i64 {
        if a.is_empty() { return 1 }
        (0..a.len()).map(|j| (if j % 2 == 0 { 1 } else { -1 }) * a[0][j] * det(&a[1..].iter().map(|r| r.iter().enumerate().filter(|(c, _)| *c != j).map(|(_, x)| *x).collect()).collect())).sum()
    }
    det(&a[..k].iter().map(|r| r[..k].to_vec()).collect())
}
/// Every `stride`-th member of the sets for this kind, from `seed` on.
pub fn record_every(kind: &str, seed: u64, stride: usize, path: &str, w: &Watch) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("trace file"));
    let mut i = seed as usize % stride;
    let mut before = 0;
    for u in every(kind) {
        while i - before < u.size() {
            w.at(i as u64, &format!("{} every {} of {}", kind, i, stride));
            let mut g = Rng::new(seed ^ 0x777, i as u64);
            let a = u.get(i - before);
            fill(if g.chance(2) { 0xFF } else { 0x3F });
            let r = if g.chance(4) { each::<f32>(kind, &a, &mut g) } else { each::<f64>(kind, &a, &mut g) };
            fill(0xFF);
            if let Some(r) = r { writeln!(f, "{}", J::obj(r).text()).unwrap() }
            i += stride;
        }
        before += u.size();
    }
}
