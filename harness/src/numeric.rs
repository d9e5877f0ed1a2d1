// Records norms, traces, products and elementwise operations on matrices of arbitrary floating-point numbers.
use crate::alloc::fill;
use crate::decomp::*;
use crate::fam::*;
use crate::json::J;
use crate::rng::Rng;
use crate::watch::Watch;
use la::Matrix;
use num::traits::Num;
use std::ops::Neg;
use std::cell::RefCell;
use std::io::Write;

fn status<R>(x: &Res<R>) -> J { J::st(match x { Res::Ok(_) => "ok", Res::None => "none", Res::Rej => "rej" }) }

fn any_real(m: usize, n: usize, f32s: bool, g: &mut Rng) -> M {
    let k = if g.chance(3) { *g.pick(if f32s { &[-14, -5, 6, 14][..] } else { &[-90, -30, -5, 6, 40, 90][..] }) } else { 0 };
    let s = 2f64.powi(k);
    match g.below(5) {
        0 => real_mat(m, n, &mut |_, _| g.range(-9, 9) as f64 * s),
        1 => { let w = if f32s { 6 } else { 20 }; real_mat(m, n, &mut |_, _| (g.unit() * 2.0 - 1.0) * 2f64.powi(g.range(-w, 0) as i32) * s) }
        2 => real_mat(m, n, &mut |_, _| if g.chance(3) { 0.0 } else { (g.unit() * 2.0 - 1.0) * s }),
        _ => real_mat(m, n, &mut |_, _| (g.unit() * 2.0 - 1.0) * s),
    }
}
fn size(g: &mut Rng) -> usize { if g.chance(8) { 10 + g.below(60) } else { 1 + g.below(6) } }

fn norm<T: Fl>(g: &mut Rng) -> Vec<(&'static str, J)> {
    let kind = *g.pick(&["one", "two", "euclid", "length", "p", "p", "p", "inf", "inf", "frob", "trace"]);
    let vector = !["frob", "trace"].contains(&kind);
    let (mut m, n) = (size(g), if vector { if g.chance(8) { 2 + g.below(3) } else { 1 } } else { 1 + g.below(6) });
    let mut x = any_real(m, n, T::NAME == "f32", g);
    let p2: i64 = *g.pick(&[2, 4, 6, 8, 1, 3, 5]);
    let mut y: Vec<f64> = vec![];
    if kind == "p" && p2 % 2 == 1 {
        // the elements are exact squares with a sign
        let s = 2f64.powi(*g.pick(&[0, 0, -5, 5]));
        y = (0..m).map(|_| g.range(-1000, 1000) as f64 / 16.0 * s).collect();
        x = real_mat(m, n, &mut |i, _| y[i] * y[i] * if g.chance(2) { -1.0 } else { 1.0 });
    }
    let (mut num, mut den): (i64, i64) = if p2 % 2 == 0 { (p2 / 2, 1) } else { (p2, 2) };
    let great = kind == "p" && g.chance(3);
    if great {
        // p = num/den up to 120: the elements are den-th powers and the greatest magnitude is a little less than one
        den = *g.pick(&[1, 1, 2, 4]);
        num = if g.chance(3) { *g.pick(&[2, 3, 5, 7, 9, 12]) } else { 10 + g.below(111) as i64 };
        m = m.min(if den == 4 { 3 } else { 6 });
        let w = if T::NAME == "f32" && den == 4 { 64 } else { 1024 };
        y = (0..m).map(|_| if g.chance(3) { g.range(w - w / 64, w - 1) } else { g.range(1 - w, w - 1) } as f64 / w as f64).collect();
        let j = g.below(m);
        y[j] = g.range(w - w / 64, w - 1) as f64 / w as f64;
        x = real_mat(m, n, &mut |i, _| y[i].abs().powi(den as i32) * if g.chance(2) { -1.0 } else { 1.0 });
    }
    if kind == "inf" && g.chance(2) { for r in x.iter_mut() { for v in r.iter_mut() { *v = -v.abs() } } }
    let x = get::<T>(&put(&x));
    // the norm of a multiple of the vector, divided by the factor (a power of two): squares and powers leave the range
    let far: i32 = if g.chance(3) { *g.pick(if T::NAME == "f32" { &[-95, -80, -60, -40, 40, 60, 80, 95][..] } else { &[-850, -700, -530, -400, -200, 200, 400, 530, 700, 850][..] }) } else { 0 };
    // (rounding 1/p shows in the result as much as the logarithm of the sum is large, unless powers cannot be summed as they are)
    let fits = (far.abs() as i64) * num < den * (if T::NAME == "f32" { 150 } else { 1100 });
    let far = if kind == "p" && fits && num & (num - 1) != 0 { 0 } else { far };
    let mat: Matrix<T> = put(&real_mat(m, n, &mut |i, j| ldexp(x[i][j], far)));
    let v = some(|| ldexp(match kind {
        "one" => mat.vector_1_norm(), "two" => mat.vector_2_norm(), "euclid" => mat.vector_euclidean_norm(), "length" => mat.length(),
        "p" => mat.vector_p_norm(T::of(num as f64 / den as f64)), "inf" => mat.vector_inf_norm(), "frob" => mat.frobenius_norm(), _ => mat.trace(),
    }.f(), -far));
    let mut r = vec![("op", J::st("norm")), ("ty", J::st(T::NAME)), ("nl", J::I(T::NL as i64)), ("m", J::I(m as i64)), ("n", J::I(n as i64)), ("kind", J::st(kind)), ("num", J::I(num)), ("den", J::I(den)),
        ("far", J::I(far as i64)), ("src", J::st(&format!("{:?}", x)))];
    let s = status(&v);
    if let Res::Ok(v) = v {
        if !v.is_finite() { r.push(("st", J::st("malformed"))); return r }
        let mut e = exp_m(&x).max(exp_of(v));
        if great { e = 0; r.push(("Y", fv(&y, 0, T::NL))) }
        else if !y.is_empty() {
            let ey = exp_v(&y).max((exp_of(v) + 1).div_euclid(2)).max((e + 1).div_euclid(2));
            e = 2 * ey;
            r.push(("Y", fv(&y, ey, T::NL)));
        }
        let mut nm = Names::default();
        r.push(("Xt", nm.v(&x.iter().flat_map(|r| r.iter().map(|x| x.abs())).collect::<Vec<f64>>())));
        r.push(("vt", J::I(nm.of(v))));
        r.push(("X", fx(&x, e, T::NL)));
        r.push(("v", digits(v, e, T::NL)));
    }
    r.push(("st", s));
    r
}

fn product<T: Fl>(g: &mut Rng) -> Vec<(&'static str, J)> {
    let f = *g.pick(&["rr", "rv", "vr", "vv", "mmul"]);
    let (m, k, n) = (size(g).min(30), size(g).min(40), size(g).min(30));
    let k2 = if g.chance(12) { k + 1 } else { k };
    let f32s = T::NAME == "f32";
    let (a, b): (Matrix<T>, Matrix<T>) = (put(&any_real(m, k, f32s, g)), put(&any_real(k2, n, f32s, g)));
    let v = some(|| match f {
        "rr" => &a * &b, "rv" => &a * b.clone(), "vr" => a.clone() * &b, "vv" => a.clone() * b.clone(),
        _ => { let mut c = a.clone(); c.mmul(&b); c }
    });
    let (ea, eb) = (exp_m(&get(&a)), exp_m(&get(&b)));
    let mut r = vec![("op", J::st("product")), ("f", J::st(f)), ("ty", J::st(T::NAME)), ("nl", J::I(T::NL as i64)), ("m", J::I(m as i64)), ("n", J::I(k as i64)),
        ("m2", J::I(k2 as i64)), ("n2", J::I(n as i64)), ("A", fx(&get(&a), ea, T::NL)), ("B", fx(&get(&b), eb, T::NL))];
    let s = status(&v);
    if let Res::Ok(x) = v {
        let x = get(&x);
        if !finite(&x) { r.push(("st", J::st("malformed"))); return r }
        r.push(("X", fx(&x, ea + eb, T::NL)));
    }
    r.push(("st", s));
    r
}

/// Names for bit patterns (all NaNs alike); 0 is reserved for "no operand".
#[derive(Default)]
struct Bits(Vec<u64>);
impl Bits {
    fn of(&mut self, x: f64) -> i64 {
        let b = if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() };
        match self.0.iter().position(|y| *y == b) { Some(k) => k as i64 + 1, None => { self.0.push(b); self.0.len() as i64 } }
    }
    fn m(&mut self, m: &M) -> J { J::A(m.iter().map(|r| J::A(r.iter().map(|x| J::I(self.of(*x))).collect())).collect()) }
}
fn weird<T: Fl>(m: usize, n: usize, g: &mut Rng) -> M {
    let big = if T::NAME == "f32" { 3e38 } else { 1.7e308 };
    let tiny = if T::NAME == "f32" { 1e-45f32 as f64 } else { 5e-324 };
    let odd = g.chance(3);
    real_mat(m, n, &mut |_, _| if odd && g.chance(3) { *g.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, big, -big, tiny, -tiny, 1e-300, 1.0]) }
        else { (g.unit() * 20.0 - 10.0) * if g.chance(4) { 1e-7 } else { 1.0 } })
}
fn ew<T: Fl>(g: &mut Rng) -> Vec<(&'static str, J)> {
    let f = *g.pick(&["add_rr", "add_rv", "add_vr", "add_vv", "sub_rr", "sub_rv", "sub_vr", "sub_vv", "elem_mul", "elem_div", "madd", "msub", "melem_mul", "melem_div",
        "neg_r", "neg_v", "mneg", "scale", "mscale", "scale", "mscale", "map", "mmap", "reduce", "elem_div", "melem_div"]);
    let (m, n) = if g.chance(10) { (1 + g.below(12), 1 + g.below(12)) } else { (1 + g.below(4), 1 + g.below(4)) };
    let (a, b): (Matrix<T>, Matrix<T>) = (put(&weird::<T>(m, n, g)), put(&weird::<T>(m, n, g)));
    let (da, db) = (a.get_data().clone(), b.get_data().clone());
    let factor = *g.pick(&[T::of(0.1), T::of(-3.7), T::of(1.0) / T::of(3.0), T::of(0.0), T::of(-0.0), T::of(1e-3)]);
    let c1 = T::of(0.3);
    let init: Vec<T> = (0..n).map(|_| T::of(g.unit() - 0.5)).collect();
    let table: RefCell<Vec<(f64, f64, f64)>> = RefCell::new(vec![]);
    let binary = f.contains("add") || f.contains("sub") || f.contains("elem_");
    let inplace = f.starts_with('m') && f != "map";
    if binary {
        for (x, y) in da.iter().zip(db.iter()) {
            let z = if f.contains("add") { *x + *y } else if f.contains("sub") { *x - *y } else if f.contains("mul") { *x * *y } else { *x / *y };
            table.borrow_mut().push((x.f(), y.f(), z.f()));
        }
    } else if f.contains("neg") || f.contains("scale") {
        for x in da.iter() { let z = if f.contains("neg") { -*x } else { factor * *x }; table.borrow_mut().push((x.f(), f64::MAX, z.f())) }
    }
    let map = |x: &T| { let z = *x * *x + c1; table.borrow_mut().push((x.f(), f64::MAX, z.f())); z };
    let fold = |acc: &T, x: &T| { let z = *acc * c1 - *x; table.borrow_mut().push((acc.f(), x.f(), z.f())); z };
    let (mut a2, b2) = (a.clone(), b.clone());
    let v = some(|| match f {
        "add_rr" => &a2 + &b2, "add_rv" => &a2 + b2.clone(), "add_vr" => a2.clone() + &b2, "add_vv" => a2.clone() + b2.clone(),
        "sub_rr" => &a2 - &b2, "sub_rv" => &a2 - b2.clone(), "sub_vr" => a2.clone() - &b2, "sub_vv" => a2.clone() - b2.clone(),
        "elem_mul" => a2.elem_mul(&b2), "elem_div" => a2.elem_div(&b2),
        "madd" => { a2.madd(&b2); a2.clone() } "msub" => { a2.msub(&b2); a2.clone() }
        "melem_mul" => { a2.melem_mul(&b2); a2.clone() } "melem_div" => { a2.melem_div(&b2); a2.clone() }
        "neg_r" => -&a2, "neg_v" => -a2.clone(), "mneg" => { a2.mneg(); a2.clone() }
        "scale" => a2.scale(factor), "mscale" => { a2.mscale(factor); a2.clone() }
        "map" => a2.map(&map), "mmap" => { a2.mmap(&map); a2.clone() }
        _ => a2.reduce(&init, &fold),
    });
    let mut nm = Bits::default();
    let mut seen: Vec<(i64, i64, i64)> = vec![];
    for (x, y, z) in table.borrow().iter() {
        let t = (nm.of(*x), if *y == f64::MAX { 0 } else { nm.of(*y) }, nm.of(*z));
        if !seen.contains(&t) { seen.push(t) }
    }
    let mut r = vec![("op", J::st("ew")), ("f", J::st(f)), ("ty", J::st(T::NAME)), ("m", J::I(m as i64)), ("n", J::I(n as i64)), ("binary", J::B(binary)), ("inplace", J::B(inplace)),
        ("A", nm.m(&get(&a))), ("B", nm.m(&get(&b))), ("after", nm.m(&get(&a2))), ("Bafter", nm.m(&get(&b2))),
        ("init", J::A(init.iter().map(|x| J::I(nm.of(x.f()))).collect())),
        ("T", J::A(seen.iter().map(|t| J::ai(&[t.0, t.1, t.2])).collect()))];
    r.push(("st", status(&v)));
    if let Res::Ok(x) = v { r.push(("X", nm.m(&get(&x)))) }
    r
}

/// Elementwise operations on integers (division truncates towards zero), reported as integers.
trait Whole: Num + Copy + 'static { const NAME: &'static str; const MAX: i64; const SIGNED: bool; fn of(x: i64) -> Self; fn to(self) -> i64; fn signed(f: &str, x: &mut Matrix<Self>, y: &Matrix<Self>, c: Self) -> Matrix<Self>; }
macro_rules! whole { ($($t:ident $max:expr, $s:expr, $f:expr;)*) => { $(impl Whole for $t { const NAME: &'static str = stringify!($t); const MAX: i64 = $max; const SIGNED: bool = $s; fn of(x: i64) -> $t { x as $t } fn to(self) -> i64 { self as i64 }
    fn signed(f: &str, x: &mut Matrix<$t>, y: &Matrix<$t>, c: $t) -> Matrix<$t> { ($f)(f, x, y, c) } })* } }
/// The operations that need negation.
fn ring<T: Num + Neg<Output = T> + Copy>(f: &str, x: &mut Matrix<T>, y: &Matrix<T>, c: T) -> Matrix<T> {
    match f {
        "elem_mul" => x.elem_mul(y), "elem_mul_in" => { x.melem_mul(y); x.clone() }
        "elem_div" => x.elem_div(y), "elem_div_in" => { x.melem_div(y); x.clone() }
        "scale" => x.scale(c), _ => { x.mscale(c); x.clone() }
    }
}
fn no_ring<T: Num + Copy>(_: &str, _: &mut Matrix<T>, _: &Matrix<T>, _: T) -> Matrix<T> { unreachable!() }
whole! { i8 11, true, ring; i16 180, true, ring; i32 30000, true, ring; i64 30000, true, ring; isize 30000, true, ring;
    u8 15, false, no_ring; u16 255, false, no_ring; u32 30000, false, no_ring; u64 30000, false, no_ring; usize 30000, false, no_ring; }

fn wholes<T: Whole>(g: &mut Rng) -> Vec<(&'static str, J)> {
    let f = *g.pick(if !T::SIGNED { &["add", "sub", "reduce", "product"][..] } else { &["add", "sub", "elem_mul", "elem_mul_in", "elem_div", "elem_div", "elem_div", "elem_div_in", "elem_div_in", "scale", "scale_in", "reduce", "product"][..] });
    let (m, n) = if g.chance(10) { (1 + g.below(12), 1 + g.below(12)) } else { (1 + g.below(5), 1 + g.below(5)) };
    let most = if f == "product" { ((T::MAX * T::MAX / n as i64) as f64).sqrt() as i64 } else { *g.pick(&[3, 7, T::MAX, T::MAX]) }.max(1).min(T::MAX);
    let any = |g: &mut Rng| if T::SIGNED { g.range(-most, most) } else { g.range(0, most) };
    let w = if f == "product" { 1 + g.below(5) } else { n };
    let b: Vec<Vec<i64>> = (0..if f == "product" { n } else { m }).map(|_| (0..w).map(|_| { let x = any(g); if f.contains("div") && x == 0 { 1 + g.range(0, 2) } else { x } }).collect()).collect();
    let a: Vec<Vec<i64>> = (0..m).map(|i| (0..n).map(|j| if f == "sub" && !T::SIGNED { b[i][j] + g.range(0, T::MAX) } else { any(g) }).collect()).collect();
    let factor = any(g);
    let init: Vec<i64> = (0..n).map(|_| g.range(0, 2)).collect();
    let make = |v: &Vec<Vec<i64>>| Matrix::new(v.len(), v[0].len(), v.iter().flat_map(|r| r.iter().map(|x| T::of(*x))).collect());
    let look = |v: &Matrix<T>| { let d = v.get_data(); let c = d.len() / v.rows(); J::A((0..v.rows()).map(|i| J::ai(&(0..c).map(|j| d[i * c + j].to()).collect::<Vec<i64>>())).collect()) };
    let (mut x, y) = (make(&a), make(&b));
    let v = some(|| match f {
        "add" => &x + &y, "sub" => &x - &y,
        "product" => &x * &y,
        "reduce" => x.reduce(&init.iter().map(|x| T::of(*x)).collect(), &|acc: &T, e: &T| *acc / T::of(2) + *e / T::of(3)),
        _ => T::signed(f, &mut x, &y, T::of(factor)),
    });
    let mut r = vec![("op", J::st("wholes")), ("f", J::st(f)), ("ty", J::st(T::NAME)), ("m", J::I(m as i64)), ("n", J::I(n as i64)), ("A", J::A(a.iter().map(|r| J::ai(r)).collect())),
        ("B", J::A(b.iter().map(|r| J::ai(r)).collect())), ("c", J::I(factor)), ("init", J::ai(&init)), ("after", look(&x)), ("Bafter", look(&y)), ("st", status(&v))];
    if let Res::Ok(z) = v { r.push(("X", look(&z))) }
    r
}

/// Two numbers whose distance is exactly known relative to the tolerance, and what the predicates say of them.
trait Near: Fl { fn up(self, k: i64) -> Self; const STEPS: i64; fn ulp() -> Self; }
impl Near for f64 { fn up(self, k: i64) -> f64 { f64::from_bits((self.to_bits() as i64 + k) as u64) } const STEPS: i64 = 4503599627; fn ulp() -> f64 { 2f64.powi(-52) } }
impl Near for f32 { fn up(self, k: i64) -> f32 { f32::from_bits((self.to_bits() as i64 + k) as u32) } const STEPS: i64 = 8; fn ulp() -> f32 { 2f32.powi(-23) } }
fn edge<T: Near>(g: &mut Rng) -> Vec<(&'static str, J)> {
    let what = *g.pick(&["scalar", "scalar eps", "matrix", "matrix", "symmetric", "symmetric", "non-symmetric"]);
    let base = if what == "scalar eps" { "zero" } else { *g.pick(&["zero", "one"]) };
    let k = if g.chance(2) { g.range(-2, 2) } else { g.range(-8, 40) };
    let eps = if what == "scalar eps" { *g.pick(&[T::of(1e-6), T::of(0.5), T::of(3.0), T::of(1e-30), T::of(1e20)]) } else { T::of(1e-6) };
    // the distance of x and y is k steps from the tolerance (zero), or from the greatest multiple of the step below it (one)
    let (mut x, mut y) = if base == "zero" { (eps.up(k), T::of(0.0)) } else {
        let y = T::of(1.0) + T::ulp() * T::of(g.below(1000) as f64);
        (y + T::ulp() * T::of((T::STEPS + k) as f64), y)
    };
    if g.chance(2) { x = -x; y = -y }
    if g.chance(2) { std::mem::swap(&mut x, &mut y) }
    let (m, n) = (1 + g.below(6), 1 + g.below(6));
    let (i, j) = (g.below(m), g.below(n));
    let v = some(|| match what {
        "scalar" => x.approx_eq(&y), "scalar eps" => x.approx_eq_eps(&y, &eps),
        "matrix" => {
            let mut a: M = real_mat(m, n, &mut |r, c| (r * 7 + c) as f64 - 3.0);
            let mut b = a.clone();
            a[i][j] = x.f(); b[i][j] = y.f();
            let (a, b): (Matrix<T>, Matrix<T>) = (put(&a), put(&b));
            a.approx_eq(&b)
        }
        _ => {
            let n = n + 1;
            let (i, j) = (g.below(n), g.below(n - 1));
            let j = if j >= i { j + 1 } else { j };
            let mut a: M = real_mat(n, n, &mut |r, c| (r * c) as f64 - 3.0);
            a[i][j] = x.f(); a[j][i] = y.f();
            let a: Matrix<T> = put(&a);
            if what == "symmetric" { a.is_symmetric() } else { !a.is_non_symmetric() }
        }
    });
    let mut r = vec![("op", J::st("edge")), ("ty", J::st(T::NAME)), ("what", J::st(what)), ("base", J::st(base)), ("k", J::I(k)), ("x", J::st(&format!("{:?}", x))), ("y", J::st(&format!("{:?}", y))), ("st", status(&v))];
    if let Res::Ok(v) = v { r.push(("v", J::B(v))) }
    r
}

pub fn record(kind: &str, seed: u64, count: usize, path: &str, w: &Watch) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("trace file"));
    for i in 0..count {
        w.at(i as u64, &format!("{} seed {} case {}", kind, seed, i));
        let mut g = Rng::new(seed ^ 0x77, i as u64);
        fill(if g.chance(2) { 0xFF } else { 0x3F });
        let f32s = g.chance(4);
        let r = match (kind, f32s) {
            ("edge", false) => edge::<f64>(&mut g), ("edge", true) => edge::<f32>(&mut g),
            ("wholes", _) => match g.below(10) {
                0 => wholes::<i8>(&mut g), 1 => wholes::<i16>(&mut g), 2 | 3 => wholes::<i32>(&mut g), 4 => wholes::<i64>(&mut g), 5 => wholes::<isize>(&mut g),
                6 => wholes::<u8>(&mut g), 7 => wholes::<u16>(&mut g), 8 => wholes::<u32>(&mut g), _ => if g.chance(2) { wholes::<u64>(&mut g) } else { wholes::<usize>(&mut g) }
            },
            ("norm", false) => norm::<f64>(&mut g), ("norm", true) => norm::<f32>(&mut g),
            ("product", false) => product::<f64>(&mut g), ("product", true) => product::<f32>(&mut g),
            (_, false) => ew::<f64>(&mut g), (_, true) => ew::<f32>(&mut g),
        };
        fill(0xFF);
        writeln!(f, "{}", J::obj(r).text()).unwrap();
    }
}
