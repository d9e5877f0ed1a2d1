// Records histories in which the same calls are repeated under other contents of fresh memory, after other
// calls, from other threads and in another process: each event names the call and a digest of its result.
use crate::alloc::fill;
use crate::decomp::{put, Fl};
use crate::fam;
use crate::json::J;
use crate::rng::Rng;
use crate::watch::Watch;
use la::util::read_csv;
use la::{CholeskyDecomposition, EigenDecomposition, LUDecomposition, Matrix, QRDecomposition, SVD};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const OPS: &[&str] = &["new", "vector", "row_vector", "id", "zero", "diag", "block_diag", "zero_vector", "one_vector", "clone", "t", "mt", "minor", "sub_matrix",
    "get_column", "cr", "cb", "bitor", "permute_rows", "permute_columns", "select_rows", "select_columns", "filter_rows", "filter_columns",
    "neg", "mneg", "scale", "mscale", "map", "mmap", "reduce", "add", "madd", "sub", "msub", "mul", "mmul", "elem_mul", "melem_mul", "elem_div", "melem_div",
    "norms", "trace", "compare", "debug", "csv",
    "det", "solve", "inverse", "pinverse", "lu", "lusolve", "chol", "cholsolve", "qr", "qrsolve", "svd", "rank", "direct", "eig", "symeig"];

struct H(u64);
impl H {
    fn u(&mut self, x: u64) { for k in 0..8 { self.0 = (self.0 ^ ((x >> (8 * k)) & 255)).wrapping_mul(0x100000001b3) } }
    fn m<T: Fl>(&mut self, m: &Matrix<T>) { self.u(m.rows() as u64); self.u(m.get_data().len() as u64); for x in m.get_data() { self.u(if x.f().is_nan() { 1 } else { x.f().to_bits() }) } }
    fn b(&mut self, b: bool) { self.u(b as u64 + 7) }
    fn f<T: Fl>(&mut self, x: T) { self.u(if x.f().is_nan() { 1 } else { x.f().to_bits() }) }
    fn o<T: Fl>(&mut self, x: Option<Matrix<T>>) { match x { Some(m) => self.m(&m), None => self.u(99) } }
}

#[derive(Clone)]
pub struct Call { op: usize, m: usize, n: usize, arg: u64, var: usize, f32s: bool }
const VARIANTS: &[&str] = &["", " rows reversed", " negated", " one element negated", " rotated", " rows and columns reversed", " doubled", " last element changed", " a sign of zero"];

/// How the arguments come about: 0 newly made, 1 used by other operations before, 2 made with other elements, used, and then
/// written element by element, 3 moved through other shapes and back.
fn used<T: Fl>(m: &Matrix<T>) {
    let quiet = |f: &mut dyn FnMut()| { let _ = catch_unwind(AssertUnwindSafe(f)); };
    quiet(&mut || { m.t(); m.is_symmetric(); m.trace(); m.frobenius_norm(); let _ = m == m; format!("{:?}", m); });
    if m.rows() == m.cols() { quiet(&mut || { m.det(); m.is_singular(); m.inverse(); m.solve(&Matrix::one_vector(m.rows())); EigenDecomposition::new(m); CholeskyDecomposition::new(m); }) }
    quiet(&mut || { LUDecomposition::new(m); QRDecomposition::new(m); SVD::new(m).rank(); });
}
fn made<T: Fl>(x: &crate::decomp::M, mode: usize) -> Matrix<T> {
    let (r, k) = (x.len(), x[0].len());
    match mode {
        1 => { let m = put(x); used(&m); m }
        2 => {
            let mut m: Matrix<T> = put(&fam::real_mat(r, k, &mut |i, j| if i == j { 3.0 } else { ((i + 2 * j) % 3) as f64 }));
            used(&m);
            for i in 0..r { for j in 0..k { match (i + j) % 2 { 1 => *m.get_mref(i, j) = T::of(x[i][j]), _ => m.set(i, j, T::of(x[i][j])) } } }
            m
        }
        3 => {
            let mut m: Matrix<T> = put(x);
            m.mt(); used(&m); m.mt();
            let mut z = m.cb(&m); z.mneg(); used(&z); z.mneg();
            z.sub_matrix(r, 0, 2 * r, k)
        }
        _ => put(x),
    }
}

fn run<T: Fl>(c: &Call, dir: &str, mode: usize) -> H {
    let mut g = Rng::new(c.arg, 5);
    let (m, n) = (c.m, c.n);
    let ints = g.chance(2);
    let mut mk = |r: usize, k: usize| -> Matrix<T> {
        let x = fam::real_mat(r, k, &mut |_, _| if ints { g.range(-3, 3) as f64 } else { g.unit() * 2.0 - 1.0 });
        let at = |i: usize, j: usize| x[i][j];
        // arguments alike in all but one respect
        made(&fam::real_mat(r, k, &mut |i, j| match c.var {
            1 => at(r - 1 - i, j), 2 => -at(i, j), 3 => if i == r / 2 && j == k / 2 { -at(i, j) } else { at(i, j) },
            4 => { let z = (i * k + j + 1) % (r * k); at(z / k, z % k) } 5 => at(r - 1 - i, k - 1 - j), 6 => 2.0 * at(i, j),
            7 => if i == r - 1 && j == k - 1 { at(i, j) + 0.5 } else { at(i, j) }, 8 => if i == 0 && j == 0 { -0.0 } else { at(i, j) }, _ => at(i, j),
        }), mode)
    };
    let (a, b) = (mk(m, n), mk(m, n));
    let (sq, sq2) = (mk(m, m), mk(m, m));
    let rhs = mk(m, 2);
    let wide = mk(n, m);
    // a copy with room to spare in its storage
    let spare = |x: &Matrix<T>| { let mut v = Vec::with_capacity(x.get_data().len() * 2 + 3); v.extend_from_slice(x.get_data()); Matrix::new(x.rows(), x.cols(), v) };
    let mut a2 = if c.arg % 2 == 0 { spare(&a) } else { a.clone() };
    let d = a.get_data().clone();
    let half = T::of(0.5);
    let mut h = H(0xcbf29ce484222325);
    let spd = { let mut s = &sq * &sq.t(); for i in 0..m { let v = s.get(i, i); s.set(i, i, v + T::of(1.0)) } s };
    let sym = &sq + &sq.t();
    match OPS[c.op] {
        "new" => h.m(&Matrix::new(m, n, d)),
        "vector" => h.m(&Matrix::vector(d)),
        "row_vector" => h.m(&Matrix::row_vector(d)),
        "id" => h.m(&Matrix::<T>::id(m, n)),
        "zero" => h.m(&Matrix::<T>::zero(m, n)),
        "diag" => h.m(&Matrix::diag(d)),
        "block_diag" => h.m(&Matrix::block_diag(m, n, d[..m.min(n)].to_vec())),
        "zero_vector" => h.m(&Matrix::<T>::zero_vector(m * n)),
        "one_vector" => h.m(&Matrix::<T>::one_vector(m * n)),
        "clone" => h.m(&a.clone()),
        "t" => h.m(&a.t()),
        "mt" => { a2.mt(); h.m(&a2) }
        "minor" => h.m(&a.minor(m / 2, n / 2)),
        "sub_matrix" => h.m(&a.sub_matrix(m / 3, n / 3, m, n)),
        "get_column" => h.m(&a.get_column(n / 2)),
        "cr" => h.m(&a.cr(&b)),
        "cb" => h.m(&a.cb(&b)),
        "bitor" => h.m(&(a2 | &b)),
        "permute_rows" => h.m(&a.permute_rows(&(0..m).map(|i| (i * 3 + 1) % m).collect::<Vec<usize>>())),
        "permute_columns" => h.m(&a.permute_columns(&(0..n).map(|i| (i * 3 + 1) % n).collect::<Vec<usize>>())),
        "select_rows" => h.m(&a.select_rows(&(0..m).map(|i| i % 3 != 1).collect::<Vec<bool>>())),
        "select_columns" => h.m(&a.select_columns(&(0..n).map(|i| i % 3 != 1).collect::<Vec<bool>>())),
        "filter_rows" => h.m(&a.filter_rows(&|x: &Matrix<T>, i: usize| i == 0 || x.get(i, 0) > T::of(0.0))),
        "filter_columns" => h.m(&a.filter_columns(&|x: &Matrix<T>, i: usize| i == 0 || x.get(0, i) > T::of(0.0))),
        "neg" => { h.m(&-&a); h.m(&-a2) }
        "mneg" => { a2.mneg(); h.m(&a2) }
        "scale" => h.m(&a.scale(half)),
        "mscale" => { a2.mscale(half); h.m(&a2) }
        "map" => h.m(&a.map(&|x: &T| *x * *x + half)),
        "mmap" => { a2.mmap(&|x: &T| *x * *x + half); h.m(&a2) }
        "reduce" => h.m(&a.reduce(&vec![half; n], &|p: &T, q: &T| *p * half - *q)),
        "add" => { h.m(&(&a + &b)); h.m(&(a2 + b)) }
        "madd" => { a2.madd(&b); h.m(&a2) }
        "sub" => { h.m(&(&a - &b)); h.m(&(a2 - b)) }
        "msub" => { a2.msub(&b); h.m(&a2) }
        "mul" => { h.m(&(&a * &wide)); h.m(&(a2 * wide)) }
        "mmul" => { a2.mmul(&wide); h.m(&a2) }
        "elem_mul" => h.m(&a.elem_mul(&b)),
        "melem_mul" => { a2.melem_mul(&b); h.m(&a2) }
        "elem_div" => h.m(&a.elem_div(&b)),
        "melem_div" => { a2.melem_div(&b); h.m(&a2) }
        "norms" => { let v = Matrix::vector(d); h.f(v.vector_1_norm()); h.f(v.vector_2_norm()); h.f(v.length()); h.f(v.vector_p_norm(T::of(3.0))); h.f(v.vector_inf_norm()); h.f(a.frobenius_norm()) }
        "trace" => { h.f(a.trace()); h.f(sq.trace()) }
        "compare" => { h.b(a == b); h.b(a == a2); h.b(a.approx_eq(&b)); h.b(a.approx_eq(&a2)); h.b(sq.is_symmetric()); h.b(sym.is_symmetric()); h.b(a.is_square()); h.u(a.rows() as u64 * 1000 + a.cols() as u64) }
        "debug" => for c in format!("{:?}", a).bytes() { h.u(c as u64) },
        "csv" => {
            let p = format!("{}/p{}-{:?}.csv", dir, std::process::id(), std::thread::current().id());
            std::fs::write(&p, (0..m).map(|i| (0..n).map(|j| format!(" {}", a.get(i, j).f())).collect::<Vec<String>>().join(",")).collect::<Vec<String>>().join("\n")).unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| read_csv(&p, &|s: &str| T::of(s.parse::<f64>().unwrap()))));
            std::fs::remove_file(&p).ok();
            match r { Ok(x) => h.m(&x), Err(_) => h.u(5) }
        }
        "det" => { h.f(sq.det()); h.b(sq.is_singular()); h.b(sq.is_non_singular()) }
        "solve" => h.o(sq.solve(&rhs)),
        "inverse" => h.o(sq.inverse()),
        "pinverse" => { let t = if m >= n { a } else { a.t() }; h.m(&t.pinverse()) }
        "lu" => for x in &[&a, &sq] { let l = LUDecomposition::new(x); if mode > 0 { l.get_p(); l.get_u(); let _ = catch_unwind(AssertUnwindSafe(|| l.det())); } h.m(&l.get_l()); h.m(&l.get_u()); h.m(&l.get_p()); for p in l.get_piv() { h.u(*p as u64) } }
        "lusolve" => { let l = LUDecomposition::new(&sq2); if mode > 0 { l.solve(&sq); l.det(); l.solve(&Matrix::one_vector(m)); } h.o(l.solve(&rhs)); h.f(l.det()); h.b(l.is_singular()); h.b(l.is_non_singular()) }
        "chol" => { for x in &[&spd, &sym] { match CholeskyDecomposition::new(x) { Some(c) => h.m(c.get_l()), None => h.u(3) } } }
        "cholsolve" => match CholeskyDecomposition::new(&spd) { Some(c) => { if mode > 0 { c.solve(&sq); c.solve(&Matrix::one_vector(m)); } h.m(&c.solve(&rhs)) }, None => h.u(3) },
        "qr" => for x in &[&a, &sq] { let q = QRDecomposition::new(x); if mode > 0 { q.get_h(); q.get_r(); q.solve(&rhs); } h.m(&q.get_q()); h.m(&q.get_r()); h.m(&q.get_h()); h.b(q.is_full_rank()) }
        "qrsolve" => { let q = QRDecomposition::new(&a); if mode > 0 { q.solve(&sq); q.get_q(); q.solve(&Matrix::one_vector(m)); } h.o(q.solve(&rhs)); h.o(QRDecomposition::new(&sq).solve(&rhs)) }
        "svd" => { let s = SVD::new(&a); if mode > 0 { s.rank(); } h.m(s.get_u()); h.m(s.get_s()); h.m(s.get_v()) }
        "rank" => h.u(SVD::new(&a).rank() as u64),
        "direct" => for x in &[&a, &sq] { let s = SVD::direct(x); h.m(s.get_u()); h.m(s.get_s()); h.m(s.get_v()) }
        x => { let e = EigenDecomposition::new(if x == "eig" { &sq } else { &sym }); h.m(e.get_v()); h.m(&e.get_d()); for v in e.get_real_eigenvalues() { h.f(*v) } for v in e.get_imag_eigenvalues() { h.f(*v) } }
    }
    // the operands may not have changed
    h.m(&sq); h.m(&sq2); h.m(&rhs);
    h
}
fn digest(c: &Call, dir: &str, mode: usize) -> String {
    match catch_unwind(AssertUnwindSafe(|| if c.f32s { run::<f32>(c, dir, mode) } else { run::<f64>(c, dir, mode) })) { Ok(h) => format!("{:016x}", h.0), Err(_) => "rejected".to_string() }
}

fn calls(seed: u64, i: usize) -> Vec<Call> {
    let mut g = Rng::new(seed ^ 0x9999, i as u64);
    let mut v = vec![];
    for k in 0..5 {
        // the first operation is taken in turn so that all are covered
        let op = if k == 0 { i % OPS.len() } else { g.below(OPS.len()) };
        let top = *g.pick(&[5, 5, 5, 5, 9, 14, 20, 36]);
        let m = 1 + g.below(top);
        let n = if g.chance(3) { m } else { 1 + g.below(top) };
        let f32s = g.chance(3);
        // several arguments of the same shape
        for t in 0..2 {
            let arg = g.next() >> 1;
            for var in if t == 0 { vec![0, 1 + g.below(VARIANTS.len() - 1), 1 + g.below(VARIANTS.len() - 1)] } else { vec![0] } { v.push(Call { op, m, n, arg, var, f32s }) }
        }
    }
    v
}
const FILLS: &[u8] = &[0xFF, 0x00, 0x3F, 0x40, 0xBF, 0x7F, 0x01];

/// The digests of all calls of all histories, in another order than the recording process uses.
pub fn child(seed: u64, count: usize, dir: &str) {
    fill(0x41);
    let mut out = vec![];
    for i in (0..count).rev() {
        let cs = calls(seed, i);
        for k in (0..cs.len()).rev() { out.push(format!("{} {} {}", i, k, digest(&cs[k], dir, 0))) }
    }
    println!("{}", out.join("\n"));
}

pub fn record(seed: u64, count: usize, dir: &str, path: &str, w: &Watch) {
    let exe = std::env::current_exe().unwrap();
    let other = std::process::Command::new(exe).args(&["pure-child", &seed.to_string(), &count.to_string(), dir]).output().expect("child");
    let mut elsewhere = std::collections::HashMap::new();
    for l in String::from_utf8_lossy(&other.stdout).lines() {
        let t: Vec<&str> = l.split(' ').collect();
        if t.len() == 3 { elsewhere.insert((t[0].parse::<usize>().unwrap(), t[1].parse::<usize>().unwrap()), t[2].to_string()); }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("trace file"));
    for i in 0..count {
        let cs = calls(seed, i);
        let mut g = Rng::new(seed ^ 0x1717, i as u64);
        let mut ev: Vec<(usize, String, &str)> = vec![];
        let mut order: Vec<usize> = (0..4 * cs.len()).map(|k| k % cs.len()).collect();
        for k in 0..order.len() { let j = g.below(order.len()); order.swap(k, j) }
        for k in order {
            let c = &cs[k];
            w.at(i as u64, &format!("purity seed {} history {}: {} {}x{} argument {}{} f32 {}", seed, i, OPS[c.op], c.m, c.n, c.arg, VARIANTS[c.var], c.f32s));
            fill(*g.pick(FILLS));
            let mode = if g.chance(2) { 1 + g.below(3) } else { 0 };
            ev.push((k, digest(c, dir, mode), ["here", "used before", "rewritten", "reshaped"][mode]));
        }
        // the same calls from three threads at once
        if i % 4 == 0 {
            fill(*g.pick(FILLS));
            let hs: Vec<_> = (0..3).map(|t| { let (cs, dir) = (cs.clone(), dir.to_string()); std::thread::spawn(move || {
                (0..cs.len()).map(|k| { let k = (k * 7 + t * 5) % cs.len(); (k, digest(&cs[k], &dir, t)) }).collect::<Vec<_>>() }) }).collect();
            for h in hs { for (k, d) in h.join().unwrap() { ev.push((k, d, "thread")) } }
        }
        for k in 0..cs.len() { ev.push((k, elsewhere.get(&(i, k)).cloned().unwrap_or("missing".to_string()), "process")) }
        fill(0xFF);
        writeln!(f, "{}", J::obj(vec![
            ("calls", J::A(cs.iter().map(|c| J::st(&format!("{} {}x{} argument {}{} {}", OPS[c.op], c.m, c.n, c.arg, VARIANTS[c.var], if c.f32s { "f32" } else { "f64" }))).collect())),
            ("ev", J::A(ev.iter().map(|(k, d, p)| J::obj(vec![("c", J::I(*k as i64 + 1)), ("d", J::st(d)), ("at", J::st(p))])).collect()))]).text()).unwrap();
    }
}
