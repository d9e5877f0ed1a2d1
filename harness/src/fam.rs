// Families of input matrices for the decompositions.
use crate::rng::Rng;

/// A matrix of integers times a power of two, or of arbitrary floating-point numbers.
/// The library is given the matrix with its columns (`sym`: its rows as well) multiplied by 2^cs[j], where `cs` is not empty;
/// results are recorded after undoing this, so that the equations must hold column by column.
#[derive(Clone)]
pub struct Input { pub m: usize, pub n: usize, pub x: Vec<Vec<f64>>, pub ai: Option<Vec<Vec<i64>>>, pub k: i32, pub fam: &'static str, pub cs: Vec<i32>, pub sym: bool }

impl Input {
    pub fn ints(fam: &'static str, ai: Vec<Vec<i64>>, k: i32) -> Input {
        let s = 2f64.powi(k);
        Input { m: ai.len(), n: ai[0].len(), x: ai.iter().map(|r| r.iter().map(|v| *v as f64 * s).collect()).collect(), ai: Some(ai), k, fam, cs: vec![], sym: false }
    }
    pub fn reals(fam: &'static str, x: Vec<Vec<f64>>) -> Input { Input { m: x.len(), n: x[0].len(), x, ai: None, k: 0, fam, cs: vec![], sym: false } }
    pub fn c(&self, j: usize) -> i32 { if self.cs.is_empty() { 0 } else { self.cs[j] } }
    pub fn t(&self) -> Input {
        let f = |v: &Vec<Vec<i64>>| (0..v[0].len()).map(|j| v.iter().map(|r| r[j]).collect()).collect::<Vec<Vec<i64>>>();
        Input { m: self.n, n: self.m, x: (0..self.n).map(|j| self.x.iter().map(|r| r[j]).collect()).collect(), ai: self.ai.as_ref().map(f), k: self.k, fam: self.fam, cs: vec![], sym: false }
    }
}

pub fn int_mat(m: usize, n: usize, f: &mut dyn FnMut(usize, usize) -> i64) -> Vec<Vec<i64>> { (0..m).map(|i| (0..n).map(|j| f(i, j)).collect()).collect() }
pub fn real_mat(m: usize, n: usize, f: &mut dyn FnMut(usize, usize) -> f64) -> Vec<Vec<f64>> { (0..m).map(|i| (0..n).map(|j| f(i, j)).collect()).collect() }
pub fn perm(n: usize, g: &mut Rng) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in 0..n { let j = g.below(n); p.swap(i, j) }
    p
}
/// A power of two by which whole matrices are scaled.
pub fn scale(g: &mut Rng, f32s: bool) -> i32 { if g.chance(4) { *g.pick(if f32s { &[-20, -9, 7, 20][..] } else { &[-200, -60, -9, 7, 60, 200][..] }) } else { 0 } }

/// Multiplies the columns (or rows and columns) by different powers of two in one case out of three.
pub fn graded(mut a: Input, sym: bool, f32s: bool, g: &mut Rng) -> Input {
    if !g.chance(3) { return a }
    let w = if f32s { if sym { 6 } else { 12 } } else { *g.pick(&[3, 30, 30, 60]) };
    a.cs = match g.below(4) {
        0 => { let j = g.below(a.n); (0..a.n).map(|c| if c == j { w as i32 } else { 0 }).collect() }     // one column apart
        1 => { let j = g.below(a.n); (0..a.n).map(|c| if c == j { -w as i32 } else { 0 }).collect() }
        2 => { let h = w as i32; let n = a.n as i32; let up = g.chance(2); (0..n).map(|c| { let e = (2 * c + 1 - n) * h / n; if up { e } else { -e } }).collect() }
        _ => (0..a.n).map(|_| g.range(-w, w) as i32).collect(),
    };
    a.sym = sym;
    a
}
/// The same, or two columns very far apart (for algorithms that take no squares).
pub fn far(a: Input, f32s: bool, g: &mut Rng) -> Input {
    if a.n < 2 || a.k.abs() > 60 || a.fam == "uniform, scaled" || !g.chance(5) { return graded(a, false, f32s, g) }
    let w = *g.pick(if f32s { &[35, 50][..] } else { &[100, 260, 400][..] });
    let p = perm(a.n, g);
    Input { cs: (0..a.n).map(|c| if c == p[0] { w } else if c == p[1] { -w } else { 0 }).collect(), ..a }
}
/// Multiplies the whole by a very large or very small power of two in one case out of five.
pub fn extreme(a: Input, f32s: bool, g: &mut Rng) -> Input {
    if a.k != 0 || !g.chance(5) { return a }
    let k = *g.pick(if f32s { &[-70, -68, -66, -40, 40, 66][..] } else { &[-900, -532, -530, -340, -130, 130, 340, 520, 900][..] });
    match a.ai {
        Some(ref ai) => Input::ints(a.fam, ai.clone(), k),
        None if a.fam == "uniform" && a.x.iter().all(|r| r.iter().all(|x| x.abs() < 1e3 && (*x == 0.0 || x.abs() > 1e-9))) => { let s = 2f64.powi(k); let x = a.x.iter().map(|r| r.iter().map(|x| x * s).collect()).collect(); Input::reals("uniform, scaled", x) }
        None => a,
    }
}

/// Adds a little to some elements (in symmetric positions alike, and to a symmetric matrix's diagonal more): matrices almost but not quite of whole numbers.
pub fn nearly(mut a: Input, sym: bool, f32s: bool, g: &mut Rng) -> Input {
    if a.ai.is_none() || !a.cs.is_empty() || !g.chance(10) { return a }
    let e = *g.pick(if f32s { &[-21, -15][..] } else { &[-44, -30, -22, -20, -15][..] });
    let s = 2f64.powi(a.k + e);
    for i in 0..a.m { for j in 0..a.n {
        if sym && j > i { continue }
        let d = if sym && i == j { if g.chance(3) { 0.0 } else { a.n as f64 } } else if g.chance(3) { g.unit() * 2.0 - 1.0 } else { 0.0 };
        a.x[i][j] += d * s;
        if sym { a.x[j][i] = a.x[i][j] }
    } }
    a.ai = None;
    a.fam = "nearly integers";
    a
}

/// Any matrix.
pub fn any(m: usize, n: usize, f32s: bool, g: &mut Rng) -> Input { let a = plain(m, n, f32s, g); nearly(a, false, f32s, g) }
fn plain(m: usize, n: usize, f32s: bool, g: &mut Rng) -> Input {
    let k = scale(g, f32s);
    let s = 2f64.powi(k);
    match g.below(18) {
        0 | 1 => Input::ints("small integers", int_mat(m, n, &mut |_, _| g.range(-3, 3)), k),
        2 => Input::ints("signs", int_mat(m, n, &mut |_, _| g.range(-1, 1)), k),
        3 => Input::ints("bits", int_mat(m, n, &mut |_, _| g.range(0, 1)), k),
        4 | 5 => Input::reals("uniform", real_mat(m, n, &mut |_, _| (g.unit() * 2.0 - 1.0) * s)),
        6 => Input::ints("sparse", int_mat(m, n, &mut |_, _| if g.chance(4) { g.range(-2, 2) } else { 0 }), k),
        7 => { let p = perm(m.max(n), g); Input::ints("permutation", int_mat(m, n, &mut |i, j| (p[i] == j) as i64 * *g.pick(&[1, 1, 2, -1])), k) }
        8 => Input::ints("bidiagonal", int_mat(m, n, &mut |i, j| if j == i || j == i + 1 { g.range(0, 2) } else { 0 }), k),
        9 => Input::ints("companion", int_mat(m, n, &mut |i, j| if j + 1 == n { g.range(-2, 2) } else if i == j + 1 { 1 } else { 0 }), k),
        10 => { let w = if f32s { 8 } else { 30 }; Input::reals("graded", real_mat(m, n, &mut |_, _| (g.unit() * 2.0 - 1.0) * 2f64.powi(g.range(-w, w) as i32))) }
        11 => Input::reals("hilbert", real_mat(m, n, &mut |i, j| s / ((i + j + 1) as f64))),
        12 => { let c = g.range(0, 4); Input::ints("constant", int_mat(m, n, &mut |_, _| c), k) }
        13 => {
            let u: Vec<i64> = (0..m).map(|_| g.range(-2, 2)).collect();
            let v: Vec<i64> = (0..n).map(|_| g.range(-2, 2)).collect();
            Input::ints("rank one", int_mat(m, n, &mut |i, j| u[i] * v[j]), k)
        }
        14 => Input::ints("upper", int_mat(m, n, &mut |i, j| if j >= i { g.range(-1, 1) } else { 0 }), k),
        15 => Input::ints("lower", int_mat(m, n, &mut |i, j| if j <= i { g.range(-1, 1) } else { 0 }), k),
        16 => {
            // some rows and columns exactly zero
            let r: Vec<bool> = (0..m).map(|_| g.chance(3)).collect();
            let c: Vec<bool> = (0..n).map(|_| g.chance(3)).collect();
            Input::ints("zero lines", int_mat(m, n, &mut |i, j| if r[i] || c[j] { 0 } else { g.range(-3, 3) }), k)
        }
        _ => Input::ints("diagonal", int_mat(m, n, &mut |i, j| if i == j { g.range(-3, 3) } else { 0 }), k),
    }
}

/// A tall or square matrix of integers whose leading rows are diagonally dominant up to a row permutation: well-conditioned.
/// Returns the input, whose rows are already in dominant order.
pub fn dominant(m: usize, n: usize, f32s: bool, g: &mut Rng) -> Input {
    assert!(m >= n);
    let k = scale(g, f32s);
    let off = int_mat(m, n, &mut |_, _| g.range(-2, 2));
    let ai = int_mat(m, n, &mut |i, j| {
        if i == j {
            let s: i64 = (0..n).filter(|c| *c != i).map(|c| off[i][c].abs()).sum();
            (2 * s + g.range(1, 3)) * if g.chance(2) { -1 } else { 1 }
        } else { off[i][j] }
    });
    Input::ints("dominant", ai, k)
}

pub fn symmetric(n: usize, f32s: bool, g: &mut Rng) -> Input { let a = plain_symmetric(n, f32s, g); nearly(a, true, f32s, g) }
fn plain_symmetric(n: usize, f32s: bool, g: &mut Rng) -> Input {
    let mut a = plain(n, n, f32s, g);
    if g.chance(8) {
        // repeated eigenvalues: a multiple of the identity plus a rank-one matrix, or two equal blocks
        let v: Vec<i64> = (0..n).map(|_| g.range(-1, 1)).collect();
        let c = g.range(-2, 2);
        return Input::ints("repeated", int_mat(n, n, &mut |i, j| (i == j) as i64 * c + v[i] * v[j]), a.k);
    }
    for i in 0..n { for j in 0..i {
        a.x[i][j] = a.x[j][i];
        if let Some(ref mut v) = a.ai { v[i][j] = v[j][i] }
    } }
    a
}

/// A small matrix with an interesting spectrum.
fn block(n: usize, g: &mut Rng) -> Vec<Vec<i64>> {
    let c = g.range(-3, 5) * (!g.chance(3)) as i64;
    let kind = g.below(8);
    let w = g.range(1, 3);
    let p = perm(n, g);
    let u = int_mat(n, n, &mut |_, _| g.range(-3, 3));
    int_mat(n, n, &mut |i, j| {
        let d = if i == j { c } else { 0 };
        match kind {
            0 | 1 => d + if (i + 1) % n == j { w } else { 0 },             // shifted cyclic permutation
            2 => d + if (j + 1) % n == i { w } else { 0 },
            3 => d + (p[i] == j) as i64,                                     // shifted permutation
            4 => d + if j == i + 1 { 1 } else { 0 },                         // Jordan
            5 => d + if i < j { u[i][j] } else if j < i { -u[j][i] } else { 0 }, // shifted skew
            6 => if j + 1 == n { u[i][j] } else if i == j + 1 { 1 } else { 0 },  // companion
            _ => u[i][j],
        }
    })
}

/// Square matrices with interesting spectra.
pub fn spectral(n: usize, f32s: bool, g: &mut Rng) -> Input { let a = plain_spectral(n, f32s, g); nearly(a, false, f32s, g) }
fn plain_spectral(n: usize, f32s: bool, g: &mut Rng) -> Input {
    let k = scale(g, f32s);
    match g.below(14) {
        0 => { // cyclic permutation: eigenvalues are roots of unity
            let w = g.range(1, 3);
            Input::ints("cyclic", int_mat(n, n, &mut |i, j| if (i + 1) % n == j { w } else { 0 }), k)
        }
        1 => { // rotation-like blocks: complex pairs
            let a: Vec<i64> = (0..n).map(|_| g.range(-3, 3)).collect();
            let b: Vec<i64> = (0..n).map(|_| g.range(-3, 3)).collect();
            let u = int_mat(n, n, &mut |_, _| g.range(-1, 1));
            Input::ints("complex pairs", int_mat(n, n, &mut |i, j| {
                let (p, q) = (i / 2, j / 2);
                if p == q && 2 * p + 1 < n { if i == j { a[p] } else if i < j { b[p] } else { -b[p] } } else if p < q || i == j { u[i][j] } else { 0 }
            }), k)
        }
        2 => { // Jordan block: defective
            let c = g.range(-2, 2);
            Input::ints("jordan", int_mat(n, n, &mut |i, j| if i == j { c } else if j == i + 1 { 1 } else { 0 }), k)
        }
        3 => { // skew symmetric: purely imaginary
            let u = int_mat(n, n, &mut |_, _| g.range(-3, 3));
            Input::ints("skew", int_mat(n, n, &mut |i, j| if i < j { u[i][j] } else if j < i { -u[j][i] } else { 0 }), k)
        }
        4 => { let u = int_mat(n, n, &mut |_, _| g.range(0, 9)); Input::ints("hessenberg", int_mat(n, n, &mut |i, j| if i > j + 1 { 0 } else { u[i][j] - 4 }), k) }
        5 => plain_symmetric(n, f32s, g),
        6 => { let b = block(n, g); Input::ints("block", b, k) }
        10 if n >= 4 => { // Day's matrices, on which the double-shift iteration stalls, with other blocks before, between or after
            let mut a = real_mat(n, n, &mut |_, _| 0.0);
            let mut at = 0;
            while at < n {
                if n - at >= 4 && (at + 7 > n || g.chance(2)) {
                    let (h, c, w) = (2f64.powi(-(g.range(4, if f32s { 12 } else { 30 }) as i32)), g.range(-2, 3) as f64, if g.chance(2) { 1.0 } else { 2.0 });
                    for (i, j, v) in [(0, 1, w), (1, 0, w), (1, 2, h), (2, 1, -h), (2, 3, w), (3, 2, w)].iter() { a[at + i][at + j] = *v }
                    for i in 0..4 { a[at + i][at + i] = c }
                    at += 4;
                } else {
                    let z = (1 + g.below(3)).min(n - at);
                    let b = block(z, g);
                    for i in 0..z { for j in 0..z { a[at + i][at + j] = b[i][j] as f64 } }
                    at += z;
                }
            }
            let s = 2f64.powi(k);
            Input::reals("stalling", real_mat(n, n, &mut |i, j| a[i][j] * s))
        }
        7 | 8 | 9 => { // blocks along the diagonal, sometimes coupled above it, sometimes in another order
            let mut a = int_mat(n, n, &mut |_, _| 0);
            let mut at = 0;
            while at < n {
                let z = (1 + g.below(5)).min(n - at);
                let b = block(z, g);
                for i in 0..z { for j in 0..z { a[at + i][at + j] = b[i][j] } }
                if g.chance(3) { for i in 0..at { for j in 0..z { a[i][at + j] = g.range(-1, 1) } } }
                at += z;
            }
            let p = if g.chance(3) { perm(n, g) } else { (0..n).collect() };
            Input::ints("blocks", int_mat(n, n, &mut |i, j| a[p[i]][p[j]]), k)
        }
        _ => plain(n, n, f32s, g),
    }
}

/// Finite sets of matrices, all of whose members are visited: the entries run through all choices from a list.
pub struct All { m: usize, n: usize, vals: &'static [i64], sym: bool }
impl All {
    pub fn size(&self) -> usize { self.vals.len().pow(if self.sym { self.n * (self.n + 1) / 2 } else { self.m * self.n } as u32) }
    pub fn get(&self, mut i: usize) -> Input {
        let mut next = || { let v = self.vals[i % self.vals.len()]; i /= self.vals.len(); v };
        let mut a = int_mat(self.m, self.n, &mut |_, _| 0);
        for r in 0..self.m { for c in (if self.sym { r } else { 0 })..self.n { a[r][c] = next(); if self.sym { a[c][r] = a[r][c] } } }
        Input::ints("every", a, 0)
    }
}
pub fn every(kind: &str) -> Vec<All> {
    const S: &[i64] = &[0, 1, -1];
    const F: &[i64] = &[0, 1, -1, 2, -2];
    const P: &[i64] = &[0, 1, -1, 2, 4, -2];
    const B: &[i64] = &[0, 1];
    const W: &[i64] = &[0, 1, -1, 2, -2, 3, -3, 4, -4];
    let a = |m, n, vals| All { m, n, vals, sym: false };
    let s = |n, vals| All { m: n, n, vals, sym: true };
    match kind {
        "chol" | "cholsolve" | "symeig" => vec![s(1, W), s(2, W), s(3, F), s(4, S)],
        "det" | "solve" | "eig" => vec![a(1, 1, W), a(2, 2, P), a(3, 3, S), a(4, 4, B)],
        _ => vec![a(1, 1, W), a(1, 2, F), a(2, 1, F), a(1, 3, F), a(3, 1, F), a(2, 2, P), a(2, 3, S), a(3, 2, S), a(2, 4, S), a(4, 2, S), a(3, 3, S), a(3, 4, B), a(4, 3, B), a(4, 4, B)],
    }
}
