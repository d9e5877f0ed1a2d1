// Records random histories of operations over a bank of matrices: every call with its arguments and
// outcome, and the contents of the whole bank after it.  The specification decides whether they are allowed.
use crate::alloc::fill;
use crate::exec::*;
use crate::json::J;
use crate::rng::Rng;
use crate::watch::Watch;
use la::Matrix;
use num::Num;
use std::io::Write;
use std::ops::Neg;

const REGS: usize = 4;
const MOVE: &[&str] = &["clone", "rows", "cols", "get_data", "get", "get_ref", "get_mref", "index", "set", "set_mref", "set_data",
    "t", "mt", "mt", "minor", "sub_matrix", "get_column", "cr", "cb", "bitor", "permute_rows", "permute_columns", "select_rows",
    "select_columns", "filter_rows", "filter_columns", "is_square", "is_not_square"];
const RING: &[&str] = &["id", "zero", "diag", "block_diag", "zero_vector", "one_vector", "neg_r", "neg_v", "mneg", "scale", "mscale", "map", "mmap",
    "reduce", "add_rr", "add_rv", "add_vr", "add_vv", "sub_rr", "sub_rv", "sub_vr", "sub_vv", "mul_rr", "mul_rv", "mul_vr", "mul_vv",
    "elem_mul", "elem_div", "madd", "msub", "melem_mul", "melem_div", "mmul"];
const CMP: &[&str] = &["eq", "ne"];

fn mx(m: &[Vec<i64>]) -> i64 { m.iter().flat_map(|r| r.iter()).map(|x| x.abs()).max().unwrap_or(0) }
const LIM: i64 = 1_000_000;

/// Picks the arguments of one call; None when the call is outside what is specified or would grow too large.
fn arguments(op: &str, a: &[Vec<i64>], b: &[Vec<i64>], g: &mut Rng, dim: i64) -> Option<Vec<i64>> {
    let (r, c) = (a.len() as i64, a[0].len() as i64);
    let (r2, c2) = (b.len() as i64, b[0].len() as i64);
    let idx = |g: &mut Rng, hi: i64| if g.chance(8) { hi + g.range(0, 2) } else { g.range(0, hi - 1) };
    let v = |g: &mut Rng| g.range(-4, 4);
    let vs = |g: &mut Rng, k: i64| (0..k).map(|_| g.range(-4, 4)).collect::<Vec<i64>>();
    let (ma, mb) = (mx(a), mx(b));
    Some(match op {
        "new" => { let (x, y) = (g.range(1, dim), g.range(1, dim)); let k = if g.chance(10) { x * y + g.range(-1, 1) } else { x * y }; let mut n = vec![x, y]; n.extend(vs(g, k)); n }
        "vector" | "row_vector" | "diag" => { let k = g.range(1, dim); vs(g, k) }
        "id" | "zero" => vec![g.range(1, dim), g.range(1, dim)],
        "zero_vector" | "one_vector" => vec![g.range(1, dim)],
        "block_diag" => { let (x, y) = (g.range(1, dim), g.range(1, dim)); let k = if g.chance(8) { x.max(y) } else { x.min(y) }; let mut n = vec![x, y]; n.extend(vs(g, k)); n }
        "get" | "get_ref" | "get_mref" | "index" | "minor" => vec![idx(g, r), idx(g, c)],
        "set" | "set_mref" => vec![idx(g, r), idx(g, c), v(g)],
        "set_data" => vec![idx(g, r * c), v(g)],
        "sub_matrix" => {
            let (i, j) = (g.range(0, r - 1), g.range(0, c - 1));
            if g.chance(6) { vec![idx(g, r), idx(g, c), idx(g, r), idx(g, c)] } else { vec![i, j, g.range(i + 1, r), g.range(j + 1, c)] }
        }
        "get_column" => vec![idx(g, c)],
        "cr" | "bitor" => if c + c2 > 3 * dim { return None } else { vec![] },
        "cb" => if r + r2 > 3 * dim { return None } else { vec![] },
        "permute_rows" => { let k = g.range(1, dim); (0..k).map(|_| if g.chance(20) { r } else { g.range(0, r - 1) }).collect() }
        "permute_columns" => { let k = g.range(1, dim); (0..k).map(|_| if g.chance(20) { c } else { g.range(0, c - 1) }).collect() }
        "select_rows" | "filter_rows" | "select_columns" | "filter_columns" => {
            let len = if op.ends_with("rows") { r } else { c };
            let k = if op.starts_with("select") && g.chance(8) { len + 1 } else { len };
            let mut f: Vec<i64> = (0..k).map(|_| g.range(0, 1)).collect();
            let at = g.below(k as usize);
            f[at] = 1;
            f
        }
        "scale" | "mscale" => { let s = v(g); if ma * s.abs() > LIM { return None } vec![s] }
        "map" | "mmap" => { let f = g.range(0, 4); if f <= 1 && (ma + 1) * (ma + 2) > LIM { return None } vec![f] }
        "reduce" => {
            let f = g.range(0, 3);
            if f == 0 && (r > 10 || (ma + 4) << r > LIM) || (ma + 4) * r > LIM { return None }
            let mut n = vec![f];
            let k = if g.chance(8) { c + 1 } else { c };
            n.extend(vs(g, k));
            n
        }
        "elem_mul" | "melem_mul" => if ma * mb > LIM { return None } else { vec![] },
        "mul_rr" | "mul_rv" | "mul_vr" | "mul_vv" | "mmul" => if ma * mb * c > LIM { return None } else { vec![] },
        "elem_div" | "melem_div" => {
            if r == r2 && c == c2 && (0..r as usize).any(|i| (0..c as usize).any(|j| b[i][j] == 0 || a[i][j] % b[i][j] != 0)) { return None }
            vec![]
        }
        _ => if ma + mb > LIM { return None } else { vec![] },
    })
}

fn history<E: Elem + Num + Neg<Output = E>>(ty: &str, len: usize, dim: i64, g: &mut Rng, w: &Watch) -> J {
    let mut bank: Vec<Matrix<E>> = (0..REGS).map(|_| Matrix::new(1, 1, vec![E::of(1)])).collect();
    let read = |bank: &Vec<Matrix<E>>| bank.iter().map(|m| rows_of(m).map(|v| v.iter().map(|r| r.iter().map(|x| if *x == NZ { 0 } else { *x }).collect()).collect::<Vec<Vec<i64>>>())).collect::<Vec<_>>();
    let mut ev = vec![];
    let mut now: Vec<Vec<Vec<i64>>> = read(&bank).into_iter().map(|x| x.unwrap()).collect();
    while ev.len() < len {
        let (x, mut y, z) = (g.below(REGS), g.below(REGS), g.below(REGS));
        let op = match g.below(10) { 0 => "new", 1 => *g.pick(&["new", "vector", "row_vector"]), 2..=5 => *g.pick(MOVE), 6..=8 => *g.pick(RING), _ => *g.pick(CMP) };
        // binary operations mostly meet a fitting operand
        if !g.chance(3) {
            let fits = |k: usize| match op {
                "cr" | "bitor" => now[k].len() == now[x].len(),
                "cb" => now[k][0].len() == now[x][0].len(),
                "mul_rr" | "mul_rv" | "mul_vr" | "mul_vv" | "mmul" => now[x][0].len() == now[k].len(),
                _ => now[k].len() == now[x].len() && now[k][0].len() == now[x][0].len(),
            };
            for d in 0..REGS { if fits((y + d) % REGS) { y = (y + d) % REGS; break } }
        }
        let n = match arguments(op, &now[x], &now[y], g, dim) { Some(n) => n, None => continue };
        w.at(0, &format!("history of {} so far {:?}; then {} {:?} {:?} {:?} receiver {:?} operand {:?}", ty, ev.len(), op, x, y, n, now[x], now[y]));
        fill(if g.chance(2) { 0xFF } else { 0x3F });
        keep(true);
        let second = Some(bank[y].clone());
        let got = caught(|| {
            let a = &mut bank[x];
            if CMP.contains(&op) { return Out::Val(vec![if op == "eq" { *a == *second.as_ref().unwrap() } else { *a != *second.as_ref().unwrap() } as i64]) }
            // the same object as both operands
            if x == y && n.is_empty() { if let Some(o) = alias_move(op, a).or_else(|| alias_ring(op, a)) { return o } }
            exec_move(op, a, &second, &n).or_else(|| exec_ring(op, a, &second, &n)).unwrap_or(Out::Bad("unknown".to_string()))
        });
        let ret = kept::<E>();
        keep(false);
        let (k, v) = match &got {
            Out::Mat(_) => ("mat", vec![]),
            Out::Slf(_) => ("self", vec![]),
            Out::Val(v) => ("val", v.iter().map(|x| if *x == NZ { 0 } else { *x }).collect()),
            Out::Rej => ("rej", vec![]),
            _ => ("bad", vec![]),
        };
        if let (Out::Mat(_), Some(m)) = (&got, ret) { bank[z] = m }
        let after = read(&bank);
        let bad = k == "bad" || after.iter().any(|x| x.is_err());
        if !bad { now = after.into_iter().map(|x| x.unwrap()).collect() }
        let in_range = |x: i64| if x.abs() > 1 << 30 { 1 << 30 } else { x };
        ev.push(J::obj(vec![("op", J::st(op)), ("x", J::I(x as i64 + 1)), ("y", J::I(y as i64 + 1)), ("z", J::I(z as i64 + 1)), ("n", J::ai(&n)),
            ("k", J::st(if bad { "bad" } else { k })), ("v", J::ai(&v.iter().map(|x| in_range(*x)).collect::<Vec<i64>>())),
            ("bank", J::A(now.iter().map(|m| J::am(&m.iter().map(|r| r.iter().map(|x| in_range(*x)).collect()).collect::<Vec<Vec<i64>>>())).collect()))]));
        if bad { break }
    }
    fill(0xFF);
    J::obj(vec![("ty", J::st(ty)), ("ev", J::A(ev))])
}

pub fn record(seed: u64, count: usize, len: usize, path: &str, w: &Watch) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("trace file"));
    for i in 0..count {
        let mut g = Rng::new(seed, i as u64);
        let dim = *g.pick(&[2, 3, 3, 4, 4, 5, 6]);
        let h = match i % 4 {
            0 => history::<f64>("f64", len, dim, &mut g, w),
            1 => history::<i32>("i32", len, dim, &mut g, w),
            2 => history::<f32>("f32", len, dim.min(4), &mut g, w),
            _ => history::<i64>("i64", len, dim, &mut g, w),
        };
        writeln!(f, "{}", h.text()).unwrap();
    }
}
