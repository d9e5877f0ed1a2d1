// Replays cases generated from the specification and compares the library's outcome with the required one.
use crate::alloc::fill;
use crate::exec::*;
use crate::json::J;
use crate::watch::Watch;
use la::Matrix;

struct Case { op: String, a: Vec<Vec<i64>>, b: Vec<Vec<i64>>, n: Vec<i64>, want: Out }

fn special(x: i64) -> bool { x == NAN || x == PINF || x == NINF }
fn zmap(x: i64) -> i64 { if x == NZ { 0 } else { x } }

/// Runs one case with elements of type E; returns a description of the first difference.
fn same(c: &Case) -> bool { !c.a.is_empty() && c.a == c.b }
fn aliased<E: Elem>(c: &Case, f: &dyn Fn(&str, &Matrix<E>) -> Option<Out>, norm: &dyn Fn(i64) -> i64) -> Option<Out> {
    if !same(c) { return None }
    let a: Matrix<E> = build(&c.a);
    let a0 = rows_of(&a);
    let mut known = true;
    let got = caught(|| f(&c.op, &a).unwrap_or_else(|| { known = false; Out::Rej }));
    if !known { return None }
    let got = got.seen_by(&c.want).map(norm);
    if got != c.want.map(norm) { return Some(got) }
    if rows_of(&a) != a0 { return Some(Out::Bad("operand changed".to_string())) }
    None
}
fn run<E: Elem>(c: &Case, f: &dyn Fn(&str, &mut Matrix<E>, &Option<Matrix<E>>, &[i64]) -> Option<Out>, norm: &dyn Fn(i64) -> i64) -> Option<Out> {
    let dummy = vec![vec![0]];
    let mut a: Matrix<E> = build(if c.a.is_empty() { &dummy } else { &c.a });
    let b: Option<Matrix<E>> = if c.b.is_empty() { None } else { Some(build(&c.b)) };
    let a0 = rows_of(&a);
    let b0 = b.as_ref().map(|m| rows_of(m));
    let got = caught(|| f(&c.op, &mut a, &b, &c.n).unwrap_or(Out::Bad("unknown operation".to_string())));
    let in_place = if let Out::Slf(_) = got { true } else { false };
    let got = got.seen_by(&c.want).map(norm);
    if got != c.want.map(norm) { return Some(got) }
    if in_place {} else if rows_of(&a) != a0 { return Some(Out::Bad(format!("receiver changed to {:?}", rows_of(&a)))) }
    if b.as_ref().map(|m| rows_of(m)) != b0 { return Some(Out::Bad("operand changed".to_string())) }
    None
}

fn one(c: &Case) -> Vec<(&'static str, Out)> {
    let id = |x: i64| x;
    let mut bad = vec![];
    macro_rules! alias { ($t:ty, $name:expr, $f:expr, $norm:expr) => { if let Some(o) = aliased::<$t>(c, &$f, $norm) { bad.push(($name, o)) } } }
    macro_rules! go { ($t:ty, $name:expr, $f:expr, $norm:expr) => { if let Some(o) = run::<$t>(c, &$f, $norm) { bad.push(($name, o)) } } }
    let all = || c.a.iter().chain(c.b.iter()).flat_map(|r| r.iter()).chain(c.n.iter());
    let spec = all().any(|x| special(*x));
    match c.op.as_str() {
        "literal" => { let o = caught(|| literal(c.n[0])); if o != c.want { bad.push(("i64", o)) } return bad }
        "random" => {
            if c.n.len() == 3 {
                // many single-precision numbers: the greatest and the least occur
                for _ in 0..c.n[2] { let o = caught(|| random::<f32>(c.n[0], c.n[1])); if o != c.want { bad.push(("f32", o)); break } }
                return bad
            }
            let o = caught(|| random_draws(c.n[0], c.n[1])); if o != c.want { bad.push(("counted", o)) }
            for _ in 0..3 {
                let o = caught(|| random::<f64>(c.n[0], c.n[1])); if o != c.want { bad.push(("f64", o)) }
                let o = caught(|| random::<f32>(c.n[0], c.n[1])); if o != c.want { bad.push(("f32", o)) }
            }
            return bad
        }
        _ => {}
    }
    let op = c.op.as_str();
    let mx = |v: &Vec<Vec<i64>>| v.iter().flat_map(|r| r.iter()).filter(|x| !special(**x) && **x != NZ).map(|x| x.abs()).max().unwrap_or(0);
    let norm: &dyn Fn(i64) -> i64 = if zero_sign_free(op) { &zmap } else { &id };
    if is_numeric_comparison(op) || op == "trace" {
        go!(f64, "f64", exec_float::<f64>, norm);
        alias!(f64, "f64, operand is the receiver", alias_float::<f64>, norm);
        if all().all(|x| special(*x) || *x == NZ || x.abs() < 1 << 24) { go!(f32, "f32", exec_float::<f32>, norm) }
        if (op == "eq" || op == "ne") && !spec {
            let f = |op: &str, a: &mut Matrix<i64>, y: &Option<Matrix<i64>>, _: &[i64]| Some(Out::Val(vec![if op == "eq" { *a == *y.as_ref().unwrap() } else { *a != *y.as_ref().unwrap() } as i64]));
            go!(i64, "i64", f, norm)
        }
        return bad;
    }
    if let Some(_) = probe_move(op) {
        go!(Tok, "opaque", exec_move::<Tok>, &id);
        alias!(Tok, "opaque, operand is the receiver", alias_move::<Tok>, &id);
        go!(Bits, "nan-payload", exec_move::<Bits>, &id);
        go!(f64, "f64", exec_move::<f64>, &id);
        return bad;
    }
    if !spec {
        go!(i64, "i64", exec_ring::<i64>, &zmap);
        alias!(i64, "i64, operand is the receiver", alias_ring::<i64>, &zmap);
        if mx(&c.a) < 20000 && mx(&c.b) < 20000 { go!(i32, "i32", exec_ring::<i32>, &zmap) }
    }
    go!(f64, "f64", exec_ring::<f64>, norm);
    alias!(f64, "f64, operand is the receiver", alias_ring::<f64>, norm);
    let k = if c.a.is_empty() { 1 } else { c.a[0].len() as i64 };
    let bound = (mx(&c.a) + 1) * (mx(&c.b) + 8) * if op.contains("mul_") || op == "mmul" { k } else { 1 };
    if op == "reduce" && c.a.len() > 15 || bound >= 1 << 24 { return bad }
    go!(f32, "f32", exec_ring::<f32>, norm);
    bad
}

/// A matrix written out, or described by a formula (GenLarge.Elem) with one element replaced.
fn operand(x: &J) -> Vec<Vec<i64>> {
    if let J::A(_) = x { return x.rows() }
    let (g, r, c, p) = (x.g("g").i(), x.g("r").i(), x.g("c").i(), x.g("p").ints());
    let small = |i: i64, j: i64| ((i * 7 + j * 3 + i * j + g * 5) * (g + 3)) % 7;
    let e = |i: i64, j: i64| match g {
        0 => 1 + i * c + j,
        1 => 200001 + i * c + j,
        2 => 10 * (i + j) + (i * j) % 1000,
        9 if small(i, j) == 3 => 2,
        _ => small(i, j) - 3,
    };
    (0..r).map(|i| (0..c).map(|j| if p.len() == 3 && p[0] == i && p[1] == j { p[2] } else { e(i, j) }).collect()).collect()
}

fn probe_move(op: &str) -> Option<()> {
    let m = ["new", "vector", "row_vector", "clone", "rows", "cols", "get_data", "is_square", "is_not_square", "get", "get_ref", "get_mref",
        "index", "set", "set_mref", "set_data", "t", "mt", "minor", "sub_matrix", "get_column", "cr", "cb", "bitor", "permute_rows",
        "permute_columns", "select_rows", "select_columns", "filter_rows", "filter_columns", "filter_rows_calls", "filter_columns_calls"];
    if m.contains(&op) { Some(()) } else { None }
}

/// Returns (cases executed, mismatches written to stdout).
pub fn replay(path: &str, w: &Watch) -> (usize, usize) {
    let text = std::fs::read_to_string(path).expect("cases");
    let (mut n, mut bad, mut open) = (0, 0, 0);
    for (i, line) in text.lines().enumerate() {
        if line.trim().is_empty() { continue }
        let j = J::parse(line);
        w.at(i as u64, line);
        let want = match Out::from_json(j.g("x")) { Some(o) => o, None => { open += 1; continue } };
        let c = Case { op: j.g("op").s().to_string(), a: operand(j.g("a")), b: operand(j.g("b")), n: j.g("n").ints(), want };
        n += 1;
        for f in [0xFFu8, 0x3F].iter() {
            fill(*f);
            let r = one(&c);
            fill(0xFF);
            if let Some((ty, got)) = r.into_iter().next() {
                bad += 1;
                if bad <= 20 {
                    let mut o = j.clone();
                    if let J::O(ref mut m) = o { m.insert("got".to_string(), got.json()); m.insert("type".to_string(), J::st(ty)); }
                    println!("MISMATCH {}", o.text());
                }
                break;
            }
        }
    }
    println!("REPLAYED {} open {} mismatches {}", n, open, bad);
    (n, bad)
}
