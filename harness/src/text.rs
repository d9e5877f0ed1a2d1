// Replays cases about text: reading CSV files and debug renderings.
use crate::alloc::fill;
use crate::json::J;
use crate::watch::Watch;
use la::util::read_csv;
use la::Matrix;
use std::cell::RefCell;
use std::fmt;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

const INVALID: i64 = 1114112;
/// The bytes of a sequence of character codes; invalid stands in turn for several byte sequences that are not UTF-8.
fn bytes(s: &[i64]) -> Vec<u8> {
    let bad: [&[u8]; 6] = [&[0xFF], &[0xC3], &[0xFE], &[0xED, 0xA0, 0x80], &[0xC0, 0xAF], &[0xF4, 0x90, 0x80, 0x80]];
    let mut v = vec![];
    for (i, c) in s.iter().enumerate() {
        if *c == INVALID { v.extend_from_slice(bad[(i + s.len()) % bad.len()]) }
        else { v.extend_from_slice(std::char::from_u32(*c as u32).unwrap().to_string().as_bytes()) }
    }
    v
}
fn codes(s: &str) -> J { J::A(s.chars().map(|c| J::I(c as i64)).collect()) }

thread_local! { static TEXTS: RefCell<Vec<String>> = RefCell::new(vec![]); }
/// An element whose debug rendering is a given text.
#[derive(Clone, Copy, PartialEq)]
struct Text(usize);
impl fmt::Debug for Text { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let s = TEXTS.with(|t| t.borrow()[self.0].clone()); f.write_str(&s) } }

fn run(j: &J, dir: &str) -> J {
    let rej = || J::obj(vec![("k", J::st("rej"))]);
    match j.g("op").s() {
        "debug" => {
            let m: Vec<Vec<String>> = j.g("m").a().iter().map(|r| r.a().iter().map(|t| String::from_utf8(bytes(&t.ints())).unwrap()).collect()).collect();
            TEXTS.with(|t| *t.borrow_mut() = m.iter().flat_map(|r| r.iter().cloned()).collect());
            let a = Matrix::new(m.len(), m[0].len(), (0..m.len() * m[0].len()).map(Text).collect());
            match catch_unwind(AssertUnwindSafe(|| format!("{:?}", a))) { Ok(s) => J::obj(vec![("k", J::st("text")), ("s", codes(&s))]), Err(_) => rej() }
        }
        op => {
            let path = format!("{}/read.csv", dir);
            let name = match op { "csv_missing" => format!("{}/no such file", dir), "csv_directory" => dir.to_string(), _ => { std::fs::write(&path, bytes(&j.g("s").ints())).expect("scratch file"); path.clone() } };
            let seen: RefCell<Vec<String>> = RefCell::new(vec![]);
            let parser = |s: &str| -> usize { seen.borrow_mut().push(s.to_string()); seen.borrow().len() - 1 };
            let r = catch_unwind(AssertUnwindSafe(|| read_csv(&name, &parser)));
            std::fs::remove_file(&path).ok();
            match r {
                Ok(m) => {
                    let d = m.get_data();
                    let c = if m.rows() == 0 { 0 } else { d.len() / m.rows() };
                    if c == 0 || c * m.rows() != d.len() || c != m.cols() { return J::obj(vec![("k", J::st("malformed"))]) }
                    let s = seen.borrow();
                    J::obj(vec![("k", J::st("mat")), ("m", J::A((0..m.rows()).map(|i| J::A((0..c).map(|k| codes(&s[d[i * c + k]])).collect())).collect()))])
                }
                Err(_) => rej(),
            }
        }
    }
}

pub fn replay(path: &str, w: &Watch) -> usize {
    let dir = format!("{}.{}.scratch", path, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let (mut n, mut bad) = (0, 0);
    for line in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines() {
        let line = line.unwrap();
        let j = J::parse(&line);
        w.at(n, &line);
        n += 1;
        fill(if n % 2 == 0 { 0xFF } else { 0x31 });
        let got = run(&j, &dir);
        if got != *j.g("x") {
            bad += 1;
            if bad <= 20 { let mut o = j.clone(); if let J::O(ref mut m) = o { m.insert("got".to_string(), got); } println!("MISMATCH {}", o.text()); }
        }
    }
    std::fs::remove_dir(&dir).ok();
    println!("REPLAYED {} open 0 mismatches {}", n, bad);
    std::io::stdout().flush().ok();
    bad
}

const MARK: char = '\u{1e}';
/// A matrix of a built-in element type with the renderings of its elements and itself; a printing process prints it instead.
fn one<T: Copy + fmt::Debug>(ty: &str, m: usize, n: usize, print: bool, g: &mut dyn FnMut() -> T) -> J {
    let d: Vec<T> = (0..m * n).map(|_| g()).collect();
    if print { let _ = catch_unwind(AssertUnwindSafe(|| Matrix::new(m, n, d).print())); print!("{}", MARK); return J::I(0) }
    let t: Vec<J> = d.iter().map(|x| codes(&format!("{:?}", x))).collect();
    let s = match catch_unwind(AssertUnwindSafe(|| format!("{:?}", Matrix::new(m, n, d)))) { Ok(s) => codes(&s), Err(_) => J::A(vec![]) };
    J::obj(vec![("ty", J::st(ty)), ("m", J::A(t.chunks(n).map(|r| J::A(r.to_vec())).collect())), ("s", s)])
}
fn some(seed: u64, i: usize, print: bool) -> J {
    let mut g = crate::rng::Rng::new(seed ^ 0x4444, i as u64);
    let (m, n) = if g.chance(60) { let k = 1 + g.below(300); let l = 1 + g.below(1 + 1500 / k.max(30)); if g.chance(2) { (k, l) } else { (l, k) } }
        else if g.chance(12) { (1 + g.below(20), 1 + g.below(20)) } else { (1 + g.below(5), 1 + g.below(5)) };
    match g.below(6) {
        0 => one::<i32>("i32", m, n, print, &mut || { let w = g.range(0, 31); g.range(-(1 << w), (1 << w) - 1) as i32 }),
        1 => one::<f64>("f64", m, n, print, &mut || match g.below(8) { 0 => f64::NAN, 1 => f64::NEG_INFINITY, 2 => -0.0, 3 => g.unit() * 1e300, 4 => 3.0, _ => g.unit() * 20.0 - 10.0 }),
        2 => one::<f32>("f32", m, n, print, &mut || (g.unit() * 20.0 - 10.0) as f32),
        3 => one::<bool>("bool", m, n, print, &mut || g.chance(2)),
        4 => one::<u8>("u8", m, n, print, &mut || g.below(256) as u8),
        _ => one::<Option<&'static str>>("option", m, n, print, &mut || if g.chance(2) { None } else { Some(*g.pick(&["", "a", "q\"t", "two words"])) }),
    }
}
/// Prints the matrices on the standard output.
pub fn child(seed: u64, count: usize) {
    for i in 0..count { fill(if i % 2 == 0 { 0xFF } else { 0x31 }); some(seed, i, true); }
    std::io::stdout().flush().ok();
}
/// Renderings of matrices of built-in element types, with the renderings of their elements and what another process printed.
pub fn record(seed: u64, count: usize, path: &str, w: &Watch) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("trace file"));
    w.at(0, &format!("print seed {}", seed));
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new(exe).args(&["print-child", &seed.to_string(), &count.to_string()]).output().expect("child");
    let all = String::from_utf8_lossy(&out.stdout).to_string();
    let printed: Vec<&str> = all.split(MARK).collect();
    for i in 0..count {
        w.at(i as u64, &format!("debug seed {} case {}", seed, i));
        fill(if i % 2 == 0 { 0xFF } else { 0x31 });
        let mut r = some(seed, i, false);
        if let J::O(ref mut m) = r { m.insert("p".to_string(), codes(if printed.len() == count + 1 { printed[i] } else { "?" })); }
        writeln!(f, "{}", r.text()).unwrap();
    }
}
