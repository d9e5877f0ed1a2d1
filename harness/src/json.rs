// Just enough JSON for the records exchanged with TLC: objects, arrays, strings, integers, booleans.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}

impl J {
    pub fn i(&self) -> i64 { if let J::I(x) = self { *x } else { panic!("not an integer: {:?}", self) } }
    pub fn s(&self) -> &str { if let J::S(x) = self { x } else { panic!("not a string: {:?}", self) } }
    pub fn a(&self) -> &[J] { if let J::A(x) = self { x } else { panic!("not an array: {:?}", self) } }
    pub fn has(&self, k: &str) -> bool { if let J::O(m) = self { m.contains_key(k) } else { false } }
    pub fn g(&self, k: &str) -> &J {
        if let J::O(m) = self { m.get(k).unwrap_or_else(|| panic!("no field {} in {:?}", k, self)) } else { panic!("not an object") }
    }
    pub fn ints(&self) -> Vec<i64> { self.a().iter().map(|x| x.i()).collect() }
    pub fn rows(&self) -> Vec<Vec<i64>> { self.a().iter().map(|x| x.ints()).collect() }
    pub fn obj(f: Vec<(&str, J)>) -> J { J::O(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
    pub fn ai(v: &[i64]) -> J { J::A(v.iter().map(|x| J::I(*x)).collect()) }
    pub fn am(v: &[Vec<i64>]) -> J { J::A(v.iter().map(|x| J::ai(x)).collect()) }
    pub fn st(s: &str) -> J { J::S(s.to_string()) }

    pub fn write(&self, o: &mut String) {
        match self {
            J::I(x) => o.push_str(&x.to_string()),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(',') }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { o.push(',') }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p);
        v
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() { *p += 1 }
}
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            let mut m = BTreeMap::new();
            *p += 1;
            loop {
                ws(b, p);
                if b[*p] == b'}' { *p += 1; return J::O(m) }
                if b[*p] == b',' { *p += 1; continue }
                let k = if let J::S(k) = val(b, p) { k } else { panic!("bad key") };
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let v = val(b, p);
                m.insert(k, v);
            }
        }
        b'[' => {
            let mut v = vec![];
            *p += 1;
            loop {
                ws(b, p);
                if b[*p] == b']' { *p += 1; return J::A(v) }
                if b[*p] == b',' { *p += 1; continue }
                v.push(val(b, p));
            }
        }
        b'"' => {
            *p += 1;
            let mut s = vec![];
            while b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    match b[*p] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'r' => s.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                            let c = std::char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                            s.extend_from_slice(c.to_string().as_bytes());
                            *p += 4;
                        }
                        c => s.push(c),
                    }
                } else {
                    s.push(b[*p]);
                }
                *p += 1;
            }
            *p += 1;
            J::S(String::from_utf8(s).unwrap())
        }
        b't' => { *p += 4; J::B(true) }
        b'f' => { *p += 5; J::B(false) }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1 }
            J::I(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("number"))
        }
    }
}
