//! PRNG, hashing and a small JSON.
use std::collections::BTreeMap;

pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn h2(a: u64, b: u64) -> u64 {
    mix64(a.wrapping_mul(0x9e3779b97f4a7c15) ^ mix64(b.wrapping_add(0x9e3779b97f4a7c15)))
}
pub fn hs(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix64(h ^ s.len() as u64)
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix64(seed ^ 0x5851f42d4c957f2d))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix64(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() >> 11) as usize % n
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
impl J {
    pub fn obj() -> J {
        J::Obj(BTreeMap::new())
    }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::Obj(m) = &mut self {
            m.insert(k.into(), v.into());
        }
        self
    }
    pub fn set(&mut self, k: &str, v: impl Into<J>) {
        if let J::Obj(m) = self {
            m.insert(k.into(), v.into());
        }
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Int(i) => *i as u64,
            J::Num(f) => *f as u64,
            J::Bool(b) => *b as u64,
            _ => 0,
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            J::Int(i) => *i as i64,
            J::Num(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn f(&self) -> f64 {
        match self {
            J::Int(i) => *i as f64,
            J::Num(f) => *f,
            _ => 0.0,
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn write(&self, out: &mut String, ind: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Num(f) => {
                if f.is_finite() {
                    out.push_str(&format!("{f:?}"))
                } else {
                    out.push('0')
                }
            }
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                let flat = v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    } else if i > 0 {
                        out.push(' ');
                    }
                    x.write(out, ind + 1);
                }
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                let flat = m.values().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    } else if i > 0 {
                        out.push(' ');
                    }
                    J::Str(k.clone()).write(out, 0);
                    out.push_str(": ");
                    x.write(out, ind + 1);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b = t.as_bytes();
        let mut p = 0;
        let v = pv(b, &mut p, t)?;
        ws(b, &mut p);
        if p != b.len() {
            return Err("trailing text".into());
        }
        Ok(v)
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}
fn pv(b: &[u8], p: &mut usize, t: &str) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        None => Err("end of text".into()),
        Some(b'{') => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b'}') {
                    *p += 1;
                    return Ok(J::Obj(m));
                }
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                    continue;
                }
                let k = match pv(b, p, t)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err("colon".into());
                }
                *p += 1;
                m.insert(k, pv(b, p, t)?);
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b']') {
                    *p += 1;
                    return Ok(J::Arr(v));
                }
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                    continue;
                }
                v.push(pv(b, p, t)?);
            }
        }
        Some(b'"') => {
            *p += 1;
            let mut s = String::new();
            loop {
                let rest = &t[*p..];
                let c = rest.chars().next().ok_or("string")?;
                *p += c.len_utf8();
                match c {
                    '"' => return Ok(J::Str(s)),
                    '\\' => {
                        let e = b.get(*p).copied().ok_or("escape")?;
                        *p += 1;
                        match e {
                            b'n' => s.push('\n'),
                            b't' => s.push('\t'),
                            b'r' => s.push('\r'),
                            b'b' => s.push('\u{8}'),
                            b'f' => s.push('\u{c}'),
                            b'u' => {
                                let h = u32::from_str_radix(t.get(*p..*p + 4).ok_or("u")?, 16).map_err(|e| e.to_string())?;
                                *p += 4;
                                s.push(char::from_u32(h).unwrap_or('\u{fffd}'));
                            }
                            c => s.push(c as char),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        Some(_) => {
            let st = *p;
            while *p < b.len() && !b",]} \n\t\r".contains(&b[*p]) {
                *p += 1;
            }
            let w = &t[st..*p];
            match w {
                "null" => Ok(J::Null),
                "true" => Ok(J::Bool(true)),
                "false" => Ok(J::Bool(false)),
                _ => {
                    if let Ok(i) = w.parse::<i128>() {
                        Ok(J::Int(i))
                    } else {
                        w.parse::<f64>().map(J::Num).map_err(|_| format!("bad token {w}"))
                    }
                }
            }
        }
    }
}
macro_rules! from_int {
    ($($t:ty)*) => {$(impl From<$t> for J { fn from(v: $t) -> J { J::Int(v as i128) } })*};
}
from_int!(u8 u32 u64 usize i32 i64);
impl From<bool> for J {
    fn from(v: bool) -> J {
        J::Bool(v)
    }
}
impl From<f64> for J {
    fn from(v: f64) -> J {
        J::Num(v)
    }
}
impl From<&str> for J {
    fn from(v: &str) -> J {
        J::Str(v.into())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::Str(v)
    }
}
impl From<Vec<J>> for J {
    fn from(v: Vec<J>) -> J {
        J::Arr(v)
    }
}
