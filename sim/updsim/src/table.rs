//! Reads a generated target table back: a small tokenizer and evaluator for the Rust items in it.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Str(String),
    Num(String),
    P(char),
    PathSep,
}
fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            if i + 1 >= c.len() {
                return Err("a comment does not end".into());
            }
            i += 2;
        } else if ch == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("a string does not end".into()),
                    Some('"') => break,
                    Some('\\') => {
                        i += 1;
                        match c.get(i) {
                            Some('n') => t.push('\n'),
                            Some('t') => t.push('\t'),
                            Some(x) => t.push(*x),
                            None => return Err("a string does not end".into()),
                        }
                    }
                    Some(x) => t.push(*x),
                }
                i += 1;
            }
            i += 1;
            v.push(Tok::Str(t));
        } else if ch.is_alphabetic() || ch == '_' {
            let a = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            v.push(Tok::Id(c[a..i].iter().collect()));
        } else if ch.is_ascii_digit() {
            let a = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            v.push(Tok::Num(c[a..i].iter().filter(|x| **x != '_').collect()));
        } else if ch == ':' && c.get(i + 1) == Some(&':') {
            v.push(Tok::PathSep);
            i += 2;
        } else {
            v.push(Tok::P(ch));
            i += 1;
        }
    }
    Ok(v)
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Str(String),
    Num(String),
    List(Vec<V>),
    /// a value made by `Type::new_const(x)`
    New(String, Box<V>),
    Some(Box<V>),
    None,
    Struct(BTreeMap<String, V>),
    /// an enum variant
    Sym(String, Vec<V>),
}
struct Def {
    n: usize,
    expr: Vec<Tok>,
    ty: Vec<Tok>,
}
/// One row, in plain values.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Entry {
    pub triple: String,
    pub os: Option<String>,
    pub abi: Option<String>,
    pub arch: String,
    pub env: Option<String>,
    pub vendor: Option<String>,
    pub families: Vec<String>,
    pub pointer_width: String,
    pub endian: String,
    pub atomics: Vec<String>,
    pub panic: String,
}
pub struct Table {
    pub version: String,
    pub entries: Vec<Entry>,
}
fn skip_group(t: &[Tok], mut i: usize) -> Result<usize, String> {
    let mut d = 0i32;
    while i < t.len() {
        match t[i] {
            Tok::P('(') | Tok::P('[') | Tok::P('{') => d += 1,
            Tok::P(')') | Tok::P(']') | Tok::P('}') => {
                d -= 1;
                if d == 0 {
                    return Ok(i + 1);
                }
            }
            _ => {}
        }
        i += 1;
    }
    Err("a bracket is not closed".into())
}
fn upto(t: &[Tok], mut i: usize, end: char) -> Result<usize, String> {
    while i < t.len() {
        match &t[i] {
            Tok::P(c) if *c == end => return Ok(i),
            Tok::P('(') | Tok::P('[') | Tok::P('{') => i = skip_group(t, i)?,
            Tok::P(')') | Tok::P(']') | Tok::P('}') => return Err(format!("unexpected bracket before {end:?}")),
            _ => i += 1,
        }
    }
    Err(format!("the file ends where {end:?} is expected"))
}
fn items(t: &[Tok], scope: &str, defs: &mut BTreeMap<String, Def>) -> Result<(), String> {
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            Tok::P('#') => {
                i += 1;
                if t.get(i) == Some(&Tok::P('!')) {
                    i += 1;
                }
                i = skip_group(t, i)?;
            }
            Tok::Id(k) if k == "use" => i = upto(t, i, ';')? + 1,
            Tok::Id(k) if k == "pub" => {
                i += 1;
                if t.get(i) == Some(&Tok::P('(')) {
                    i = skip_group(t, i)?;
                }
            }
            Tok::Id(k) if k == "const" || k == "static" => {
                let Some(Tok::Id(name)) = t.get(i + 1) else { return Err("a constant without a name".into()) };
                let eq = upto(t, i, '=')?;
                let end = upto(t, eq, ';')?;
                let key = if scope.is_empty() { name.clone() } else { format!("{scope}::{name}") };
                let d = defs.entry(key).or_insert(Def { n: 0, expr: vec![], ty: vec![] });
                d.n += 1;
                d.ty = t[(i + 3).min(eq)..eq].to_vec();
                d.expr = t[eq + 1..end].to_vec();
                i = end + 1;
            }
            Tok::Id(k) if k == "impl" => {
                let mut ty = String::new();
                i += 1;
                while i < t.len() && t[i] != Tok::P('{') {
                    if let Tok::Id(x) = &t[i] {
                        ty = x.clone();
                    }
                    i += 1;
                }
                let end = skip_group(t, i)?;
                items(&t[i + 1..end - 1], &ty, defs)?;
                i = end;
            }
            x => return Err(format!("unexpected {x:?}")),
        }
    }
    Ok(())
}
struct Ev<'a> {
    defs: &'a BTreeMap<String, Def>,
    depth: usize,
}
const ENUMS: [&str; 2] = ["Endian", "HasAtomic"];
impl Ev<'_> {
    fn all(&mut self, t: &[Tok]) -> Result<V, String> {
        let mut i = 0;
        let v = self.expr(t, &mut i)?;
        if i != t.len() {
            return Err(format!("unexpected {:?} after an expression", t[i]));
        }
        Ok(v)
    }
    fn list(&mut self, t: &[Tok]) -> Result<Vec<V>, String> {
        let mut i = 0;
        let mut v = vec![];
        while i < t.len() {
            v.push(self.expr(t, &mut i)?);
            if i < t.len() {
                if t[i] != Tok::P(',') {
                    return Err(format!("unexpected {:?} in a list", t[i]));
                }
                i += 1;
            }
        }
        Ok(v)
    }
    fn def(&mut self, name: &str) -> Result<V, String> {
        let d = self.defs.get(name).ok_or_else(|| format!("{name} is not defined"))?;
        if d.n != 1 {
            return Err(format!("{name} is defined {} times", d.n));
        }
        self.depth += 1;
        if self.depth > 20 {
            return Err(format!("{name} is defined by itself"));
        }
        let v = self.all(&d.expr);
        self.depth -= 1;
        v
    }
    fn expr(&mut self, t: &[Tok], i: &mut usize) -> Result<V, String> {
        match t.get(*i) {
            Some(Tok::P('&')) => {
                *i += 1;
                self.expr(t, i)
            }
            Some(Tok::Str(s)) => {
                *i += 1;
                Ok(V::Str(s.clone()))
            }
            Some(Tok::Num(s)) => {
                *i += 1;
                Ok(V::Num(s.clone()))
            }
            Some(Tok::P('[')) => {
                let e = skip_group(t, *i)?;
                let v = self.list(&t[*i + 1..e - 1])?;
                *i = e;
                Ok(V::List(v))
            }
            Some(Tok::Id(_)) => {
                let mut path = vec![];
                loop {
                    match t.get(*i) {
                        Some(Tok::Id(x)) => path.push(x.clone()),
                        x => return Err(format!("unexpected {x:?} in a path")),
                    }
                    *i += 1;
                    if t.get(*i) == Some(&Tok::PathSep) {
                        *i += 1;
                    } else {
                        break;
                    }
                }
                while path.len() > 1 && ["super", "self", "crate", "targets"].contains(&path[0].as_str()) {
                    path.remove(0);
                }
                let args = if t.get(*i) == Some(&Tok::P('(')) {
                    let e = skip_group(t, *i)?;
                    let v = self.list(&t[*i + 1..e - 1])?;
                    *i = e;
                    Some(v)
                } else {
                    None
                };
                let p: Vec<&str> = path.iter().map(|x| x.as_str()).collect();
                match (&p[..], args) {
                    (["None"], None) => Ok(V::None),
                    (["Some"], Some(mut a)) if a.len() == 1 => Ok(V::Some(Box::new(a.remove(0)))),
                    ([ty, "new_const"], Some(mut a)) if a.len() == 1 => Ok(V::New(ty.to_string(), Box::new(a.remove(0)))),
                    ([ty], None) if t.get(*i) == Some(&Tok::P('{')) && ty.chars().next().unwrap().is_uppercase() => {
                        let e = skip_group(t, *i)?;
                        let b = &t[*i + 1..e - 1];
                        *i = e;
                        let mut m = BTreeMap::new();
                        let mut k = 0;
                        while k < b.len() {
                            let Tok::Id(f) = &b[k] else { return Err(format!("unexpected {:?} in a struct", b[k])) };
                            if b.get(k + 1) != Some(&Tok::P(':')) {
                                return Err(format!("field {f} has no value"));
                            }
                            k += 2;
                            let v = self.expr(b, &mut k)?;
                            if m.insert(f.clone(), v).is_some() {
                                return Err(format!("field {f} is given twice"));
                            }
                            if k < b.len() {
                                if b[k] != Tok::P(',') {
                                    return Err(format!("unexpected {:?} in a struct", b[k]));
                                }
                                k += 1;
                            }
                        }
                        Ok(V::Struct(m))
                    }
                    ([ty, v], a) if ENUMS.contains(ty) => Ok(V::Sym(v.to_string(), a.unwrap_or_default())),
                    ([name], None) => self.def(name),
                    ([ty, name], None) => self.def(&format!("{ty}::{name}")),
                    _ => Err(format!("cannot evaluate {}", p.join("::"))),
                }
            }
            x => Err(format!("unexpected {x:?} in an expression")),
        }
    }
}
fn named(v: &V, ty: &str) -> Result<String, String> {
    match v {
        V::New(t, x) if t == ty => match &**x {
            V::Str(s) => Ok(s.clone()),
            x => Err(format!("a {ty} made from {x:?}")),
        },
        x => Err(format!("{x:?} where a {ty} should be")),
    }
}
fn opt(v: &V, ty: &str) -> Result<Option<String>, String> {
    match v {
        V::None => Ok(None),
        V::Some(x) => Ok(Some(named(x, ty)?)),
        x => Err(format!("{x:?} where an Option<{ty}> should be")),
    }
}
fn elems<'a>(v: &'a V, ty: &str) -> Result<&'a [V], String> {
    match v {
        V::New(t, x) if t == ty => match &**x {
            V::List(l) => Ok(l),
            x => Err(format!("a {ty} made from {x:?}")),
        },
        x => Err(format!("{x:?} where {ty} should be")),
    }
}
pub fn read(text: &[u8]) -> Result<Table, String> {
    let s = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    let t = lex(s)?;
    let mut defs = BTreeMap::new();
    items(&t, "", &mut defs)?;
    for (k, d) in &defs {
        if d.n != 1 {
            return Err(format!("{k} is defined {} times", d.n));
        }
    }
    let mut ev = Ev { defs: &defs, depth: 0 };
    // every definition must make sense, and have the type it claims
    for (k, d) in &defs {
        let v = ev.def(k)?;
        if let (Some((scope, _)), V::New(ty, _)) = (k.split_once("::"), &v) {
            if ty != scope || d.ty.last() != Some(&Tok::Id(scope.to_string())) {
                return Err(format!("{k} is a {ty}"));
            }
        }
    }
    let V::Str(version) = ev.def("RUSTC_VERSION")? else { return Err("RUSTC_VERSION is not a string".into()) };
    let V::List(rows) = ev.def("ALL_BUILTINS")? else { return Err("ALL_BUILTINS is not a list".into()) };
    let mut entries = vec![];
    for r in rows {
        let V::Struct(m) = r else { return Err(format!("{r:?} where a TargetInfo should be")) };
        let f = |k: &str| m.get(k).ok_or_else(|| format!("an entry has no {k}"));
        if m.len() != 11 {
            return Err(format!("an entry with {} fields", m.len()));
        }
        entries.push(Entry {
            triple: named(f("triple")?, "Triple")?,
            os: opt(f("os")?, "Os")?,
            abi: opt(f("abi")?, "Abi")?,
            arch: named(f("arch")?, "Arch")?,
            env: opt(f("env")?, "Env")?,
            vendor: opt(f("vendor")?, "Vendor")?,
            families: elems(f("families")?, "Families")?.iter().map(|x| named(x, "Family")).collect::<Result<_, _>>()?,
            pointer_width: match f("pointer_width")? {
                V::Num(n) => n.clone(),
                x => return Err(format!("pointer_width {x:?}")),
            },
            endian: match f("endian")? {
                V::Sym(n, a) if a.is_empty() => n.clone(),
                x => return Err(format!("endian {x:?}")),
            },
            atomics: elems(f("has_atomics")?, "HasAtomics")?
                .iter()
                .map(|x| match x {
                    V::Sym(n, a) if n == "Pointer" && a.is_empty() => Ok("ptr".to_string()),
                    V::Sym(n, a) if n == "IntegerSize" && a.len() == 1 => match &a[0] {
                        V::Num(n) => Ok(n.clone()),
                        x => Err(format!("IntegerSize({x:?})")),
                    },
                    x => Err(format!("{x:?} where a HasAtomic should be")),
                })
                .collect::<Result<_, _>>()?,
            panic: named(f("panic")?, "Panic")?,
        });
    }
    Ok(Table { version, entries })
}
/// What the stand-in for rustfmt makes of a file (see simio.c); a file is formatted if it is its own image.
pub fn formatted(text: &[u8]) -> bool {
    let mut out = Vec::with_capacity(text.len());
    let mut blank = true;
    for line in text.split(|b| *b == b'\n') {
        let ws = |b: &u8| *b == b' ' || *b == b'\t' || *b == b'\r';
        let a = line.iter().position(|b| !ws(b)).unwrap_or(line.len());
        let b = line.iter().rposition(|b| !ws(b)).map(|x| x + 1).unwrap_or(a);
        if a == b {
            if blank {
                continue;
            }
            blank = true;
        } else {
            blank = false;
        }
        out.extend_from_slice(&line[a..b]);
        out.push(b'\n');
    }
    while out.len() > 1 && out.ends_with(b"\n\n") {
        out.pop();
    }
    out == text
}
