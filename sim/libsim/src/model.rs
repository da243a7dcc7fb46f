//! Reference model: what a well-formed configuration predicate means, written from the documented
//! grammar without looking at the library's data structures; and the generator of texts.
use crate::util::*;
use glue::simval::Term;

#[derive(Clone, Debug)]
pub enum Node {
    Pred(u32),
    Not(u32),
    List(bool, Vec<u32>), // true: any
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Key(&'a str),
    Val(&'a str),
    P(char),
    All,
    Any,
    Not,
}
pub fn strip(text: &str) -> &str {
    if text.starts_with("cfg(") && text.ends_with(')') {
        &text[4..text.len() - 1]
    } else {
        text
    }
}
/// The tokens of a text that consists of tokens only.
pub fn tokens(t: &str) -> Option<Vec<(Tok<'_>, usize, usize)>> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i..].chars().next().unwrap();
        if c.is_whitespace() {
            i += c.len_utf8();
            continue;
        }
        let st = i;
        let tok = match c {
            '=' | '(' | ')' | ',' => {
                i += 1;
                Tok::P(c)
            }
            '"' => {
                let e = t[i + 1..].find('"')?;
                i += e + 2;
                Tok::Val(&t[st + 1..i - 1])
            }
            c if c == '_' || c.is_ascii_alphabetic() => {
                while i < t.len() && (t.as_bytes()[i] == b'_' || t.as_bytes()[i].is_ascii_alphanumeric()) {
                    i += 1;
                }
                match &t[st..i] {
                    "all" => Tok::All,
                    "any" => Tok::Any,
                    "not" => Tok::Not,
                    k => Tok::Key(k),
                }
            }
            _ => return None,
        };
        v.push((tok, st, i));
    }
    Some(v)
}
pub struct Model {
    pub nodes: Vec<Node>, // operands before operators; the last is the root
    pub preds: Vec<String>,
    pub pred_hashes: Vec<u64>, // sorted
    pub toks: Vec<u64>,
    pub term: Term,
    pub depth: usize,
    /// Numbers of and, or, not operations that the structure prescribes, at least and at most.
    pub ops: [(u64, u64); 3],
}
pub fn tok_hash(desc: &str, a: usize, b: usize) -> u64 {
    h2(hs(desc), ((a as u64) << 32) | b as u64)
}
fn canon_num(v: &str, max: u32) -> bool {
    !v.is_empty() && v.len() <= 5 && v.bytes().all(|b| b.is_ascii_digit()) && (v == "0" || !v.starts_with('0')) && v.parse::<u32>().map(|n| n <= max).unwrap_or(false)
}
fn classify(k: &str, v: Option<&str>) -> Option<String> {
    Some(match (k, v) {
        ("unix" | "windows", None) => format!("family={k}"),
        ("test" | "debug_assertions" | "proc_macro", None) => k.to_string(),
        ("unix" | "windows" | "test" | "debug_assertions" | "proc_macro", Some(_)) => return None,
        ("feature", Some(v)) => format!("feature={v}"),
        ("panic", Some(v)) => format!("panic={v}"),
        ("feature" | "panic", None) => return None,
        (k, v) if k.starts_with("target_") => {
            let v = v?;
            match &k[7..] {
                "abi" | "arch" | "os" | "env" | "family" | "vendor" => format!("{}={v}", &k[7..]),
                "feature" if !v.is_empty() => format!("tfeature={v}"),
                "endian" if v == "big" || v == "little" => format!("endian={v}"),
                "has_atomic" if v == "ptr" || canon_num(v, 65535) => format!("atomic={v}"),
                "pointer_width" if canon_num(v, 255) => format!("width={v}"),
                _ => return None,
            }
        }
        (k, None) => format!("flag:{k}"),
        (k, Some(v)) => format!("kv:{k}={v}"),
    })
}
impl Model {
    /// The meaning of `text`, if it is plainly well-formed.
    pub fn parse(text: &str) -> Option<Model> {
        let t = strip(text);
        let toks = tokens(t)?;
        let mut m = Model { nodes: vec![], preds: vec![], pred_hashes: vec![], toks: vec![], term: Term::top(), depth: 0, ops: [(0, 0); 3] };
        let mut st: Vec<(u8, Vec<u32>)> = vec![];
        let mut i = 0;
        let mut root = None;
        let mut after_comma = false;
        while i < toks.len() {
            if root.is_some() {
                return None;
            }
            let item: Option<u32> = match &toks[i].0 {
                f @ (Tok::All | Tok::Any | Tok::Not) => {
                    if !matches!(toks.get(i + 1), Some((Tok::P('('), _, _))) {
                        return None;
                    }
                    st.push((match f { Tok::All => 0, Tok::Any => 1, _ => 2 }, vec![]));
                    m.depth = m.depth.max(st.len());
                    i += 2;
                    after_comma = false;
                    None
                }
                Tok::Key(k) => {
                    let p = if let (Some((Tok::P('='), _, _)), Some((Tok::Val(v), _, _))) = (toks.get(i + 1), toks.get(i + 2)) {
                        i += 3;
                        classify(k, Some(v))?
                    } else {
                        i += 1;
                        classify(k, None)?
                    };
                    m.preds.push(p);
                    m.nodes.push(Node::Pred(m.preds.len() as u32 - 1));
                    Some(m.nodes.len() as u32 - 1)
                }
                Tok::P(')') => None,
                _ => return None,
            };
            // complete items
            let mut cur = item;
            loop {
                if let Some(c) = cur.take() {
                    match st.last_mut() {
                        None => {
                            root = Some(c);
                            break;
                        }
                        Some(f) => f.1.push(c),
                    }
                    match toks.get(i) {
                        Some((Tok::P(','), _, _)) => {
                            i += 1;
                            after_comma = true;
                            break;
                        }
                        Some((Tok::P(')'), _, _)) => after_comma = false,
                        _ => return None,
                    }
                } else if !matches!(toks.get(i), Some((Tok::P(')'), _, _))) {
                    break;
                }
                // at a ')'
                let (k, ch) = st.pop()?;
                i += 1;
                if after_comma && (ch.is_empty() || k == 2) {
                    return None;
                }
                after_comma = false;
                let n = match k {
                    2 => {
                        if ch.len() != 1 {
                            return None;
                        }
                        Node::Not(ch[0])
                    }
                    k => Node::List(k == 1, ch),
                };
                m.nodes.push(n);
                cur = Some(m.nodes.len() as u32 - 1);
            }
        }
        root?;
        if !st.is_empty() {
            return None;
        }
        let mut terms: Vec<Term> = Vec::with_capacity(m.nodes.len());
        for n in &m.nodes {
            match n {
                Node::Pred(_) => {}
                Node::Not(_) => m.ops[2] = (m.ops[2].0 + 1, m.ops[2].1 + 1),
                Node::List(any, cs) => {
                    let unit = if *any { Term::bottom() } else { Term::top() };
                    let real = cs.iter().filter(|c| terms[**c as usize] != unit).count() as u64;
                    let o = &mut m.ops[*any as usize];
                    *o = (o.0 + real.saturating_sub(1), o.1 + cs.len() as u64);
                }
            }
            let t = match n {
                Node::Pred(p) => Term::leaf(&m.preds[*p as usize]),
                Node::Not(c) => terms[*c as usize].not(),
                Node::List(any, cs) => cs.iter().fold(if *any { Term::bottom() } else { Term::top() }, |a, c| {
                    if *any { a.or(&terms[*c as usize]) } else { a.and(&terms[*c as usize]) }
                }),
            };
            terms.push(t);
        }
        m.term = *terms.last()?;
        m.pred_hashes = m.preds.iter().map(|p| hs(p)).collect();
        m.pred_hashes.sort_unstable();
        m.toks = toks
            .iter()
            .map(|(t, a, b)| {
                let d = match t {
                    Tok::Key(k) => format!("Key({k})"),
                    Tok::Val(v) => format!("Value({v})"),
                    Tok::P(c) => c.to_string(),
                    Tok::All => "All".into(),
                    Tok::Any => "Any".into(),
                    Tok::Not => "Not".into(),
                };
                tok_hash(&d, *a, *b)
            })
            .collect();
        Some(m)
    }
    /// Kleene evaluation.
    pub fn eval(&self, f: &dyn Fn(&str) -> Option<bool>) -> Option<bool> {
        let mut v: Vec<Option<bool>> = Vec::with_capacity(self.nodes.len());
        for n in &self.nodes {
            let r = match n {
                Node::Pred(p) => f(&self.preds[*p as usize]),
                Node::Not(c) => v[*c as usize].map(|b| !b),
                Node::List(any, cs) => {
                    let mut r = Some(!*any);
                    for c in cs {
                        let x = v[*c as usize];
                        if x == Some(*any) {
                            r = Some(*any);
                            break;
                        }
                        if x.is_none() {
                            r = None;
                        }
                    }
                    r
                }
            };
            v.push(r);
        }
        v.last().copied().flatten()
    }
}

// ------------------------------------------------------------------ generator
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Mixed,
    Valid,
    Wide,
    Deep,
    Huge,
    Bad,
}
const KV: &[(&str, &[&str])] = &[
    ("target_os", &["linux", "windows", "macos", "none", "android", "ios", "wasi", "hermit", "freebsd", "netbsd", "openbsd", "solaris", "illumos", "haiku", "redox", "macosx", "aix", "psp", "zkvm", "hurd", "nosuch"]),
    ("target_arch", &["x86", "x86_64", "arm", "aarch64", "wasm32", "riscv64", "mips32r6", "bpf", "mips", "s390x", "avr", "sparc", "nosuch"]),
    ("target_env", &["gnu", "musl", "msvc", "", "uclibc", "p1", "p2", "sgx", "nto70", "nto71", "nto80"]),
    ("target_vendor", &["unknown", "apple", "pc", "espressif", "nosuch", "sun", "wrs", "uwp", "kmc", "ibm", "sony"]),
    ("target_abi", &["eabihf", "sim", "", "x32"]),
    ("target_family", &["unix", "windows", "wasm", "nosuch"]),
    ("target_endian", &["big", "little"]),
    ("target_has_atomic", &["8", "16", "32", "64", "128", "ptr", "7"]),
    ("target_pointer_width", &["16", "32", "64", "128", "7"]),
    ("target_feature", &["sse2", "crt-static", "neon", "a b"]),
    ("panic", &["unwind", "abort"]),
    ("feature", &["std", "serde", "", "long-feature-name_with.dots", "dep:x/y"]),
    ("foo", &["bar", "baz", "", "a,b(c)=d", "\u{e9}t\u{e9}"]),
    ("loom", &["1", "2"]),
];
const BARE: &[&str] = &["unix", "windows", "test", "debug_assertions", "proc_macro", "bare", "loom", "miri", "allx", "_any", "Not", "docsrs", "x"];

fn sp(r: &mut Rng, style: u32, out: &mut String) {
    match style {
        0 => {}
        1 => {
            if r.chance(1, 3) {
                out.push(' ')
            }
        }
        _ => {
            for _ in 0..r.below(3) {
                out.push(*r.pick(&[' ', '\n', '\t', '\u{a0}', '\u{3000}']))
            }
        }
    }
}
fn pred(r: &mut Rng, style: u32, out: &mut String) {
    match r.below(10) {
        0..=2 => out.push_str(r.pick(BARE)),
        3 => out.push_str(&format!("flag_{}", r.below(50))),
        4 => {
            out.push_str(&format!("key{}", r.below(8)));
            sp(r, style, out);
            out.push('=');
            sp(r, style, out);
            let n = r.below(100000);
            out.push_str(&format!("\"v{n}\""));
        }
        _ => {
            let (k, vs) = *r.pick(KV);
            out.push_str(k);
            sp(r, style, out);
            out.push('=');
            sp(r, style, out);
            out.push('"');
            out.push_str(r.pick(vs));
            out.push('"');
        }
    }
}
fn expr(r: &mut Rng, style: u32, depth: usize, budget: &mut i32, out: &mut String) {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || r.chance(2, 5) {
        return pred(r, style, out);
    }
    let f = r.below(5);
    if f == 0 {
        out.push_str("not");
        sp(r, style, out);
        out.push('(');
        sp(r, style, out);
        expr(r, style, depth - 1, budget, out);
        sp(r, style, out);
        out.push(')');
        return;
    }
    out.push_str(if f < 3 { "all" } else { "any" });
    sp(r, style, out);
    out.push('(');
    let n = *r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 9]);
    let mut last = out.len();
    for i in 0..n {
        let end = out.len();
        if i > 0 {
            out.push(',');
        }
        if i > 0 && end - last < 60 && r.chance(1, 7) {
            // the operand before once more
            let again = out[last..end].to_string();
            last = out.len();
            out.push_str(&again);
            continue;
        }
        last = out.len();
        sp(r, style, out);
        expr(r, style, depth - 1, budget, out);
        sp(r, style, out);
    }
    if n > 0 && r.chance(1, 8) {
        out.push(',');
    }
    out.push(')');
}
fn bad_piece(r: &mut Rng) -> String {
    r.pick(&[
        "test = \"x\"", "feature", "panic", "target_os", "target_foo = \"x\"", "target_endian = \"middle\"", "target_has_atomic = \"x\"",
        "target_pointer_width = \"300\"", "not()", "not(a, b)", "target_feature = \"\"", "a b", "a = b", "= \"x\"", "all", "all(,)", "(a)", "a)", "\"x\"", "8",
        "unix = \"yes\"", "target_arch", "#", "\u{e9}", "a = \"unclosed", "any(a,,b)",
    ])
    .to_string()
}
/// One key with many values, preferably of one length.
fn series(r: &mut Rng) -> String {
    let (k, vs) = *r.pick(&KV[..KV.len() - 4]);
    let len = r.pick(vs).len();
    let same: Vec<&str> = vs.iter().copied().filter(|v| v.len() == len).collect();
    let mut v: Vec<String> = vec![];
    for _ in 0..r.range(2, 9) {
        let x = if r.chance(3, 4) { *r.pick(&same) } else { *r.pick(vs) };
        v.push(format!("{k} = \"{x}\""));
    }
    format!("{}({})", r.pick(&["any", "all"]), v.join(", "))
}
fn base(r: &mut Rng) -> String {
    if r.chance(1, 20) {
        return series(r);
    }
    let style = r.below(3) as u32;
    let depth = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6]);
    let mut s = String::new();
    let mut b = *r.pick(&[3, 8, 15, 30, 60]);
    expr(r, style, depth, &mut b, &mut s);
    s
}
fn wide(r: &mut Rng, lo: usize, hi: usize, fun: usize) -> String {
    let n = r.range(lo, hi);
    let mut s = String::from(*r.pick(&["all(", "any(", "not(all(", "any(x, all("]));
    let close = s.matches('(').count();
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        match if fun == 3 { r.below(3) } else { fun } {
            0 => s.push_str(&format!("k{i}")),
            1 => s.push_str(&format!("not(k{i})")),
            _ => s.push_str(&format!("{}(p{} = \"{i}\")", r.pick(&["all", "any"]), i % 7)),
        }
    }
    s.push_str(&")".repeat(close));
    s
}
fn deep(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    let mut s = String::new();
    let style = r.below(4);
    let side = r.below(3);
    let mut closers: Vec<&str> = vec![];
    for i in 0..n {
        let f = match style {
            0 => "not(",
            1 => "all(",
            2 => "any(",
            _ => r.pick(&["not(", "all(", "any("]),
        };
        s.push_str(f);
        if f != "not(" && side == 1 {
            s.push_str(["a,", "b = \"c\",", "unix,"][i % 3]);
        }
        closers.push(if f != "not(" && side == 2 { ",z)" } else { ")" });
    }
    s.push_str("core");
    for c in closers.iter().rev() {
        s.push_str(c);
    }
    s
}
pub fn corrupt(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        let n = v.len();
        match r.below(7) {
            0 => v.truncate(r.below(n + 1)),
            1 if n > 0 => {
                v.remove(r.below(n));
            }
            2 => v.insert(r.below(n + 1), *r.pick(&['"', '(', ')', ',', '=', ' ', '#', '\u{e9}', '\u{1F600}', 'a', '0', '\0'])),
            3 if n > 1 => {
                let a = r.below(n);
                let b = (a + r.range(1, 6)).min(n);
                let seg: Vec<char> = v[a..b].to_vec();
                let at = r.below(n);
                for (k, c) in seg.into_iter().enumerate() {
                    v.insert(at + k, c);
                }
            }
            4 if n > 1 => {
                let a = r.below(n - 1);
                v.swap(a, a + 1);
            }
            5 => {
                let p = bad_piece(r);
                let at = r.below(n + 1);
                for (k, c) in p.chars().enumerate() {
                    v.insert(at + k, c);
                }
            }
            _ => v.extend(r.pick(&[", b", ")", ", all(x)", "(", " = ", ","]).chars()),
        }
    }
    v.into_iter().collect()
}
/// Same length, and equal but for one character: texts that a sloppy key would confuse.
fn near(r: &mut Rng, t: &str) -> String {
    let mut b: Vec<u8> = t.bytes().collect();
    let pos: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit() || b[*i].is_ascii_lowercase()).collect();
    if pos.is_empty() {
        return format!("{t} ");
    }
    // late positions first: a common prefix as long as possible
    let i = if r.chance(1, 2) { *pos.last().unwrap() } else { *r.pick(&pos) };
    b[i] = if b[i].is_ascii_digit() { b'0' + (b[i] - b'0' + 1 + r.below(8) as u8) % 10 } else { b'a' + (b[i] - b'a' + 1 + r.below(24) as u8) % 26 };
    String::from_utf8(b).unwrap()
}
fn swap_funcs(r: &mut Rng, t: &str) -> String {
    // all <-> any at one place: same length, same predicates, another meaning
    let at: Vec<usize> = t.match_indices("all").chain(t.match_indices("any")).map(|x| x.0).collect();
    if at.is_empty() {
        return near(r, t);
    }
    let i = *r.pick(&at);
    let n = if &t[i..i + 3] == "all" { "any" } else { "all" };
    format!("{}{}{}", &t[..i], n, &t[i + 3..])
}
/// Another text of exactly the same length, alike in nothing else.
pub fn sibling(r: &mut Rng, t: &str) -> String {
    let n = t.len();
    let word = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(&['a', 'b', 'e', 'x', '_', 'Z'])).collect() };
    // the places of the quotes
    let qs: Vec<usize> = t.match_indices('"').map(|x| x.0).collect();
    let s = match r.below(12) {
        0 | 1 => word(r, n),
        8 | 9 if qs.len() >= 4 => {
            // two values and what is between them become one value
            let k = r.below(qs.len() / 2 - 1) * 2;
            format!("{}{}{}", &t[..qs[k] + 1], word(r, qs[k + 3] - qs[k] - 1), &t[qs[k + 3]..])
        }
        10 if qs.len() >= 2 => {
            // a shorter value, and something after it
            let k = r.below(qs.len() / 2) * 2;
            let m = qs[k + 1] - qs[k] - 1;
            if m < 3 {
                return near(r, t);
            }
            let v = r.below(m - 2);
            format!("{}{}\",{}{}", &t[..qs[k] + 1], word(r, v), word(r, m - v - 1), &t[qs[k + 1] + 1..])
        }
        11 => swap_funcs(r, t),
        2 if n > 6 => format!("not({})", word(r, n - 5)),
        3 if n > 8 => format!("{} = \"{}\"", word(r, 3), word(r, n - 8)),
        4 if n > 16 => format!("target_os = \"{}\"", word(r, n - 14)),
        5 if n > 8 => format!("any({},b)", word(r, n - 7)),
        6 if n > 8 => format!("all({}", word(r, n - 4)),
        _ => {
            let mut s = base(r);
            if s.len() > n {
                let k = (0..=n).rev().find(|k| s.is_char_boundary(*k)).unwrap();
                s.truncate(k);
            }
            s
        }
    };
    let pad = n.saturating_sub(s.len());
    s + &" ".repeat(pad)
}
/// One of a series of texts of length `n`; is it one with two roots and nothing else wrong?
pub fn sweep_text(r: &mut Rng, n: usize, style: usize) -> (String, bool) {
    // names that sloppy hashes confuse: few letters, blocks with equal polynomial hashes, equal ends
    let word = |r: &mut Rng, m: usize| -> String {
        let mut s = String::new();
        while s.len() < m {
            match style {
                0 => s.push(*r.pick(&['a', 'b'])),
                1 => s.push_str(r.pick(&["Aa", "BB", "C"])),
                2 => s.push((b'a' + r.below(26) as u8) as char),
                3 if s.is_empty() || s.len() + 1 == m => s.push('k'),
                _ => s.push(*r.pick(&['x', 'y', '_', 'Z', '7', 'q'])),
            }
        }
        s.truncate(m);
        if !s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
            s.replace_range(0..1, "n");
        }
        s
    };
    let s = match r.below(8) {
        0 | 1 => word(r, n),
        2 if n >= 6 => format!("not({})", word(r, n - 5)),
        3 if n >= 8 => {
            let k = r.range(1, n - 7);
            format!("{}({},{})", r.pick(&["all", "any"]), word(r, k), word(r, n - 6 - k))
        }
        4 if n >= 7 => {
            let k = r.range(1, n - 5);
            format!("{}=\"{}\"", word(r, k), word(r, n - 3 - k))
        }
        5 if n >= 6 => format!("all({}", word(r, n - 4)),
        _ => {
            let k = r.range(1, n - 2);
            let sep = *r.pick(&[" ", ",", ","]);
            let s = format!("{}{sep}{}", word(r, k), word(r, n - 1 - k));
            let key = |w: &str| !["all", "any", "not"].contains(&w);
            let ok = sep == "," && s.split(',').all(key);
            return (s, ok);
        }
    };
    (s, false)
}
/// Offsets beyond 16 bits, or unusually long words.
fn long(r: &mut Rng) -> String {
    let n = *r.pick(&[257, 1000, 65530, 70000]);
    let mut a = base(r);
    let b = base(r);
    if r.chance(1, 2) {
        a = "tail".into();
    }
    match r.below(4) {
        0 => format!("any(foo = \"{}\", {a}, {b})", "v".repeat(n)),
        1 => format!("all({b}, {}, {a}, not({b}))", "k".repeat(n)),
        2 => format!("any({a},{}{b}, not({a}))", " ".repeat(n)),
        _ => format!("all(feature = \"{}\", target_os = \"linux\", target_feature = \"{a}x\", {b})", "f".repeat(n)).replace(&format!("\"{a}x\""), "\"sse2\""),
    }
}
/// One token, or two, over and over.
pub fn runs(r: &mut Rng, a: usize, b: usize) -> String {
    let n = r.range(a, b) * 2;
    let toks = ["(", ")", ",", "=", "\"", "\"\"", "a ", "all ", "not", "a=", "a,", "not(", "all(),", "a=\"\",", "all(a", "any()", "a", " ", "\u{e9}", "7"];
    let t = if r.chance(3, 4) { r.pick(&toks).repeat(n) } else { format!("{}{}", r.pick(&toks), r.pick(&toks)).repeat(n / 2) };
    match r.below(5) {
        0 | 1 => t,
        2 => format!("all({t}"),
        3 => format!("any(a, {t})"),
        _ => format!("any(a, {t}, b)"),
    }
}
/// Text number `idx` of the pool for `seed`.
pub fn gen(seed: u64, kind: Kind, idx: u64) -> String {
    let mut r = Rng::new(h2(h2(seed, kind as u64), idx / 4));
    let mut s = match kind {
        Kind::Huge => {
            let (a, b) = if r.chance(1, 8) { (30_000, 60_000) } else { (1000, 12_000) };
            match r.below(6) {
                0 | 1 => deep(&mut r, a, b),
                2 | 3 => { let f = r.below(4); wide(&mut r, a, b, f) },
                4 => {
                    // long names, values, gaps
                    let n = r.range(a, b) * 4;
                    let (x, y) = ({ let f = r.below(4); wide(&mut r, 5, 400, f) }, deep(&mut r, 1, 400));
                    match r.below(5) {
                        0 => format!("any(foo = \"{}\", {x}, {y})", "v".repeat(n)),
                        1 => format!("all({x}, {}, {y})", "k".repeat(n)),
                        2 => format!("any({x},{}{y})", r.pick(&[" ", "\n", "\t ", "\u{3000}"]).repeat(n)),
                        3 => format!("{}{x}{}", " ".repeat(n), " ".repeat(n)),
                        _ => format!("all(feature = \"{}\", target_os = \"{}\", not({x}))", "f".repeat(n), "o".repeat(n)),
                    }
                }
                _ => runs(&mut r, a, b),
            }
        }
        Kind::Wide if idx / 4 == 5 => wide(&mut r, 65_600, 66_000, idx as usize % 4),
        Kind::Wide => match r.below(8) {
            0..=2 => { let f = r.below(4); wide(&mut r, 5, 40, f) },
            3..=5 => { let f = r.below(4); wide(&mut r, 200, 700, f) },
            6 => { let f = r.below(4); wide(&mut r, 700, 3000, f) },
            _ => base(&mut r),
        },
        Kind::Deep => deep(&mut r, 5, 200),
        _ if r.chance(1, 60) => long(&mut r),
        _ => match r.below(12) {
            0 => {
                if r.chance(1, 3) {
                    { let f = r.below(4); wide(&mut r, 30, 150, f) }
                } else {
                    { let f = r.below(4); wide(&mut r, 5, 24, f) }
                }
            }
            1 => deep(&mut r, 3, 40),
            _ => base(&mut r),
        },
    };
    // four variants of each text, alike but different
    let mut r = Rng::new(h2(h2(seed, 77 + kind as u64), idx));
    match idx % 4 {
        1 => s = near(&mut r, &s),
        2 => s = swap_funcs(&mut r, &s),
        3 => {
            s = near(&mut r, &s);
            if r.chance(1, 2) {
                s = near(&mut r, &s)
            }
        }
        _ => {}
    }
    if kind == Kind::Bad && r.chance(1, 8) {
        // an error that spans much of a text
        let w = { let f = r.below(4); wide(&mut r, 3, 50, f) };
        s = match r.below(4) {
            0 => format!("{w}, {s}"),
            1 => format!("all(not({s}, {w}), {s})"),
            2 => format!("any({s}, foo({w}))"),
            _ => format!("any({s}, x = \"{w}"),
        };
    } else if kind == Kind::Bad || (kind == Kind::Mixed && r.chance(1, 4)) {
        s = if r.chance(1, 3) {
            let p = bad_piece(&mut r);
            match r.below(4) {
                0 => p,
                1 => format!("all({p}, {s})"),
                2 => format!("any({s}, {p})"),
                _ => format!("{s}, {p}"),
            }
        } else {
            corrupt(&mut r, &s)
        };
    }
    if r.chance(1, 6) {
        s = format!("cfg({s})");
    }
    s
}
