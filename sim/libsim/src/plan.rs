//! A run: texts, what each thread does, which faults strike where, and the surroundings.
use crate::model::{gen, runs, sibling, Kind};
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ERef {
    Shared(usize),
    Own(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Bool,
    Opt,
    Val,
    Zst,
    Big,
}
/// What is formatted.
#[derive(Clone, PartialEq, Debug)]
pub enum What {
    Err(usize),       // the error of parsing text i (shared if possible)
    Reason(usize),
    Tok(usize, usize), // token k of text i
    Field(usize, usize), // field f of builtin target t
    Fams(usize),
    Atoms(usize),
    Atom(u32),
    AtomErr(usize),   // text i as has_atomic value
    MyFams(u64),      // a set made from seed
    Expr(usize),      // the expression of text i (Debug only)
}
#[derive(Clone, PartialEq, Debug)]
pub enum Do {
    Panic,
    Nest(Box<Op>),
    /// abandon: drop the iterator (listing), or nothing
    Stop,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Act {
    /// Which callback (or, if so marked, which drop of an answer value).
    pub at: u32,
    pub what: Do,
    pub on: u8,
}
/// At a callback; while the panic of this call unwinds; when an answer value is dropped.
pub const AT_CALL: u8 = 0;
pub const AT_UNWIND: u8 = 1;
pub const AT_DROP: u8 = 2;
#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Parse { t: usize, dst: usize },
    Eval { e: ERef, m: Mode, seed: u64, acts: Vec<Act> },
    List { e: ERef, acts: Vec<Act> },
    Fmt { what: What, spec: u8, limit: i64, acts: Vec<Act> },
    CloneCmp { a: ERef, b: ERef, dst: usize },
    Lookup { k: u64 },
    Match { e: ERef, target: usize },
    Fams { seed: u64, acts: Vec<Act> },
    Atoms { seed: u64, acts: Vec<Act> },
    FromStr { t: usize },
    SLex { t: usize, s: usize },
    SList { e: ERef, s: usize },
    Poll { s: usize, n: usize },
    SDrop { s: usize },
    Put { s: usize },
    Take { s: usize },
    Drop { slot: usize },
    Nth { s: usize, n: usize },
    Rest { s: usize, how: u8 },
    /// Many different short texts of one length, one after the other.
    Sweep { seed: u64, n: usize, len: usize },
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub prof: String,
    pub texts: Vec<String>,
    pub shared: Vec<usize>, // texts parsed before the threads start
    pub threads: Vec<Vec<Op>>,
    pub rounds: usize,
    pub fresh: bool,        // texts differ from round to round
    pub stack: usize,
    pub policy: u32,
    pub pad: usize,
    pub stack_pad: usize,   // how far down its stack each thread starts (x 160 bytes)
    pub bounds: bool,       // check step and byte bounds
    pub alloc_fail: Vec<(usize, u64, bool)>, // thread, n-th allocation, persistent
    pub env_seed: u64,
    pub rand_seed: u64,
    pub real_off: i64,
    pub jump_ppm: u64,
    pub spurious_ppm: u64,
    pub ncpus: u32,
    pub pid: u32,
    pub gap: f64,
    pub hot: u32,
    pub sched_seed: u64,
    pub max_steps: u64,
}

pub const NTARGETS: usize = 400;

struct G<'a> {
    r: Rng,
    prof: &'a str,
    nt: usize,
    ns: usize,
    /// Kinds of operation this run draws from (half of the runs leave most of them out).
    mask: [bool; 19],
}
/// A call within a call within a call, `n` deep, each from a callback of the one around it.
fn chain(g: &mut G<'_>, n: usize) -> Op {
    let mut cur: Option<Op> = None;
    let kind = *g.r.pick(&[1, 1, 3, 7, 17]);
    for k in 0..n {
        let kind = if kind == 17 { *g.r.pick(&[1, 1, 3, 7, 8]) } else { kind };
        let mut o = g.op_of(kind, 9);
        let at = if g.r.chance(3, 4) { 0 } else { 1 };
        if let Op::Eval { acts, .. } | Op::Fmt { acts, .. } | Op::Fams { acts, .. } | Op::Atoms { acts, .. } = &mut o {
            acts.clear();
            if let Some(c) = cur.take() {
                acts.push(Act { at, what: Do::Nest(Box::new(c)), on: AT_CALL });
            } else if k == 0 && g.prof == "C03" {
                acts.push(Act { at, what: Do::Panic, on: AT_CALL });
            }
        }
        cur = Some(o);
    }
    cur.unwrap()
}
impl G<'_> {
    fn eref(&mut self) -> ERef {
        if self.ns > 0 && self.r.chance(3, 5) {
            ERef::Shared(self.r.below(self.ns))
        } else {
            ERef::Own(self.r.below(4))
        }
    }
    fn mode(&mut self) -> Mode {
        *self.r.pick(&[Mode::Bool, Mode::Opt, Mode::Val, Mode::Val, Mode::Val, Mode::Bool, Mode::Val, Mode::Zst, Mode::Big])
    }
    fn what(&mut self) -> What {
        let t = self.r.below(self.nt);
        match self.r.below(15) {
            14 => What::Expr(t),
            0..=5 => What::Err(t),
            6 | 7 => What::Reason(t),
            8 => What::Tok(t, self.r.below(6)),
            9 => What::Field(self.r.below(9), self.r.below(NTARGETS)),
            10 => What::Fams(self.r.below(NTARGETS)),
            11 => What::Atoms(self.r.below(NTARGETS)),
            12 => {
                if self.r.chance(1, 2) {
                    What::Atom(self.r.below(9) as u32)
                } else {
                    What::AtomErr(t)
                }
            }
            _ => What::MyFams(self.r.next() >> 40),
        }
    }
    fn at(&mut self) -> u32 {
        match self.r.below(10) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 | 5 => self.r.below(6) as u32,
            6 | 7 => self.r.below(30) as u32,
            8 => self.r.below(120) as u32,
            _ => self.r.below(600) as u32,
        }
    }
    fn acts(&mut self, kind: usize, panics: (usize, usize), nests: (usize, usize), depth: usize, may_panic: bool) -> Vec<Act> {
        let mut v = vec![];
        if nests.0 > 0 && depth < 3 {
            while v.len() < 3 && self.r.chance(nests.0, nests.1) {
                // a call of the same kind shares most with the one it is made from
                let op = if self.r.chance(2, 5) { self.op_of(kind, depth + 1) } else { self.op(depth + 1) };
                let at = self.at();
                let on = if kind == 1 && self.r.chance(1, 5) { AT_DROP } else { AT_CALL };
                v.push(Act { at, what: Do::Nest(Box::new(if on == AT_CALL { op } else { calm(op) })), on });
            }
        }
        if panics.0 > 0 && self.r.chance(panics.0, panics.1) {
            let at = self.at();
            v.push(Act { at, what: if may_panic { Do::Panic } else { Do::Stop }, on: AT_CALL });
            if may_panic && depth < 3 && self.r.chance(1, 4) {
                let op = if self.r.chance(2, 5) { self.op_of(kind, depth + 1) } else { self.op(depth + 1) };
                v.push(Act { at: 0, what: Do::Nest(Box::new(calm(op))), on: AT_UNWIND });
            }
        }
        v
    }
    fn weights(&self) -> ([usize; 19], (usize, usize), (usize, usize)) {
        // weights: parse eval list fmt clone lookup match fams atoms fromstr slex slist poll sdrop put take drop
        match self.prof {
            "C01" => ([14, 22, 8, 6, 5, 4, 6, 1, 1, 1, 4, 4, 12, 2, 2, 2, 6, 2, 1], (1, 60), (1, 40)),
            "C02" => ([10, 40, 4, 0, 2, 0, 0, 0, 0, 0, 0, 1, 2, 0, 0, 0, 4, 0, 0], (1, 8), (1, 8)),
            "C03" => ([8, 26, 8, 8, 2, 1, 2, 4, 3, 0, 1, 3, 6, 3, 0, 0, 4, 1, 1], (2, 5), (1, 12)),
            "C04" => ([8, 30, 12, 8, 3, 2, 4, 4, 3, 1, 3, 4, 8, 2, 0, 0, 4, 1, 1], (1, 16), (3, 5)),
            "C05" => ([6, 4, 4, 0, 0, 0, 0, 0, 0, 0, 12, 10, 40, 4, 6, 8, 4, 8, 5], (1, 4), (1, 6)),
            "C06" => ([4, 3, 0, 40, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 2, 0, 0], (1, 8), (1, 6)),
            "C07" => ([14, 14, 8, 8, 6, 0, 3, 0, 0, 0, 3, 3, 6, 1, 0, 0, 6, 1, 2], (1, 10), (0, 1)),
            "C08" => ([16, 18, 8, 6, 4, 1, 4, 2, 2, 2, 3, 3, 6, 3, 0, 0, 6, 1, 1], (1, 8), (1, 16)),
            _ => ([24, 14, 8, 5, 5, 3, 5, 1, 1, 2, 4, 2, 8, 2, 1, 1, 14, 1, 1], (1, 30), (1, 30)),
        }
    }
    fn op(&mut self, depth: usize) -> Op {
        let (mut w, _, _) = self.weights();
        if w.iter().zip(&self.mask).any(|(w, m)| *m && *w > 0) {
            for (w, m) in w.iter_mut().zip(&self.mask) {
                if !m {
                    *w = 0;
                }
            }
        }
        let tot: usize = w.iter().sum();
        let mut k = self.r.below(tot);
        let mut i = 0;
        while k >= w[i] {
            k -= w[i];
            i += 1;
        }
        self.op_of(i, depth)
    }
    fn op_of(&mut self, i: usize, depth: usize) -> Op {
        let (_, p, n) = self.weights();
        let t = self.r.below(self.nt);
        let s = self.r.below(4);
        match i {
            0 => Op::Parse { t, dst: self.r.below(6) },
            1 => {
                let e = self.eref();
                let m = self.mode();
                let acts = self.acts(i, p, n, depth, true);
                Op::Eval { e, m, seed: self.r.next() >> 40, acts }
            }
            2 => {
                let e = self.eref();
                let acts = self.acts(i, p, n, depth, false);
                Op::List { e, acts }
            }
            3 => {
                let what = self.what();
                let limit = if self.r.chance(if self.prof == "C06" { 4 } else { 1 }, 5) { self.r.below(*[8, 40, 160].get(self.r.clone().below(3)).unwrap()) as i64 } else { -1 };
                // or in proportion to what there is to write
                let limit = if limit >= 0 && self.r.chance(1, 3) { 1 << 40 | (self.r.next() >> 44) as i64 } else { limit };
                let acts = self.acts(i, p, n, depth, true);
                let spec = if self.r.chance(2, 3) { 0 } else { self.r.below(8) as u8 };
                Op::Fmt { what, spec, limit, acts }
            }
            4 => Op::CloneCmp { a: self.eref(), b: self.eref(), dst: self.r.below(6) },
            5 => Op::Lookup { k: self.r.next() >> 40 },
            6 => Op::Match { e: self.eref(), target: self.r.below(2 * NTARGETS) },
            7 => {
                let acts = self.acts(i, p, n, depth, true);
                Op::Fams { seed: self.r.next() >> 40, acts }
            }
            8 => {
                let acts = self.acts(i, p, n, depth, true);
                Op::Atoms { seed: self.r.next() >> 40, acts }
            }
            9 => Op::FromStr { t },
            10 => Op::SLex { t, s },
            11 => Op::SList { e: self.eref(), s },
            12 => Op::Poll { s, n: if self.r.chance(1, 6) { 200 } else { self.r.range(1, 5) } },
            13 => Op::SDrop { s },
            14 => Op::Put { s },
            15 => Op::Take { s },
            17 => Op::Nth { s, n: *self.r.pick(&[0, 1, 1, 2, 3, 7, 40]) },
            18 => Op::Rest { s, how: self.r.below(7) as u8 },
            _ => Op::Drop { slot: self.r.below(4) },
        }
    }
}

/// The operation without panics of the caller.
fn calm(mut o: Op) -> Op {
    if let Op::Eval { acts, .. } | Op::List { acts, .. } | Op::Fmt { acts, .. } | Op::Fams { acts, .. } | Op::Atoms { acts, .. } = &mut o {
        acts.retain(|a| a.what != Do::Panic && a.on != AT_UNWIND);
        for a in acts {
            if let Do::Nest(o) = &mut a.what {
                **o = calm((**o).clone());
            }
        }
    }
    o
}
/// Number of calls an operation stands for.
fn size(o: &Op) -> usize {
    match o {
        Op::Eval { acts, .. } | Op::List { acts, .. } | Op::Fmt { acts, .. } | Op::Fams { acts, .. } | Op::Atoms { acts, .. } => {
            1 + acts.iter().map(|a| if let Do::Nest(o) = &a.what { size(o) } else { 0 }).sum::<usize>()
        }
        Op::Sweep { n, .. } => *n,
        _ => 1,
    }
}
pub fn generate(prof: &str, seed: u64, run: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(h2(h2(seed, hs(prof)), run));
    let pool = if thorough { 400_000 } else { 60_000 };
    let kinds: &[Kind] = match prof {
        "C02" => &[Kind::Valid, Kind::Valid, Kind::Valid, Kind::Wide],
        "C05" => &[Kind::Mixed, Kind::Bad, Kind::Valid],
        "C06" => &[Kind::Bad, Kind::Bad, Kind::Mixed],
        "C07" => &[Kind::Huge],
        "C01" | "C09" => &[Kind::Mixed, Kind::Mixed, Kind::Valid, Kind::Deep],
        _ => &[Kind::Mixed, Kind::Valid],
    };
    let mut nt = if prof == "C07" { r.range(1, 2) } else { *r.pick(&[1, 2, 3, 4, 6]) };
    let mut texts = vec![];
    // neighbours in the pool are near-identical texts
    let mut at = r.below(pool) as u64;
    let k = *r.pick(kinds);
    let mut kind = k;
    for _ in 0..nt {
        let kp = if kind == Kind::Wide { 64 } else if kind == Kind::Huge { 800 } else { pool as u64 };
        let mut at = at % kp;
        if kind == Kind::Wide && at / 4 == 5 && !r.chance(1, 16) {
            at -= 4; // the largest texts, rarely
        }
        let mut t = gen(seed, kind, at);
        if prof == "C07" && r.chance(1, 4) {
            // malformed at the very end, or damaged
            let cut = r.below(t.len() + 1);
            t = match r.below(5) {
                4 => format!("{t}, x"),
                0 => format!("{t})"),
                1 => {
                    t.pop();
                    t
                }
                2 => (0..=cut).rev().find(|i| t.is_char_boundary(*i)).map(|i| t[..i].to_string()).unwrap(),
                _ => format!("{t} x"),
            };
        }
        texts.push(t);
        match r.below(4) {
            0 => at = r.below(pool) as u64,
            1 => kind = *r.pick(kinds),
            _ => at += 1,
        }
    }
    if prof == "C07" && r.chance(1, 4) {
        texts.push(runs(&mut r, 1000, 8000));
        nt = texts.len();
    }
    // texts of the same length with nothing in common
    let (a, b) = if prof == "C09" || prof == "C05" { (1, 2) } else { (1, 8) };
    if prof != "C07" && r.chance(a, b) {
        for _ in 0..r.range(1, 3) {
            let k = if r.chance(2, 3) { 0 } else { r.below(texts.len()) };
            let t = sibling(&mut r, &texts[k]);
            texts.push(t);
        }
        nt = texts.len();
    }
    let shared: Vec<usize> = if r.chance(5, 6) { (0..nt).filter(|_| r.chance(3, 4)).collect() } else { vec![] };
    let nthreads = match prof {
        "C02" | "C03" | "C04" | "C06" | "C08" => *r.pick(&[1, 1, 2, 3]),
        "C07" => *r.pick(&[1, 1, 1, 2]),
        "C09" => *r.pick(&[1, 1, 2, 3]),
        "C05" => *r.pick(&[1, 2, 2, 3]),
        _ => *r.pick(&[2, 2, 3, 4]),
    };
    let maxops = if prof == "C07" { 5 } else { *r.pick(&[2, 4, 8, 14]) };
    let mut p = Plan {
        prof: prof.to_string(),
        texts,
        shared: shared.clone(),
        threads: vec![],
        rounds: 1,
        fresh: false,
        stack: 2 << 20,
        policy: r.below(3) as u32,
        pad: r.below(64) * 16,
        stack_pad: 0,
        bounds: false,
        alloc_fail: vec![],
        env_seed: if r.chance(1, 4) { 0 } else { r.next() >> 8 },
        rand_seed: r.next() >> 8,
        real_off: if r.chance(1, 8) { -2_000_000_000_000_000_000 } else { 1_700_000_000_000_000_000 + (r.next() >> 8) as i64 % 400_000_000_000_000_000 },
        jump_ppm: if r.chance(1, 2) { 0 } else { 200_000 },
        spurious_ppm: if r.chance(1, 2) { 0 } else { 100_000 },
        ncpus: *r.pick(&[1, 2, 8, 64, 200]),
        pid: 2 + r.below(60000) as u32,
        gap: *r.pick(&[0.0, 4.0, 15.0, 60.0, 250.0, 1000.0, 5000.0]),
        hot: *r.pick(&[0, 32, 128, 255]),
        sched_seed: r.next() >> 8,
        max_steps: 60_000_000,
    };
    let mut g = G { r: r.clone(), prof, nt, ns: shared.len(), mask: [true; 19] };
    if g.r.chance(1, 2) {
        for k in 0..19 {
            g.mask[k] = g.r.chance(1, 3);
        }
    }
    for ti in 0..nthreads {
        let n = g.r.range(1, maxops);
        let mut ops = vec![];
        if g.r.chance(2, 3) {
            ops.push(Op::Parse { t: g.r.below(nt), dst: g.r.below(4) });
        }
        if prof == "C05" || g.r.chance(1, 5) {
            let s = g.r.below(4);
            ops.push(if g.r.chance(1, 2) { Op::SLex { t: g.r.below(nt), s } } else { Op::SList { e: g.eref(), s } });
            ops.push(Op::Poll { s, n: g.r.range(1, 4) });
            if g.r.chance(1, 2) {
                ops.push(Op::Put { s });
            }
        }
        if prof == "C05" && g.r.chance(1, 3) {
            // streams in lock step
            let k = g.r.range(2, 4);
            let lists = g.r.chance(1, 3);
            let e = g.eref();
            for s in 0..k {
                let first = g.r.chance(1, 3);
                ops.push(if lists { Op::SList { e: if first { e } else { g.eref() }, s } } else { Op::SLex { t: if first { 0 } else { g.r.below(nt) }, s } });
            }
            for _ in 0..*g.r.pick(&[3, 10, 40]) {
                for s in 0..k {
                    ops.push(Op::Poll { s, n: 1 });
                }
            }
        }
        for _ in 0..n {
            let o = g.op(0);
            ops.push(o);
        }
        if (prof == "C04" || prof == "C03") && g.r.chance(1, 12) {
            let d = *g.r.pick(&[5, 12, 40, 90]);
            let at = g.r.below(ops.len() + 1);
            let o = chain(&mut g, d);
            ops.insert(at, o);
        }
        // the same operation again, here or on another thread
        if g.r.chance(1, 3) {
            let o = ops[g.r.below(ops.len())].clone();
            ops.push(o);
        }
        if ti > 0 && g.r.chance(1, 3) {
            let o: Vec<Op> = p.threads[0].clone();
            ops = o;
        }
        p.threads.push(ops);
    }
    let r = &mut g.r;
    if prof != "C07" && r.chance(1, 2) {
        p.stack_pad = r.below(30);
    }
    match prof {
        "C07" => {
            p.stack = 256 << 10;
            p.bounds = true;
            p.gap = *r.pick(&[0.0, 0.0, 5000.0, 50000.0]);
            p.hot = *r.pick(&[0, 0, 16]);
            p.max_steps = 400_000_000;
        }
        "C08" => {
            match r.below(3) {
                0 => {
                    let t = r.below(p.threads.len());
                    let n = match r.below(3) { 0 => 1 + r.below(4), 1 => 1 + r.below(20), _ => 1 + r.below(120) } as u64;
                    p.alloc_fail.push((t, n, r.chance(1, 3)));
                }
                1 => {
                    // many rounds on one thread
                    p.threads.truncate(1);
                    p.threads[0].truncate(6);
                    p.rounds = if r.chance(1, 4) { 400 } else { 40 };
                    p.fresh = r.chance(1, 2);
                    p.gap = 0.0;
                    p.hot = 0;
                }
                _ => {
                    p.threads.truncate(3);
                    p.rounds = 12;
                }
            }
        }
        _ => {
            // a very long history of short texts
            if prof != "C01" && r.chance(1, if prof == "C09" { 48 } else { 200 }) {
                const SHORT: [&str; 24] = [
                    "unix", "a b", "all(a", "a)", "not(a,b)", "target_os=\"nope\"", "", "any()", "not()", "x=1", "all(a,,b)", "feature=\"x\"", "target_family=\"unix\"", "target_pointer_width=\"99\"", "a,b", "cfg(a)", "=\"v\"", "foo(a)", "target_os=\"linux", "not(not(unix))",
                    "target_endian=\"mid\"", "target_has_atomic=\"7x\"", "all(unix,any(a,not(b)))", "windows unix",
                ];
                for t in &mut p.texts {
                    *t = r.pick(&SHORT).to_string();
                }
                p.threads.truncate(1);
                let n = p.texts.len();
                let t = &mut p.threads[0];
                t.truncate(r.range(1, 3));
                for _ in 0..r.range(2, 5) {
                    t.push(Op::Parse { t: r.below(n), dst: r.below(4) });
                }
                p.rounds = *r.pick(&[300, 700, 1500]);
                p.gap = 0.0;
                p.hot = 0;
            }
            // a long history: the same calls over and over on the same threads
            else if r.chance(1, if prof == "C03" { 10 } else { 24 }) {
                let single = p.threads.len() == 1;
                let very = single && prof == "C09" && r.chance(1, 4);
                p.rounds = if very { 3000 } else if single { *r.pick(&[10, 40, 150]) } else { *r.pick(&[3, 8, 20]) };
                for t in &mut p.threads {
                    t.truncate(if p.rounds > 200 { 2 } else if p.rounds > 20 { 4 } else { 6 });
                }
                if p.rounds > 8 && p.gap < 250.0 {
                    p.gap = if r.chance(1, 2) { 0.0 } else { 250.0 };
                    p.hot = 0;
                }
            }
        }
    }
    if prof != "C07" && prof != "C08" && prof != "C06" && p.rounds == 1 && r.chance(1, if prof == "C01" { 30 } else { 60 }) {
        let most = if prof == "C01" { 200 } else { 2000 };
        let o = Op::Sweep { seed: r.next() >> 20, n: r.range(most / 4, most), len: r.range(3, 24) };
        for t in 0..p.threads.len() {
            if t == 0 || r.chance(1, 2) {
                let at = r.below(p.threads[t].len() + 1);
                p.threads[t].insert(at, o.clone());
            }
        }
    }
    // targets that the texts speak of
    for t in 0..p.threads.len() {
        for k in 0..p.threads[t].len() {
            if let Op::Match { target, .. } = &mut p.threads[t][k] {
                let text = r.pick(&p.texts);
                let vals: Vec<&str> = text.split('"').skip(1).step_by(2).take(100).collect();
                if !vals.is_empty() && r.chance(1, 2) {
                    let v = *r.pick(&vals);
                    let all = glue::cfg_expr::targets::ALL_BUILTINS;
                    let n = all.len().min(NTARGETS);
                    let from = r.below(n);
                    let hit = (0..n).map(|i| (from + i) % n).find(|i| {
                        let b = &all[*i];
                        b.arch.as_str() == v || b.os.as_ref().is_some_and(|x| x.as_str() == v) || b.vendor.as_ref().is_some_and(|x| x.as_str() == v) || b.env.as_ref().is_some_and(|x| x.as_str() == v) || b.abi.as_ref().is_some_and(|x| x.as_str() == v)
                    });
                    if let Some(h) = hit {
                        *target = if *target < NTARGETS { h } else { NTARGETS + h };
                    }
                }
            }
        }
    }
    // keep histories over large texts short, and the step limit well above what any run needs
    let len: usize = p.texts.iter().map(|t| t.len()).max().unwrap_or(0);
    if prof != "C07" {
        p.rounds = p.rounds.min(1 + 150_000 / (len + 1)).max(if prof == "C08" && p.rounds > 1 { 12.min(p.rounds) } else { 1 });
        let n: usize = p.threads.iter().flatten().map(size).sum();
        p.max_steps += (len * n * p.rounds) as u64 * 800;
    } else {
        p.max_steps += (len * 20) as u64 * 2000;
    }
    p
}

// ------------------------------------------------------------------ JSON
fn ej(e: ERef) -> J {
    match e {
        ERef::Shared(i) => J::Str(format!("shared {i}")),
        ERef::Own(i) => J::Str(format!("own {i}")),
    }
}
fn je(j: &J) -> ERef {
    let mut p = j.s().split(' ');
    let k = p.next().unwrap_or("");
    let i = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    if k == "shared" {
        ERef::Shared(i)
    } else {
        ERef::Own(i)
    }
}
fn actsj(v: &[Act]) -> J {
    J::Arr(
        v.iter()
            .map(|a| {
                let j = match a.on {
                    AT_CALL => J::obj().with("at_callback", a.at),
                    AT_UNWIND => J::obj().with("while_unwinding", true),
                    _ => J::obj().with("at_drop_of_answer", a.at),
                };
                match &a.what {
                    Do::Panic => j.with("fault", "panic"),
                    Do::Stop => j.with("fault", "abandon"),
                    Do::Nest(o) => j.with("call", opj(o)),
                }
            })
            .collect(),
    )
}
fn jacts(j: &J) -> Vec<Act> {
    j.a()
        .iter()
        .map(|a| Act {
            at: if a.has("at_drop_of_answer") { a.get("at_drop_of_answer").u() as u32 } else { a.get("at_callback").u() as u32 },
            on: if a.has("while_unwinding") { AT_UNWIND } else if a.has("at_drop_of_answer") { AT_DROP } else { AT_CALL },
            what: match a.get("fault").s() {
                "panic" => Do::Panic,
                "abandon" => Do::Stop,
                _ => Do::Nest(Box::new(jop(a.get("call")))),
            },
        })
        .collect()
}
fn whatj(w: &What) -> J {
    let (k, a, b) = match w {
        What::Err(t) => ("error", *t as u64, 0),
        What::Reason(t) => ("reason", *t as u64, 0),
        What::Tok(t, n) => ("token", *t as u64, *n as u64),
        What::Field(f, t) => ("field", *f as u64, *t as u64),
        What::Fams(t) => ("families", *t as u64, 0),
        What::Atoms(t) => ("atomics", *t as u64, 0),
        What::Atom(n) => ("atomic", *n as u64, 0),
        What::AtomErr(t) => ("atomic_error", *t as u64, 0),
        What::MyFams(s) => ("own_families", *s, 0),
        What::Expr(t) => ("expression", *t as u64, 0),
    };
    J::Arr(vec![k.into(), a.into(), b.into()])
}
fn jwhat(j: &J) -> What {
    let v = j.a();
    let (a, b) = (v[1].u() as usize, v[2].u() as usize);
    match v[0].s() {
        "error" => What::Err(a),
        "reason" => What::Reason(a),
        "token" => What::Tok(a, b),
        "field" => What::Field(a, b),
        "families" => What::Fams(a),
        "atomics" => What::Atoms(a),
        "atomic" => What::Atom(a as u32),
        "atomic_error" => What::AtomErr(a),
        "expression" => What::Expr(a),
        _ => What::MyFams(a as u64),
    }
}
pub fn opj(o: &Op) -> J {
    let n = |s: &str| J::obj().with("op", s);
    match o {
        Op::Parse { t, dst } => n("parse").with("text", *t).with("into", *dst),
        Op::Eval { e, m, seed, acts } => n("eval")
            .with("expr", ej(*e))
            .with("logic", match m { Mode::Bool => "bool", Mode::Opt => "option", Mode::Val => "terms", Mode::Zst => "sizeless", Mode::Big => "large" })
            .with("answers", *seed)
            .with("acts", actsj(acts)),
        Op::List { e, acts } => n("predicates").with("expr", ej(*e)).with("acts", actsj(acts)),
        Op::Fmt { what, spec, limit, acts } => n("format").with("what", whatj(what)).with("spec", *spec as usize).with("sink_full_at", *limit).with("acts", actsj(acts)),
        Op::CloneCmp { a, b, dst } => n("clone").with("expr", ej(*a)).with("compare", ej(*b)).with("into", *dst),
        Op::Lookup { k } => n("lookup").with("which", *k),
        Op::Match { e, target } => n("match").with("expr", ej(*e)).with("target", *target),
        Op::Fams { seed, acts } => n("families").with("seed", *seed).with("acts", actsj(acts)),
        Op::Atoms { seed, acts } => n("atomics").with("seed", *seed).with("acts", actsj(acts)),
        Op::FromStr { t } => n("from_str").with("text", *t),
        Op::SLex { t, s } => n("open_lexer").with("text", *t).with("stream", *s),
        Op::SList { e, s } => n("open_listing").with("expr", ej(*e)).with("stream", *s),
        Op::Poll { s, n: k } => n("poll").with("stream", *s).with("times", *k),
        Op::SDrop { s } => n("drop_stream").with("stream", *s),
        Op::Put { s } => n("hand_over").with("stream", *s),
        Op::Take { s } => n("take_over").with("stream", *s),
        Op::Drop { slot } => n("drop").with("slot", *slot),
        Op::Sweep { seed, n: k, len } => n("sweep").with("seed", *seed).with("texts", *k).with("length", *len),
        Op::Nth { s, n: k } => n("nth").with("stream", *s).with("skip", *k),
        Op::Rest { s, how } => n("drain").with("stream", *s).with("how", *how as usize),
    }
}
pub fn jop(j: &J) -> Op {
    let us = |k: &str| j.get(k).u() as usize;
    let acts = || jacts(j.get("acts"));
    match j.get("op").s() {
        "parse" => Op::Parse { t: us("text"), dst: us("into") },
        "eval" => Op::Eval {
            e: je(j.get("expr")),
            m: match j.get("logic").s() { "bool" => Mode::Bool, "option" => Mode::Opt, "sizeless" => Mode::Zst, "large" => Mode::Big, _ => Mode::Val },
            seed: j.get("answers").u(),
            acts: acts(),
        },
        "predicates" => Op::List { e: je(j.get("expr")), acts: acts() },
        "format" => Op::Fmt { what: jwhat(j.get("what")), spec: us("spec") as u8, limit: j.get("sink_full_at").i(), acts: acts() },
        "clone" => Op::CloneCmp { a: je(j.get("expr")), b: je(j.get("compare")), dst: us("into") },
        "lookup" => Op::Lookup { k: j.get("which").u() },
        "match" => Op::Match { e: je(j.get("expr")), target: us("target") },
        "families" => Op::Fams { seed: j.get("seed").u(), acts: acts() },
        "atomics" => Op::Atoms { seed: j.get("seed").u(), acts: acts() },
        "from_str" => Op::FromStr { t: us("text") },
        "open_lexer" => Op::SLex { t: us("text"), s: us("stream") },
        "open_listing" => Op::SList { e: je(j.get("expr")), s: us("stream") },
        "poll" => Op::Poll { s: us("stream"), n: us("times") },
        "drop_stream" => Op::SDrop { s: us("stream") },
        "hand_over" => Op::Put { s: us("stream") },
        "take_over" => Op::Take { s: us("stream") },
        "sweep" => Op::Sweep { seed: j.get("seed").u(), n: us("texts"), len: us("length") },
        "nth" => Op::Nth { s: us("stream"), n: us("skip") },
        "drain" => Op::Rest { s: us("stream"), how: us("how") as u8 },
        _ => Op::Drop { slot: us("slot") },
    }
}
impl Plan {
    pub fn json(&self) -> J {
        J::obj()
            .with("property", self.prof.as_str())
            .with("texts", J::Arr(self.texts.iter().map(|t| t.as_str().into()).collect()))
            .with("parsed_before_start", J::Arr(self.shared.iter().map(|t| (*t).into()).collect()))
            .with("threads", J::Arr(self.threads.iter().map(|t| J::Arr(t.iter().map(opj).collect())).collect()))
            .with("rounds", self.rounds)
            .with("fresh_texts", self.fresh)
            .with("stack_bytes", self.stack)
            .with("memory_reuse", self.policy)
            .with("memory_offset", self.pad)
            .with("stack_offset", self.stack_pad)
            .with("bounds", self.bounds)
            .with("alloc_failures", J::Arr(self.alloc_fail.iter().map(|(t, n, p)| J::obj().with("thread", *t).with("nth", *n).with("persistent", *p)).collect()))
            .with("environment_seed", self.env_seed)
            .with("random_seed", self.rand_seed)
            .with("wall_clock_offset_ns", self.real_off)
            .with("clock_jump_ppm", self.jump_ppm)
            .with("spurious_wakeup_ppm", self.spurious_ppm)
            .with("cpus", self.ncpus)
            .with("pid", self.pid)
            .with("mean_preemption_gap", self.gap)
            .with("hot_preemption", self.hot)
            .with("schedule_seed", self.sched_seed)
            .with("max_steps", self.max_steps)
    }
    pub fn from_json(j: &J) -> Plan {
        Plan {
            prof: j.get("property").s().to_string(),
            texts: j.get("texts").a().iter().map(|t| t.s().to_string()).collect(),
            shared: j.get("parsed_before_start").a().iter().map(|t| t.u() as usize).collect(),
            threads: j.get("threads").a().iter().map(|t| t.a().iter().map(jop).collect()).collect(),
            rounds: j.get("rounds").u() as usize,
            fresh: j.get("fresh_texts").b(),
            stack: j.get("stack_bytes").u() as usize,
            policy: j.get("memory_reuse").u() as u32,
            pad: j.get("memory_offset").u() as usize,
            stack_pad: j.get("stack_offset").u() as usize,
            bounds: j.get("bounds").b(),
            alloc_fail: j.get("alloc_failures").a().iter().map(|a| (a.get("thread").u() as usize, a.get("nth").u(), a.get("persistent").b())).collect(),
            env_seed: j.get("environment_seed").u(),
            rand_seed: j.get("random_seed").u(),
            real_off: j.get("wall_clock_offset_ns").i(),
            jump_ppm: j.get("clock_jump_ppm").u(),
            spurious_ppm: j.get("spurious_wakeup_ppm").u(),
            ncpus: j.get("cpus").u() as u32,
            pid: j.get("pid").u() as u32,
            gap: j.get("mean_preemption_gap").f(),
            hot: j.get("hot_preemption").u() as u32,
            sched_seed: j.get("schedule_seed").u(),
            max_steps: j.get("max_steps").u(),
        }
    }
}
