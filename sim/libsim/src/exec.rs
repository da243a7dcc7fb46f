//! Executes one plan inside the simulator, in a process of its own, checking every result.
use crate::alloc::{self, FAIL_AT, INLIB, LIB_LIVE, LIB_LIVE_N, T_BYTES, T_FAILED};
use crate::ffi::{self, *};
use crate::model::*;
use crate::plan::*;
use crate::util::*;
use glue::cfg_expr::{
    expr::lexer::{LexerToken, Token},
    targets::{self, Families, Family, HasAtomic, HasAtomics, ALL_BUILTINS},
    Expression, ParseError, Predicate, TargetPredicate as TP,
};
use glue::{simval::{self, Val}, Show, Stream as Items};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

// ------------------------------------------------------------------ results shared with the driver
macro_rules! counters {
    ($($n:ident)*) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy)]
        pub enum C { $($n,)* }
        pub const COUNTERS: &[&str] = &[$(stringify!($n),)*];
    };
}
counters! { op_parse op_eval op_list op_format op_clone op_lookup op_match op_families op_atomics op_from_str op_open op_poll op_stream_drop op_hand_over op_take_over op_drop op_nth op_drain op_sweep op_skipped
  callbacks logic_ops nested_calls calls_unwinding calls_at_drop f_panic_predicate f_panic_logic f_panic_iterator f_panic_sink f_abandoned_listing f_abandoned_stream f_sink_failure f_alloc_failure f_alloc_abort f_stream_handover f_small_stack
  f_damaged_text f_poll_after_end f_poll_after_error ok_values errors_returned predicates_answered max_edges_per_kb max_bytes_per_kb lib_allocs address_reuse rounds }
pub const NC: usize = 64;
const _: () = assert!(COUNTERS.len() <= NC);

#[repr(C)]
pub struct Out {
    pub sim: SimShared,
    pub viol: u32,
    pub done: u32,
    pub failing: u32,
    pub class: [u8; 48],
    pub msg_len: u32,
    pub msg: [u8; 6000],
    pub cnt: [u64; NC],
    pub hash: u64,
    pub iso_len: u64,
    pub iso_str: u64,
    pub iso: [u64; 1 << 22],
    pub text: [u8; 1 << 25],
}
impl Out {
    pub fn reset(&mut self) {
        unsafe {
            let s = &mut self.sim;
            std::ptr::write_bytes(s as *mut SimShared as *mut u8, 0, std::mem::offset_of!(SimShared, sched));
            s.pairs = [0; 8192];
            s.edges = [0; 8192];
        }
        self.viol = 0;
        self.done = 0;
        self.failing = 0;
        self.msg_len = 0;
        self.cnt = [0; NC];
        self.hash = 0;
        self.iso_len = 0;
        self.iso_str = 0;
    }
    pub fn class(&self) -> String {
        let n = self.class.iter().position(|b| *b == 0).unwrap_or(48);
        String::from_utf8_lossy(&self.class[..n]).into_owned()
    }
    pub fn message(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
}
pub fn set_violation(o: &mut Out, class: &str, msg: &str) {
    if o.viol != 0 {
        return;
    }
    o.viol = 1;
    o.class = [0; 48];
    for (i, b) in class.bytes().take(47).enumerate() {
        o.class[i] = b;
    }
    let n = msg.len().min(5990);
    o.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
    o.msg_len = n as u32;
}

// ------------------------------------------------------------------ reference answers
#[derive(Clone, Default)]
pub struct Iso {
    pub crash: Option<String>,
    pub items: Vec<u64>,
    pub full: String,
}
#[derive(Default)]
pub struct Oracle {
    pub models: HashMap<String, Option<Arc<Model>>>,
    pub iso: HashMap<String, Iso>,
    /// Bytes of memory, roughly.
    pub weight: usize,
}
#[derive(Clone)]
pub struct Query {
    pub kind: u8, // P parse, L listing, X lexer, M match, F format, S from_str
    pub a: String,
    pub text: String,
}
impl Query {
    pub fn key(&self) -> String {
        format!("{}\u{1}{}\u{1}{}", self.kind as char, self.a, self.text)
    }
}
fn q(kind: u8, a: impl Into<String>, text: &str) -> Query {
    Query { kind, a: a.into(), text: text.into() }
}
fn what_text<'a>(w: &What, texts: &'a [String]) -> &'a str {
    match w {
        What::Err(t) | What::Reason(t) | What::Tok(t, _) | What::AtomErr(t) | What::Expr(t) => texts.get(*t % texts.len().max(1)).map(|s| s.as_str()).unwrap_or(""),
        _ => "",
    }
}
fn what_key(w: &What) -> String {
    match w {
        What::Err(_) => "err".into(),
        What::Reason(_) => "reason".into(),
        What::Tok(_, k) => format!("tok {k}"),
        What::AtomErr(_) => "atomerr".into(),
        What::Expr(_) => "expr".into(),
        w => format!("{w:?}"),
    }
}
fn fmt_key(w: &What, spec: u8) -> String {
    format!("{spec}{}", what_key(w))
}
fn op_needs(o: &Op, texts: &[String], models: &HashMap<String, Option<Arc<Model>>>, all_lists: &mut bool, out: &mut Vec<Query>) {
    let tx = |t: usize| texts.get(t % texts.len().max(1)).map(|s| s.as_str()).unwrap_or("");
    let acts: &[Act] = match o {
        Op::Eval { acts, .. } | Op::List { acts, .. } | Op::Fmt { acts, .. } | Op::Fams { acts, .. } | Op::Atoms { acts, .. } => acts,
        _ => &[],
    };
    for a in acts {
        if let Do::Nest(o) = &a.what {
            op_needs(o, texts, models, all_lists, out);
        }
    }
    match o {
        Op::List { .. } | Op::SList { .. } => *all_lists = true,
        Op::SLex { t, .. } => out.push(q(b'X', "", tx(*t))),
        Op::FromStr { t } => out.push(q(b'S', "", tx(*t))),
        Op::Fmt { what, spec, .. } => out.push(q(b'F', fmt_key(what, *spec), what_text(what, texts))),
        Op::Match { target, .. } => {
            for t in texts {
                out.push(q(b'M', target.to_string(), t));
                if let Some(m) = models.get(t).and_then(|m| m.as_ref()) {
                    for p in single_preds(m) {
                        out.push(q(b'M', target.to_string(), &p));
                    }
                }
            }
        }
        _ => {}
    }
}
pub fn needs(p: &Plan, models: &HashMap<String, Option<Arc<Model>>>) -> Vec<Query> {
    let mut v = vec![];
    let mut lists = false;
    for t in &p.threads {
        for o in t {
            op_needs(o, &p.texts, models, &mut lists, &mut v);
        }
    }
    for t in &p.texts {
        v.push(q(b'P', "", t));
        if lists {
            v.push(q(b'L', "", t));
        }
    }
    v
}
/// Queries that the model answers need no reference run.
pub fn by_model(qr: &Query) -> bool {
    matches!(qr.kind, b'P' | b'X')
}
fn err_text(e: &ParseError) -> String {
    #[allow(deprecated)]
    let d = std::error::Error::description(e);
    format!("{:?} {:?} {:?} [{e}] [{}] [{d}]", e.original, e.span, e.reason, e.reason)
}
fn pred_key(p: &Predicate<'_>) -> String {
    match p {
        Predicate::Target(t) => match t {
            TP::Abi(a) => format!("abi={}", a.as_str()),
            TP::Arch(a) => format!("arch={}", a.as_str()),
            TP::Endian(targets::Endian::big) => "endian=big".into(),
            TP::Endian(targets::Endian::little) => "endian=little".into(),
            TP::Env(a) => format!("env={}", a.as_str()),
            TP::Family(a) => format!("family={}", a.as_str()),
            TP::HasAtomic(HasAtomic::IntegerSize(n)) => format!("atomic={n}"),
            TP::HasAtomic(_) => "atomic=ptr".into(),
            TP::Os(a) => format!("os={}", a.as_str()),
            TP::Panic(a) => format!("panic={}", a.as_str()),
            TP::PointerWidth(w) => format!("width={w}"),
            TP::Vendor(a) => format!("vendor={}", a.as_str()),
        },
        Predicate::Test => "test".into(),
        Predicate::DebugAssertions => "debug_assertions".into(),
        Predicate::ProcMacro => "proc_macro".into(),
        Predicate::Feature(f) => format!("feature={f}"),
        Predicate::TargetFeature(f) => format!("tfeature={f}"),
        Predicate::Flag(f) => format!("flag:{f}"),
        Predicate::KeyValue { key, val } => format!("kv:{key}={val}"),
    }
}
fn lex_hash(it: &Result<LexerToken<'_>, ParseError>) -> u64 {
    match it {
        Ok(t) => {
            let d = match &t.token {
                Token::Key(k) => format!("Key({k})"),
                Token::Value(k) => format!("Value({k})"),
                Token::Equals => "=".into(),
                Token::OpenParen => "(".into(),
                Token::CloseParen => ")".into(),
                Token::Comma => ",".into(),
                Token::All => "All".into(),
                Token::Any => "Any".into(),
                Token::Not => "Not".into(),
            };
            tok_hash(&d, t.span.start, t.span.end)
        }
        Err(e) => hs(&err_text(e)) | 1,
    }
}
fn builtin(t: usize) -> &'static targets::TargetInfo {
    &ALL_BUILTINS[t % NTARGETS % ALL_BUILTINS.len()]
}
/// A text that consists of the target predicate named by `key`.
fn pred_text(key: &str) -> Option<String> {
    let (k, v) = key.split_once('=')?;
    let k = match k {
        "abi" | "arch" | "endian" | "env" | "family" | "os" | "vendor" => format!("target_{k}"),
        "atomic" => "target_has_atomic".into(),
        "width" => "target_pointer_width".into(),
        "panic" => "panic".into(),
        _ => return None,
    };
    Some(format!("{k} = \"{v}\""))
}
/// The different target predicates of a text, unless there are many.
fn single_preds(m: &Model) -> Vec<String> {
    let mut v: Vec<String> = m.preds.iter().take(200).filter_map(|p| pred_text(p)).collect();
    v.sort();
    v.dedup();
    if v.len() > 16 || m.preds.len() > 200 {
        v.clear();
    }
    v
}
fn match_bits(e: &Expression, target: usize) -> Vec<(String, bool)> {
    let mut h = vec![];
    let ti = builtin(target);
    if target < NTARGETS {
        for p in glue::preds(e) {
            if let Predicate::Target(tp) = &p {
                let r = glue::match_info(tp, ti);
                let _g = unlib();
                h.push((pred_key(&p), r));
            }
        }
    } else if let Ok(tr) = ti.triple.as_str().parse::<glue::cfg_expr::target_lexicon::Triple>() {
        for p in glue::preds(e) {
            if let Predicate::Target(tp) = &p {
                    let r = glue::match_triple(tp, &tr);
                    let _g = unlib();
                    h.push((pred_key(&p), r));
            }
        }
    }
    h
}
fn my_fams(seed: u64) -> Vec<Family> {
    let mut r = Rng::new(seed);
    let n = if r.chance(1, 6) { r.range(8, 70) } else { r.below(7) };
    (0..n)
        .map(|_| {
            let k = r.below(9);
            Family::new(if k < 7 { ["unix", "windows", "wasm", "zeta", "alpha", "beta", "unix"][k].to_string() } else { format!("fam{}", r.below(40)) })
        })
        .collect()
}
fn my_atoms(seed: u64) -> Vec<HasAtomic> {
    let mut r = Rng::new(seed);
    let n = if r.chance(1, 6) { r.range(8, 70) } else { r.below(8) };
    (0..n).map(|_| r.pick(&[HasAtomic::IntegerSize(8), HasAtomic::IntegerSize(16), HasAtomic::IntegerSize(64), HasAtomic::Pointer, HasAtomic::IntegerSize(128)]).to_owned()).collect()
}
enum Shown {
    E(Arc<ParseError>),
    R(Arc<ParseError>),
    S(Box<dyn Show>),
    X(Arc<Expression>),
}
/// The value `w` denotes; library calls are made with `lib`.
fn value(w: &What, text: &'static str, have: Option<Arc<ParseError>>) -> Option<Shown> {
    Some(match w {
        What::Err(_) | What::Reason(_) => {
            let e = match have {
                Some(e) => e,
                None => Arc::new(lib(|| Expression::parse(text)).err()?),
            };
            if matches!(w, What::Err(_)) {
                Shown::E(e)
            } else {
                Shown::R(e)
            }
        }
        What::Tok(_, k) => {
            let t = lib(|| glue::lex(text).take(k + 1).filter_map(|x| x.ok()).last())?;
            Shown::S(Box::new(t.token))
        }
        What::Field(f, t) => {
            let t = builtin(*t);
            let b: Box<dyn Show> = match f {
                0 => Box::new(t.triple.clone()),
                1 => Box::new(t.os.clone()?),
                2 => Box::new(t.abi.clone()?),
                3 => Box::new(t.arch.clone()),
                4 => Box::new(t.env.clone()?),
                5 => Box::new(t.vendor.clone()?),
                6 => Box::new(t.panic.clone()),
                7 => Box::new(t.families.first().cloned()?),
                _ => Box::new(t.has_atomics.first().copied()?),
            };
            Shown::S(b)
        }
        What::Fams(t) => Shown::S(Box::new(builtin(*t).families.clone())),
        What::Atoms(t) => Shown::S(Box::new(builtin(*t).has_atomics.clone())),
        What::Atom(n) => Shown::S(Box::new(if *n == 0 { HasAtomic::Pointer } else { HasAtomic::IntegerSize(1 << n) })),
        What::Expr(_) => Shown::X(Arc::new(lib(|| Expression::parse(text)).ok()?)),
        What::AtomErr(_) => Shown::S(Box::new(lib(|| text.parse::<HasAtomic>()).err()?)),
        What::MyFams(s) => Shown::S(Box::new(lib(|| glue::fams(&mut my_fams(*s).into_iter())))),
    })
}
fn render(w: &mut dyn Write, v: &Shown, spec: u8) -> std::fmt::Result {
    match v {
        Shown::E(e) => glue::show(w, spec, &**e),
        Shown::R(e) => glue::show(w, spec, &e.reason),
        Shown::S(d) => glue::show(w, spec, &**d),
        Shown::X(e) => glue::debug_expr(w, e),
    }
}
/// Answers one query in this (fresh) process.
pub fn answer(qr: &Query, o: &mut Out) {
    let mut items: Vec<u64> = vec![];
    let mut full = String::new();
    let text: &'static str = Box::leak(qr.text.clone().into_boxed_str());
    match qr.kind {
        b'P' => match Expression::parse(text) {
            Ok(e) => {
                items.push(1);
                items.push(hs(e.original()));
                full = "ok".into();
            }
            Err(e) => {
                full = err_text(&e);
                items.push(2);
                items.push(hs(&full));
            }
        },
        b'L' => {
            if let Ok(e) = Expression::parse(text) {
                for p in glue::preds(&e) {
                    items.push(hs(&pred_key(&p)));
                    if items.len() > 2 * text.len() + 16 {
                        set_violation(o, "endless", "a predicate listing does not end");
                        break;
                    }
                }
            }
        }
        b'X' => {
            for it in glue::lex(text) {
                items.push(lex_hash(&it));
                if it.is_err() {
                    break;
                }
                if items.len() > 2 * text.len() + 16 {
                    set_violation(o, "endless", "a token stream does not end");
                    break;
                }
            }
        }
        b'M' => {
            if let Ok(e) = Expression::parse(text) {
                items.extend(match_bits(&e, qr.a.parse().unwrap_or(0)).iter().map(|x| x.1 as u64));
            }
        }
        b'S' => {
            full = from_str_text(text);
            items.push(hs(&full));
        }
        _ => {
            let w = what_from_key(&qr.a[1..]);
            let spec = qr.a.as_bytes()[0] - b'0';
            if let Some(v) = value(&w, text, None) {
                items.push(1);
                let _ = render(&mut full, &v, spec);
            }
        }
    }
    let n = items.len().min(o.iso.len());
    o.iso[..n].copy_from_slice(&items[..n]);
    o.iso_len = n as u64;
    let n = full.len().min(o.text.len());
    o.text[..n].copy_from_slice(&full.as_bytes()[..n]);
    o.iso_str = n as u64;
}
fn what_from_key(k: &str) -> What {
    if let Some(n) = k.strip_prefix("tok ") {
        return What::Tok(0, n.parse().unwrap_or(0));
    }
    match k {
        "err" => return What::Err(0),
        "reason" => return What::Reason(0),
        "atomerr" => return What::AtomErr(0),
        "expr" => return What::Expr(0),
        _ => {}
    }
    let nums: Vec<u64> = k.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    let n = |i: usize| nums.get(i).copied().unwrap_or(0);
    if k.starts_with("Field") {
        What::Field(n(0) as usize, n(1) as usize)
    } else if k.starts_with("Fams") {
        What::Fams(n(0) as usize)
    } else if k.starts_with("Atoms") {
        What::Atoms(n(0) as usize)
    } else if k.starts_with("Atom") {
        What::Atom(n(0) as u32)
    } else {
        What::MyFams(n(0))
    }
}
fn from_str_text(t: &str) -> String {
    let a = match t.parse::<HasAtomic>() {
        Ok(HasAtomic::IntegerSize(n)) => format!("size {n}"),
        Ok(_) => "ptr".into(),
        Err(e) => format!("{e} {e:?}"),
    };
    let b = match t.parse::<targets::Endian>() {
        Ok(e) => format!("{e:?}"),
        Err(e) => format!("{e} {e:?}"),
    };
    format!("{a} | {b} | {}", targets::rustc_version())
}

// ------------------------------------------------------------------ the run
struct Info {
    text: &'static str,
    model: Option<Arc<Model>>,
    fresh: bool,
}
struct Ctx {
    plan: Plan,
    oracle: &'static Oracle,
    infos: Vec<Arc<Info>>,
    shared: Vec<Option<(Arc<Expression>, Arc<Info>)>>,
    errs: Vec<Option<Arc<ParseError>>>,
    out: *mut Out,
    nested_plan: bool,
}
static mut CTX: *const Ctx = std::ptr::null();
static mut OUT: *mut Out = std::ptr::null_mut();
fn ctx() -> &'static Ctx {
    unsafe { &**std::ptr::addr_of!(CTX) }
}
fn out() -> &'static mut Out {
    unsafe { &mut **std::ptr::addr_of!(OUT) }
}
pub fn note_alloc_failure() {
    out().failing = 1;
    count(C::f_alloc_failure, 1);
}
fn count(c: C, n: u64) {
    out().cnt[c as usize] += n;
}
fn cmax(c: C, n: u64) {
    let v = &mut out().cnt[c as usize];
    if n > *v {
        *v = n;
    }
}
fn note(h: u64) {
    let o = out();
    o.hash = h2(o.hash ^ unsafe { sim_tid() } as u64, h);
}
fn fail(class: &str, msg: &str) -> ! {
    inlib(0);
    let o = out();
    let m = format!("{msg} (thread {}, step {})", unsafe { sim_tid() }, unsafe { sim_step() });
    set_violation(o, class, &m);
    unsafe { sim_die(77) }
}
/// A violation of some of the properties only: the others do not promise this.
fn fail_for(props: &[&str], class: &str, msg: &str) {
    if props.contains(&ctx().plan.prof.as_str()) {
        fail(class, msg);
    }
}
/// Whether this thread is inside the library, for the allocator and the step counter.
fn inlib(v: u32) -> u32 {
    unsafe { sim_inlib(v as i32) };
    INLIB.with(|c| c.replace(v))
}
struct Flag(u32);
impl Drop for Flag {
    fn drop(&mut self) {
        inlib(self.0);
    }
}
fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = Flag(inlib(1));
    f()
}
fn unlib() -> Flag {
    Flag(inlib(0))
}
struct Injected(u64);

enum It {
    L(Box<dyn Items<Result<LexerToken<'static>, ParseError>>>),
    P(Box<dyn Items<Predicate<'static>>>),
}
struct Stream {
    it: It,
    _src: Option<Arc<Expression>>,
    info: Arc<Info>,
    expect: Vec<u64>,
    got: usize,
    ended: u32,
    err: bool,
    polls: usize,
    home: usize,
}
struct Th {
    id: usize,
    exprs: RefCell<Vec<Option<(Arc<Expression>, Arc<Info>)>>>,
    streams: RefCell<Vec<Option<Stream>>>,
    round: Cell<usize>,
    evs: Cell<u32>,
    depth: Cell<u32>,
}
struct Pool(RefCell<Vec<Stream>>);
unsafe impl Sync for Pool {}
static POOL: Pool = Pool(RefCell::new(Vec::new()));

/// The evaluation whose callbacks are being made by this thread.
struct Ev<'a> {
    th: &'a Th,
    acts: &'a [Act],
    n: Cell<u32>,
    fired: Cell<u64>, // id of the injected panic
    after: Cell<u32>, // callbacks made after it
    drops: Cell<u32>,
    ops: Cell<[u64; 5]>, // top, bottom, and, or, not
}
thread_local! {
    static EV: Cell<*const Ev<'static>> = const { Cell::new(std::ptr::null()) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Every call the library makes into caller code comes through here.
fn callback(ev: &Ev<'_>, fault: C) {
    let _g = unlib();
    unsafe { sim_point(ffi::PLACE_CALLBACK) };
    if ev.fired.get() != 0 {
        ev.after.set(ev.after.get() + 1);
    }
    let n = ev.n.get();
    ev.n.set(n + 1);
    for a in ev.acts.iter().filter(|a| a.at == n && a.on == AT_CALL) {
        match &a.what {
            Do::Nest(o) => nest(ev, o),
            Do::Panic => {
                count(fault, 1);
                let id = unsafe { sim_step() } | 1;
                ev.fired.set(id);
                let _g = Unwinding(ev);
                resume_unwind(Box::new(Injected(id)));
            }
            Do::Stop => {}
        }
    }
}
fn nest(ev: &Ev<'_>, o: &Op) {
    count(C::nested_calls, 1);
    let saved = EV.with(|c| c.replace(std::ptr::null()));
    ev.th.depth.set(ev.th.depth.get() + 1);
    op(ev.th, o);
    ev.th.depth.set(ev.th.depth.get() - 1);
    EV.with(|c| c.set(saved));
}
/// A value of the caller's whose drop, while the caller's panic unwinds, calls the library.
struct Unwinding<'a, 'b>(&'a Ev<'b>);
impl Drop for Unwinding<'_, '_> {
    fn drop(&mut self) {
        let ev = self.0;
        for a in ev.acts.iter().filter(|a| a.on == AT_UNWIND) {
            if let Do::Nest(o) = &a.what {
                count(C::calls_unwinding, 1);
                nest(ev, o);
            }
        }
    }
}
fn logic_hook(k: u8) {
    let p = EV.with(|c| c.get());
    if p.is_null() {
        return;
    }
    count(C::logic_ops, 1);
    let ev = unsafe { &*p };
    let mut ops = ev.ops.get();
    if let Some(n) = ops.get_mut(k as usize) {
        *n += 1;
    }
    ev.ops.set(ops);
    callback(ev, C::f_panic_logic);
}
struct SetEv(*const Ev<'static>);
impl Drop for SetEv {
    fn drop(&mut self) {
        EV.with(|c| c.set(self.0));
    }
}
fn set_ev(ev: &Ev<'_>) -> SetEv {
    SetEv(EV.with(|c| c.replace(ev as *const Ev<'_> as *const Ev<'static>)))
}
fn new_ev<'a>(th: &'a Th, acts: &'a [Act]) -> Ev<'a> {
    Ev { th, acts, n: Cell::new(0), fired: Cell::new(0), after: Cell::new(0), ops: Cell::new([0; 5]), drops: Cell::new(0) }
}
/// Runs `f`; a panic of the library is a violation, one of ours must come out as it went in.
fn guarded<R>(what: &str, ev: Option<&Ev<'_>>, f: impl FnOnce() -> R) -> Option<R> {
    let failed0 = T_FAILED.with(|c| c.get());
    let r = catch_unwind(AssertUnwindSafe(f));
    inlib(0);
    let fired = ev.map(|e| e.fired.get()).unwrap_or(0);
    match r {
        Ok(v) => {
            if fired != 0 {
                fail("swallowed-panic", &format!("{what}: the caller's panic did not reach the caller"));
            }
            Some(v)
        }
        Err(p) => {
            match p.downcast_ref::<Injected>() {
                Some(i) if i.0 == fired => {}
                Some(_) => fail("stray-panic", &format!("{what}: got a panic that another call had raised")),
                None => {
                    if T_FAILED.with(|c| c.get()) != failed0 {
                        return None; // out of memory in this call: giving up is allowed
                    }
                    let m = LAST_PANIC.with(|l| l.borrow().clone());
                    fail("panic", &format!("{what} panicked: {m}"));
                }
            }
            if ev.unwrap().after.get() != 0 {
                fail_for(&["C02", "C03"], "call-after-panic", &format!("{what}: {} callbacks after the caller's panic", ev.unwrap().after.get()));
            }
            None
        }
    }
}
fn short(t: &str) -> String {
    if t.len() <= 300 {
        format!("{t:?}")
    } else {
        let a = (0..=120).rev().find(|i| t.is_char_boundary(*i)).unwrap();
        let b = (t.len() - 60..t.len()).find(|i| t.is_char_boundary(*i)).unwrap();
        format!("{:?}...{:?} ({} bytes)", &t[..a], &t[b..], t.len())
    }
}
fn iso(kind: u8, a: &str, text: &str) -> &'static Iso {
    let k = q(kind, a, text).key();
    match ctx().oracle.iso.get(&k) {
        Some(i) => i,
        None => {
            let o = out();
            o.failing = 99;
            set_violation(o, "harness", &format!("no reference answer for {k:?}"));
            unsafe { sim_die(78) }
        }
    }
}
fn check_iso<'a>(what: &str, i: &'a Iso, text: &str) -> &'a Iso {
    if let Some(c) = &i.crash {
        fail("reference", &format!("{what} of {} on its own: {c}", short(text)));
    }
    i
}
fn info(th: &Th, t: usize) -> Arc<Info> {
    let c = ctx();
    let base = &c.infos[t % c.infos.len()];
    if !c.plan.fresh || th.round.get() == 0 {
        return base.clone();
    }
    let text = if base.model.is_some() { format!("any({}, fresh_r{})", strip(base.text), th.round.get()) } else { format!("{} r{}", base.text, th.round.get()) };
    let model = if base.model.is_some() { Model::parse(&text).map(Arc::new) } else { None };
    Arc::new(Info { text: Box::leak(text.into_boxed_str()), model, fresh: true })
}
fn get(th: &Th, e: ERef) -> Option<(Arc<Expression>, Arc<Info>)> {
    let c = ctx();
    let own = |i: usize| th.exprs.borrow()[i % 4].clone();
    let sh = |i: usize| if c.shared.is_empty() { None } else { c.shared[i % c.shared.len()].clone() };
    match e {
        ERef::Own(i) => own(i).or_else(|| sh(i)),
        ERef::Shared(i) => sh(i).or_else(|| own(i)),
    }
}
/// Library work of a call, against a linear bound.
fn bounded<R>(what: &str, len: usize, f: impl FnOnce() -> R) -> R {
    let e0 = unsafe { sim_edges_of_thread() };
    let b0 = T_BYTES.with(|c| c.get());
    let r = f();
    let de = unsafe { sim_edges_of_thread() } - e0;
    let db = T_BYTES.with(|c| c.get()) - b0;
    if ctx().plan.bounds {
        let kb = (len as u64 + 1023) / 1024;
        if len > 1000 {
            cmax(C::max_edges_per_kb, de / kb.max(1));
            cmax(C::max_bytes_per_kb, db / kb.max(1));
        }
        if de > 20_000 + EDGE_BOUND * len as u64 {
            fail_for(&["C07"], "step-bound", &format!("{what} of a text of {len} bytes executed {de} branches"));
        }
        if db > 200_000 + BYTE_BOUND * len as u64 {
            fail_for(&["C07"], "byte-bound", &format!("{what} of a text of {len} bytes allocated {db} bytes"));
        }
    }
    r
}
const EDGE_BOUND: u64 = 500;
const BYTE_BOUND: u64 = 4000;

fn parse(i: &Info) -> Result<Expression, ParseError> {
    // the text lives in a buffer of its own, gone when the call is over
    let tmp = i.text.to_string();
    bounded("parse", i.text.len(), || lib(|| Expression::parse(&tmp)))
}
fn check_parse(i: &Info, r: &Result<Expression, ParseError>) {
    match r {
        Ok(e) => {
            count(C::ok_values, 1);
            note(1);
            if e.original() != strip(i.text) {
                fail("wrong-parse", &format!("parse of {}: original() is {}", short(i.text), short(e.original())));
            }
            if i.model.is_none() && !i.fresh {
                let x = check_iso("parse", iso(b'P', "", i.text), i.text);
                if x.items[0] != 1 {
                    fail("wrong-parse", &format!("parse of {} succeeded; on its own it gives {}", short(i.text), x.full));
                }
            }
        }
        Err(e) => {
            count(C::errors_returned, 1);
            let s = lib(|| err_text(e));
            note(hs(&s));
            if i.model.is_some() {
                fail("wrong-parse", &format!("parse of the well-formed {} gave an error: {}", short(i.text), short(&s)));
            }
            if !i.fresh {
                count(C::f_damaged_text, 1);
                let x = check_iso("parse", iso(b'P', "", i.text), i.text);
                if x.items[0] != 2 || x.items[1] != hs(&s) {
                    fail("wrong-parse", &format!("parse of {} gave {}; on its own it gives {}", short(i.text), short(&s), x.full));
                }
            }
        }
    }
}
/// Is `calls` part of `all` (both sorted)?
fn subset(calls: &[u64], all: &[u64]) -> bool {
    let mut j = 0;
    for c in calls {
        while j < all.len() && all[j] < *c {
            j += 1;
        }
        if j >= all.len() || all[j] != *c {
            return false;
        }
        j += 1;
    }
    true
}
fn eval(th: &Th, e: ERef, m: Mode, seed: u64, acts: &[Act]) {
    let Some((e, i)) = get(th, e) else { return count(C::op_skipped, 1) };
    eval_of(th, &e, &i, m, seed, acts)
}
/// After an allocation has failed in a call that gave a value all the same.
fn verify(th: &Th, e: &Expression, i: &Arc<Info>) {
    eval_of(th, e, i, Mode::Val, 1, &[]);
    if let Some(m) = &i.model {
        let Some(mut got) = guarded("predicates()", None, || lib(|| glue::preds(e).map(|p| { let _g = unlib(); hs(&pred_key(&p)) }).collect::<Vec<u64>>())) else { return };
        got.sort_unstable();
        if got != m.pred_hashes {
            fail("wrong-listing", &format!("predicates() of {}, made while memory ran out", short(i.text)));
        }
    }
}
fn eval_of(th: &Th, e: &Expression, i: &Arc<Info>, m: Mode, seed: u64, acts: &[Act]) {
    let Some(model) = i.model.clone() else { return count(C::op_skipped, 1) };
    count(C::op_eval, 1);
    let ev = new_ev(th, acts);
    let calls: RefCell<Vec<u64>> = RefCell::new(Vec::with_capacity(model.preds.len() + 4));
    let evid = (th.evs.get() + 1) | (th.id as u32 + 1) << 24;
    th.evs.set(th.evs.get() + 1);
    let ids = Cell::new(0u64);
    let live0 = LIVE.with(|c| c.get());
    let what = || format!("eval ({m:?}) of {}", short(i.text));
    // one call of the closure
    let enter = |p: &Predicate<'_>| -> String {
        let k = {
            let _g = unlib();
            count(C::callbacks, 1);
            let k = pred_key(p);
            calls.borrow_mut().push(hs(&k));
            k
        };
        callback(&ev, C::f_panic_predicate);
        k
    };
    let ans = |k: &str| h2(seed, hs(k));
    let opt = |k: &str| match ans(k) % 5 {
        0 | 1 => Some(true),
        2 | 3 => Some(false),
        _ => None,
    };
    enum R {
        B(bool),
        O(Option<bool>),
        V(Val),
        Z(simval::Zst),
    }
    let se = set_ev(&ev);
    let nest = acts.iter().any(|a| matches!(a.what, Do::Nest(_)));
    let body = || {
        guarded(&what(), Some(&ev), || match m {
            Mode::Bool => R::B(lib(|| {
                glue::eval_bool(e, &mut |p| {
                    let k = enter(p);
                    let _g = unlib();
                    ans(&k) & 1 == 1
                })
            })),
            Mode::Opt => R::O(lib(|| {
                glue::eval_opt(e, &mut |p| {
                    let k = enter(p);
                    let _g = unlib();
                    opt(&k)
                })
            })),
            Mode::Val | Mode::Big => R::V(lib(|| {
                let f = &mut |p: &Predicate<'_>| {
                    let k = enter(p);
                    let _g = unlib();
                    let id = h2(evid as u64, calls.borrow().len() as u64);
                    ids.set(ids.get().wrapping_add(id));
                    Val::leaf(&k, id, evid)
                };
                if m == Mode::Val {
                    glue::eval_val(e, f)
                } else {
                    glue::eval_big(e, f)
                }
            })),
            Mode::Zst => R::Z(lib(|| {
                glue::eval_zst(e, &mut |p| {
                    enter(p);
                    let _g = unlib();
                    simval::Zst::new()
                })
            })),
        })
    };
    let r = if nest { body() } else { bounded("evaluation", i.text.len(), body) };
    drop(se);
    let mut calls = calls.into_inner();
    let ncalls = calls.len();
    calls.sort_unstable();
    count(C::predicates_answered, ncalls as u64);
    let full = r.is_some();
    note(h2(ncalls as u64, full as u64));
    if full && calls != model.pred_hashes {
        fail_for(&["C02"], "wrong-queries", &format!("{}: the closure was called {} times, for {} of the {} predicates in the text", what(), ncalls, if subset(&calls, &model.pred_hashes) { "only some" } else { "others than those" }, model.preds.len()));
    }
    if !full && !subset(&calls, &model.pred_hashes) {
        fail_for(&["C02"], "wrong-queries", &format!("{} (abandoned): the closure was called {} times for {} predicates, or for others", what(), ncalls, model.preds.len()));
    }
    match r {
        Some(R::B(b)) => {
            note(b as u64);
            let w = model.eval(&|p| Some(ans(p) & 1 == 1)).unwrap();
            if b != w {
                fail("wrong-value", &format!("{}: got {b}, should be {w}", what()));
            }
        }
        Some(R::O(b)) => {
            note(b.map(|x| x as u64).unwrap_or(2));
            let w = model.eval(&opt);
            if b != w {
                fail("wrong-value", &format!("{}: got {b:?}, should be {w:?}", what()));
            }
        }
        Some(R::V(v)) => {
            note(v.term.digest() as u64);
            if v.leaves != ncalls as u64 || v.ids != ids.get() {
                fail_for(&["C02"], "lost-answer", &format!("{}: {} answers were given, the result is made from {} (or one was used twice)", what(), ncalls, v.leaves));
            }
            if v.term != model.term {
                fail("wrong-structure", &format!("{}: the answers were not combined as not/all/any prescribe", what()));
            }
            drop(v);
        }
        Some(R::Z(z)) => {
            let n = ev.ops.get();
            for (k, w) in ["and", "or", "not"].iter().enumerate() {
                let (lo, hi) = model.ops[k];
                if n[k + 2] < lo || n[k + 2] > hi {
                    fail_for(&["C02"], "wrong-structure", &format!("{}: {w} was used {} times; not/all/any prescribe {lo} to {hi}", what(), n[k + 2]));
                }
            }
            drop(z)
        }
        None => {}
    }
    let live1 = LIVE.with(|c| c.get());
    if live1 != live0 {
        fail_for(&["C02", "C03", "C08"], "leaked-answer", &format!("{}: {} answer values more than before are alive after it", what(), live1 - live0));
    }
    val_health();
}
fn val_health() {
    if simval::BAD.load(Relaxed) != 0 {
        fail("double-drop", "an answer value was used after it was gone");
    }
    if simval::MIXED.load(Relaxed) != 0 {
        fail("mixed-evaluations", "answers of different evaluations were combined");
    }
    if alloc::CORRUPT.load(Relaxed) != 0 {
        fail("memory", "a block of memory was freed twice or written after being freed");
    }
}
fn listing_expect(i: &Info) -> Option<Vec<u64>> {
    if i.fresh {
        return None;
    }
    let x = check_iso("listing the predicates", iso(b'L', "", i.text), i.text);
    if let Some(m) = &i.model {
        let mut s = x.items.clone();
        s.sort_unstable();
        if s != m.pred_hashes {
            fail_for(&["C05"], "wrong-listing", &format!("listing the predicates of {} on its own gives {} items, not each of the {} predicates once", short(i.text), s.len(), m.preds.len()));
        }
    }
    Some(x.items.clone())
}
fn list(th: &Th, e: ERef, acts: &[Act]) {
    let Some((e, i)) = get(th, e) else { return count(C::op_skipped, 1) };
    count(C::op_list, 1);
    let expect = listing_expect(&i);
    let ev = new_ev(th, acts);
    let stop = acts.iter().find(|a| a.what == Do::Stop).map(|a| a.at as usize);
    let mut got: Vec<u64> = vec![];
    let what = || format!("predicates() of {}", short(i.text));
    let mut body = || {
        guarded(&what(), Some(&ev), || {
            let mut it = lib(|| glue::preds(&e));
            loop {
                if Some(got.len()) == stop {
                    count(C::f_abandoned_listing, 1);
                    return false;
                }
                let Some(p) = lib(|| it.next()) else { return true };
                got.push(hs(&pred_key(&p)));
                lib(|| drop(p));
                callback(&ev, C::f_panic_iterator);
                if got.len() > 2 * i.text.len() + 16 {
                    fail_for(&["C05"], "endless", &format!("{}: does not end", what()));
                    return false;
                }
            }
        })
    };
    let nest = acts.iter().any(|a| matches!(a.what, Do::Nest(_)));
    let done = if nest { body() } else { bounded("listing", i.text.len(), body) };
    note(got.len() as u64);
    let done = done == Some(true);
    match &expect {
        Some(x) => {
            if (done && got != *x) || !x.starts_with(&got) {
                fail("wrong-listing", &format!("{}: {} items, differing from the {} of an undisturbed listing", what(), got.len(), x.len()));
            }
        }
        None => {
            if let (true, Some(m)) = (done, &i.model) {
                got.sort_unstable();
                if got != m.pred_hashes {
                    fail("wrong-listing", &what());
                }
            }
        }
    }
}
struct Sink<'a> {
    ev: &'a Ev<'a>,
    limit: i64,
    buf: String,
    failed: bool,
    after: u32,
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _g = unlib();
        if self.failed {
            self.after += 1;
            return Err(std::fmt::Error);
        }
        callback(self.ev, C::f_panic_sink);
        if self.limit >= 0 && self.buf.len() + s.len() > self.limit as usize {
            let room = self.limit as usize - self.buf.len();
            let cut = (0..=room).rev().find(|k| s.is_char_boundary(*k)).unwrap();
            self.buf.push_str(&s[..cut]);
            self.failed = true;
            count(C::f_sink_failure, 1);
            return Err(std::fmt::Error);
        }
        self.buf.push_str(s);
        Ok(())
    }
}
fn format_op(th: &Th, w: &What, spec: u8, limit: i64, acts: &[Act]) {
    let c = ctx();
    let text: &'static str = match w {
        What::Err(t) | What::Reason(t) | What::Tok(t, _) | What::AtomErr(t) | What::Expr(t) => c.infos[*t % c.infos.len()].text,
        _ => "",
    };
    let have = match w {
        What::Err(t) | What::Reason(t) if (*t + th.id) % 3 != 0 => c.errs[*t % c.errs.len()].clone(),
        _ => None,
    };
    let x = check_iso("formatting", iso(b'F', &fmt_key(w, spec), text), text);
    let v = guarded("making a value to format", None, || value(w, text, have)).flatten();
    let Some(v) = v else {
        if !x.items.is_empty() && out().failing == 0 {
            fail("wrong-parse", &format!("{}: no value to format ({w:?})", short(text)));
        }
        return count(C::op_skipped, 1);
    };
    if x.items.is_empty() {
        fail("wrong-parse", &format!("{}: a value to format where there should be none ({w:?})", short(text)));
    }
    count(C::op_format, 1);
    let ev = new_ev(th, acts);
    let limit = if limit >= 1 << 40 { (limit - (1 << 40)) % (x.full.len() as i64 + 1) } else { limit };
    let mut s = Sink { ev: &ev, limit, buf: String::new(), failed: false, after: 0 };
    // what an expression's Debug shows is its own affair (it may well say whether something is cached)
    let free = matches!(v, Shown::X(_));
    let what = || format!("formatting {w:?} (way {spec}) {}", short(text));
    let mut body = || {
        guarded(&what(), Some(&ev), || {
            lib(|| render(&mut s, &v, spec))
        })
    };
    let nest = acts.iter().any(|a| matches!(a.what, Do::Nest(_)));
    let r = if nest { body() } else { bounded("formatting", text.len() + x.full.len(), body) };
    if !free {
        note(hs(&s.buf));
    }
    if s.after != 0 {
        fail_for(&["C06"], "write-after-failure", &format!("{}: {} writes after the sink had failed", what(), s.after));
    }
    if !free && !x.full.starts_with(&s.buf) {
        fail("wrong-rendering", &format!("{}: wrote {}, not a part of {}", what(), short(&s.buf), short(&x.full)));
    }
    match r {
        Some(Ok(())) => {
            if s.failed {
                fail_for(&["C06"], "failure-hidden", &format!("{}: reported success although the sink failed after {} bytes", what(), s.buf.len()));
            }
            if !free && s.buf != x.full {
                fail("wrong-rendering", &format!("{}: reported success after {} of {} bytes", what(), s.buf.len(), x.full.len()));
            }
        }
        Some(Err(_)) => {
            if !s.failed {
                fail_for(&["C06"], "spurious-failure", &format!("{}: reported failure although the sink did not fail", what()));
            }
        }
        None => {}
    }
}
fn clone_cmp(th: &Th, a: ERef, b: ERef, dst: usize) {
    let (Some((ea, ia)), Some((eb, ib))) = (get(th, a), get(th, b)) else { return count(C::op_skipped, 1) };
    count(C::op_clone, 1);
    let failed = T_FAILED.with(|c| c.get());
    let r = bounded("clone and compare", ia.text.len() + ib.text.len(), || {
        guarded("clone and compare", None, || {
            let c = lib(|| glue::clone(&ea));
            let same = lib(|| glue::eq(&c, &eb));
            let refl = lib(|| glue::eq(&ea, &c));
            (c, same, refl)
        })
    });
    let Some((c, same, refl)) = r else { return };
    note(same as u64);
    if !refl || c.original() != ea.original() {
        fail("wrong-clone", &format!("a clone of {} differs from it", short(ia.text)));
    }
    if same != (strip(ia.text) == strip(ib.text)) {
        fail("wrong-compare", &format!("{} == {}: {same}", short(ia.text), short(ib.text)));
    }
    if T_FAILED.with(|c| c.get()) != failed {
        verify(th, &c, &ia);
    }
    if dst < 4 {
        let old = th.exprs.borrow_mut()[dst].replace((Arc::new(c), ia));
        lib(|| drop(old));
    } else {
        lib(|| drop(c));
    }
}
fn lookup(k: u64) {
    count(C::op_lookup, 1);
    let mut r = Rng::new(k);
    let t = ALL_BUILTINS[r.below(ALL_BUILTINS.len())].triple.as_str();
    let s = match r.below(4) {
        0 => format!("{t}x"),
        1 => t[..r.below(t.len())].to_string(),
        _ => t.to_string(),
    };
    let Some(got) = guarded("target lookup", None, || lib(|| targets::get_builtin_target_by_triple(&s))) else { return };
    let want = ALL_BUILTINS.iter().find(|b| b.triple.as_str() == s);
    note(got.is_some() as u64);
    if got != want {
        fail("wrong-lookup", &format!("lookup of {s:?} gave {:?}", got.map(|t| t.triple.as_str())));
    }
}
/// Many short texts of one length, each with a known outcome: what one leaves behind must not colour another.
fn sweep(seed: u64, n: usize, len: usize) {
    count(C::op_sweep, 1);
    let mut r = Rng::new(seed);
    let style = r.below(5);
    for k in 0..n {
        let (text, multi) = crate::model::sweep_text(&mut r, len, style);
        let model = Model::parse(&text);
        let what = |w: &str| format!("{w} {text:?} (number {k} of a series of texts)");
        let Some(res) = guarded(&what("parse of"), None, || lib(|| Expression::parse(&text))) else { return };
        match &res {
            Ok(e) => {
                let Some(m) = &model else { fail("wrong-parse", &format!("{} succeeded", what("parse of"))); return };
                if e.original() != text {
                    fail("wrong-parse", &format!("{}: original() is {:?}", what("parse of"), e.original()));
                }
                let ans = |k: &str| h2(seed, hs(k)) & 1 == 1;
                let Some(v) = guarded(&what("eval of"), None, || lib(|| glue::eval_bool(e, &mut |p| { let _g = unlib(); ans(&pred_key(p)) }))) else { return };
                if Some(v) != m.eval(&|k| Some(ans(k))) {
                    fail("wrong-value", &format!("{} gave {v}", what("eval of")));
                }
                let Some(mut got) = guarded(&what("predicates() of"), None, || {
                    let mut it = lib(|| glue::preds(e));
                    let mut v = vec![];
                    while let Some(p) = lib(|| it.next()) {
                        v.push(hs(&pred_key(&p)));
                        if v.len() > 100 { break; }
                    }
                    v
                }) else { return };
                got.sort_unstable();
                if got != m.pred_hashes {
                    fail("wrong-listing", &what("predicates() of"));
                }
            }
            Err(e) => {
                if model.is_some() {
                    fail("wrong-parse", &format!("{} gave an error: {}", what("parse of the well-formed"), lib(|| err_text(e))));
                }
                if e.original != text || e.span.end > text.len() || (multi && (e.span != (0..text.len()) || !glue::is_multi(e))) {
                    fail("wrong-parse", &format!("{} gave another text's error: {}", what("parse of"), lib(|| err_text(e))));
                }
            }
        }
        note(res.is_ok() as u64);
        lib(|| drop(res));
        if k % 8 == 0 {
            let Some(got) = guarded("target lookup", None, || lib(|| targets::get_builtin_target_by_triple(&text))) else { return };
            if got.is_some() {
                fail("wrong-lookup", &format!("lookup of {text:?} gave {:?}", got.map(|t| t.triple.as_str())));
            }
        }
    }
}
fn match_op(th: &Th, e: ERef, target: usize) {
    let Some((e, i)) = get(th, e) else { return count(C::op_skipped, 1) };
    if i.fresh {
        return count(C::op_skipped, 1);
    }
    count(C::op_match, 1);
    let Some(got) = bounded("matching", i.text.len() * 4, || guarded("matching", None, || lib(|| match_bits(&e, target)))) else { return };
    let h: Vec<u64> = got.iter().map(|x| x.1 as u64).collect();
    note(h.iter().fold(7, |a, b| h2(a, *b)));
    let x = check_iso("matching", iso(b'M', &target.to_string(), i.text), i.text);
    let singles = i.model.as_ref().map(|m| single_preds(m)).unwrap_or_default();
    if !singles.is_empty() {
        for (k, r) in &got {
            let Some(t) = pred_text(k) else { continue };
            if singles.binary_search(&t).is_err() {
                continue; // not in the text: the listing is at fault
            }
            let y = check_iso("matching", iso(b'M', &target.to_string(), &t), &t);
            if y.items.first() != Some(&(*r as u64)) {
                fail("wrong-match", &format!("matching {} against target {target}: {t} gives {r}, unlike on its own", short(i.text)));
            }
        }
    }
    if x.items != h {
        fail("wrong-match", &format!("matching {} against target {target} gave other answers than on its own", short(i.text)));
    }
}
fn sets(th: &Th, seed: u64, acts: &[Act], fams: bool) {
    let ev = new_ev(th, acts);
    if fams {
        count(C::op_families, 1);
        let v = my_fams(seed);
        let mut it = v.clone().into_iter().inspect(|_| callback(&ev, C::f_panic_iterator));
        let r: Option<Families> = guarded("Families::new", Some(&ev), || lib(|| glue::fams(&mut it)));
        if let Some(f) = r {
            let mut w = v.clone();
            w.sort();
            if f[..] != w[..] || v.iter().any(|x| !f.contains(x)) || f.contains(&Family::new("no")) || f != glue::fams(&mut w.into_iter()) {
                fail("wrong-set", &format!("Families::new of {v:?} gave {f:?}"));
            }
        }
    } else {
        count(C::op_atomics, 1);
        let v = my_atoms(seed);
        let mut it = v.clone().into_iter().inspect(|_| callback(&ev, C::f_panic_iterator));
        let r: Option<HasAtomics> = guarded("HasAtomics::new", Some(&ev), || lib(|| glue::atoms(&mut it)));
        if let Some(f) = r {
            let mut w = v.clone();
            w.sort();
            if f[..] != w[..] || v.iter().any(|x| !f.contains(*x)) || f.contains(HasAtomic::IntegerSize(9)) {
                fail("wrong-set", &format!("HasAtomics::new of {v:?} gave {f:?}"));
            }
        }
    }
}
fn put_stream(th: &Th, s: usize, st: Option<Stream>) -> Option<Stream> {
    std::mem::replace(&mut th.streams.borrow_mut()[s % 4], st)
}
fn poll(st: &mut Stream) {
    st.polls += 1;
    let (is_lex, text) = (matches!(st.it, It::L(_)), st.info.text);
    let what = || format!("{} of {}", if is_lex { "token stream" } else { "predicate listing" }, short(text));
    let item = match guarded(&what(), None, || lib(|| match &mut st.it {
        It::L(l) => l.next().map(|x| {
            let _g = unlib();
            (lex_hash(&x), x.is_err())
        }),
        It::P(p) => p.next().map(|x| {
            let _g = unlib();
            (hs(&pred_key(&x)), false)
        }),
    })) {
        Some(i) => i,
        None => return,
    };
    note(item.map(|x| x.0).unwrap_or(3));
    if st.ended > 0 {
        count(C::f_poll_after_end, 1);
    }
    match item {
        None => {
            if st.got < st.expect.len() && !st.err {
                fail("stream-short", &format!("{}: ended after {} of {} items", what(), st.got, st.expect.len()));
            }
            st.ended += 1;
        }
        Some((h, err)) => {
            if st.ended > 0 {
                fail_for(&["C05"], "stream-revived", &format!("{}: an item after the end", what()));
            }
            if st.err {
                fail_for(&["C05"], "item-after-error", &format!("{}: an item after the error", what()));
            }
            if err {
                st.err = true;
                count(C::f_poll_after_error, 1);
            }
            if st.expect.get(st.got) != Some(&h) {
                fail("wrong-item", &format!("{}: item {} differs from the one of an undisturbed stream", what(), st.got));
            }
            st.got += 1;
        }
    }
}
/// Skips `n` items and takes the next.
fn nth(st: &mut Stream, n: usize) {
    st.polls += 1;
    let (is_lex, text) = (matches!(st.it, It::L(_)), st.info.text);
    let what = || format!("nth({n}) of a {} of {}", if is_lex { "token stream" } else { "predicate listing" }, short(text));
    let Some((hint, item)) = guarded(&what(), None, || lib(|| match &mut st.it {
        It::L(l) => (l.size_hint(), l.nth(n).map(|x| {
            let _g = unlib();
            (lex_hash(&x), x.is_err())
        })),
        It::P(p) => (p.size_hint(), p.nth(n).map(|x| {
            let _g = unlib();
            (hs(&pred_key(&x)), false)
        })),
    })) else { return };
    let left = if st.ended > 0 { 0 } else { st.expect.len() - st.got };
    if hint.0 > left || hint.1.is_some_and(|h| h < left) {
        fail_for(&["C05"], "wrong-size-hint", &format!("{}: announced {hint:?} items when {left} were left", what()));
    }
    note(item.map(|x| x.0).unwrap_or(3));
    let want = if n < left { Some(st.expect[st.got + n]) } else { None };
    if item.map(|x| x.0) != want {
        fail("wrong-item", &format!("{}: not the item that {} single polls give", what(), n + 1));
    }
    if item.is_some() {
        st.got += n + 1;
        st.err |= item.unwrap().1;
    } else {
        st.got = st.expect.len();
        st.ended += 1;
    }
}
/// Consumes what is left by one of Iterator's own methods.
fn rest(st: Stream, how: u8) {
    let (is_lex, text) = (matches!(st.it, It::L(_)), st.info.text);
    let what = || format!("draining (way {how}) a {} of {}", if is_lex { "token stream" } else { "predicate listing" }, short(text));
    let left: Vec<u64> = if st.ended > 0 { vec![] } else { st.expect[st.got..].to_vec() };
    let mut got: Vec<u64> = vec![];
    let src = st._src.clone();
    let Some(n) = guarded(&what(), None, || match st.it {
        It::L(l) => lib(|| l.rest(how, &mut |x| {
            let _g = unlib();
            got.push(lex_hash(&x));
            drop(x)
        })),
        It::P(p) => lib(|| p.rest(how, &mut |x| {
            let _g = unlib();
            got.push(hs(&pred_key(&x)))
        })),
    }) else { return };
    lib(|| drop(src));
    note(got.len() as u64);
    let last: Vec<u64> = left.last().copied().into_iter().collect();
    let (want, wantn) = match how {
        0 | 1 | 4 => (left.clone(), left.len()),
        2 => (vec![], left.len()),
        3 => (last, left.len()),
        5 => (last, 0),
        _ => (left.iter().step_by(2).copied().collect(), left.len().div_ceil(2)),
    };
    if got != want || n != wantn {
        fail("wrong-item", &format!("{}: gave {} items and said {n}, of {} that were left", what(), got.len(), left.len()));
    }
}
fn op(th: &Th, o: &Op) {
    unsafe { sim_point(ffi::PLACE_CALLBACK + 1) };
    match o {
        Op::Parse { t, dst } => {
            count(C::op_parse, 1);
            let i = info(th, *t);
            let failed = T_FAILED.with(|c| c.get());
            let Some(r) = guarded(&format!("parse of {}", short(i.text)), None, || parse(&i)) else { return };
            check_parse(&i, &r);
            if let Ok(e) = r {
                if T_FAILED.with(|c| c.get()) != failed {
                    verify(th, &e, &i);
                }
                if *dst < 4 {
                    let old = th.exprs.borrow_mut()[*dst].replace((Arc::new(e), i));
                    lib(|| drop(old));
                } else {
                    lib(|| drop(e));
                }
            } else {
                lib(|| drop(r));
            }
        }
        Op::Eval { e, m, seed, acts } => eval(th, *e, *m, *seed, acts),
        Op::List { e, acts } => list(th, *e, acts),
        Op::Fmt { what, spec, limit, acts } => format_op(th, what, *spec, *limit, acts),
        Op::CloneCmp { a, b, dst } => clone_cmp(th, *a, *b, *dst),
        Op::Lookup { k } => lookup(*k),
        Op::Match { e, target } => match_op(th, *e, *target),
        Op::Fams { seed, acts } => sets(th, *seed, acts, true),
        Op::Atoms { seed, acts } => sets(th, *seed, acts, false),
        Op::FromStr { t } => {
            let text = ctx().infos[*t % ctx().infos.len()].text;
            count(C::op_from_str, 1);
            let Some(s) = guarded("from_str", None, || lib(|| from_str_text(text))) else { return };
            let x = check_iso("from_str", iso(b'S', "", text), text);
            if x.items[0] != hs(&s) {
                fail("wrong-from-str", &format!("from_str of {}: {s}, on its own {}", short(text), x.full));
            }
        }
        Op::SLex { t, s } => {
            count(C::op_open, 1);
            let i = ctx().infos[*t % ctx().infos.len()].clone();
            let expect = match &i.model {
                Some(m) => m.toks.clone(),
                None => check_iso("lexing", iso(b'X', "", i.text), i.text).items.clone(),
            };
            let it = match guarded("Lexer::new", None, || lib(|| glue::lex(i.text))) {
                Some(x) => It::L(x),
                None => return,
            };
            let st = Stream { it, _src: None, info: i, expect, got: 0, ended: 0, err: false, polls: 0, home: th.id };
            let old = put_stream(th, *s, Some(st));
            drop_stream(old);
        }
        Op::SList { e, s } => {
            let Some((e, i)) = get(th, *e) else { return count(C::op_skipped, 1) };
            let Some(expect) = listing_expect(&i) else { return count(C::op_skipped, 1) };
            count(C::op_open, 1);
            let er: &'static Expression = unsafe { &*Arc::as_ptr(&e) };
            let Some(it) = guarded("predicates()", None, || lib(|| glue::preds(er))) else { return };
            let st = Stream { it: It::P(it), _src: Some(e), info: i, expect, got: 0, ended: 0, err: false, polls: 0, home: th.id };
            let old = put_stream(th, *s, Some(st));
            drop_stream(old);
        }
        Op::Poll { s, n } => {
            let Some(mut st) = put_stream(th, *s, None) else { return count(C::op_skipped, 1) };
            let all = *n >= 200;
            let mut k = 0;
            loop {
                count(C::op_poll, 1);
                poll(&mut st);
                k += 1;
                unsafe { sim_point(ffi::PLACE_CALLBACK + 2) };
                if all {
                    if st.ended >= 2 {
                        break;
                    }
                    if k > st.info.text.len() + 64 + 2 * st.expect.len() {
                        fail_for(&["C05"], "endless", &format!("a stream over {} does not end", short(st.info.text)));
                        break;
                    }
                } else if k >= *n {
                    break;
                }
            }
            let mut v = th.streams.borrow_mut();
            let slot = &mut v[s % 4];
            let old = if slot.is_none() { slot.replace(st) } else { Some(st) };
            drop(v);
            drop_stream(old);
        }
        Op::Sweep { seed, n, len } => sweep(*seed, *n, *len),
        Op::Nth { s, n } => {
            let Some(mut st) = put_stream(th, *s, None) else { return count(C::op_skipped, 1) };
            count(C::op_nth, 1);
            nth(&mut st, *n);
            let old = put_stream(th, *s, Some(st));
            drop_stream(old);
        }
        Op::Rest { s, how } => {
            let Some(st) = put_stream(th, *s, None) else { return count(C::op_skipped, 1) };
            count(C::op_drain, 1);
            let len = st.info.text.len();
            bounded("draining a stream", len, || rest(st, *how));
        }
        Op::SDrop { s } => {
            let old = put_stream(th, *s, None);
            if old.is_some() {
                count(C::op_stream_drop, 1);
            }
            drop_stream(old);
        }
        Op::Put { s } => {
            if let Some(st) = put_stream(th, *s, None) {
                count(C::op_hand_over, 1);
                POOL.0.borrow_mut().push(st);
            }
        }
        Op::Take { s } => {
            let st = POOL.0.borrow_mut().pop();
            if let Some(mut st) = st {
                count(C::op_take_over, 1);
                if st.home != th.id {
                    count(C::f_stream_handover, 1);
                    st.home = th.id;
                }
                let old = put_stream(th, *s, Some(st));
                drop_stream(old);
            }
        }
        Op::Drop { slot } => {
            let old = th.exprs.borrow_mut()[slot % 4].take();
            if old.is_some() {
                count(C::op_drop, 1);
                bounded("drop", old.as_ref().unwrap().1.text.len(), || guarded("drop", None, || lib(|| drop(old))));
            }
        }
    }
}
fn drop_stream(s: Option<Stream>) {
    if let Some(s) = s {
        if s.ended == 0 {
            count(C::f_abandoned_stream, 1);
        }
        guarded("dropping a stream", None, || lib(|| drop(s)));
    }
}
/// Runs `f` further down the stack.
#[inline(never)]
fn lower(n: usize, f: &mut dyn FnMut()) {
    let pad = [n as u8; 144];
    std::hint::black_box(&pad);
    if n == 0 {
        f()
    } else {
        lower(n - 1, f)
    }
    std::hint::black_box(&pad);
}
fn new_th(id: usize) -> Th {
    Th {
        id,
        exprs: RefCell::new(vec![None, None, None, None]),
        streams: RefCell::new(vec![None, None, None, None]),
        round: Cell::new(0),
        evs: Cell::new(0),
        depth: Cell::new(0),
    }
}
fn clear(th: &Th) {
    for k in 0..4 {
        let s = put_stream(th, k, None);
        drop_stream(s);
    }
    for k in 0..4 {
        op(th, &Op::Drop { slot: k });
    }
}
fn leak_check(lives: &[(i64, i64)], what: &str) {
    let n = lives.len();
    if n < 12 {
        return;
    }
    let at = |k: usize| lives[k];
    let (a, b, c) = (at(n / 4), at(n / 2), at(n - 1));
    if (a.0 < b.0 && b.0 < c.0) || (a.1 < b.1 && b.1 < c.1) {
        let o = out();
        if ctx().plan.prof == "C03" && [C::f_panic_predicate, C::f_panic_logic, C::f_panic_iterator, C::f_panic_sink].iter().all(|c| o.cnt[*c as usize] == 0) {
            return;
        }
        fail_for(&["C03", "C08"], "leak", &format!("{what}: the library holds {} bytes in {} blocks after {} rounds, {} in {} after {}, {} in {} after {}", a.0, a.1, n / 4 + 1, b.0, b.1, n / 2 + 1, c.0, c.1, n));
    }
}
fn live_hook(d: i64) {
    LIVE.with(|c| c.set(c.get() + d));
    let p = EV.with(|c| c.get());
    if d < 0 && !p.is_null() {
        // the library lets go of an answer: the caller's code runs
        let ev = unsafe { &*p };
        let n = ev.drops.get();
        ev.drops.set(n + 1);
        for a in ev.acts.iter().filter(|a| a.on == AT_DROP && a.at == n) {
            if let Do::Nest(o) = &a.what {
                let _g = unlib();
                count(C::calls_at_drop, 1);
                unsafe { sim_point(ffi::PLACE_CALLBACK) };
                nest(ev, o);
            }
        }
    }
}
/// Executes `plan`; never returns.
pub fn run(plan: Plan, oracle: &'static Oracle, sched: Option<&[Dec]>, o: *mut Out) -> ! {
    unsafe {
        OUT = o;
        let lim = [20u64, 25];
        setrlimit(0, &lim);
        let nul = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        if std::env::var_os("SIM_STDERR").is_none() {
            dup2(std::os::fd::AsRawFd::as_raw_fd(&nul), 2);
        }
        alloc::enter_run(plan.pad, plan.policy);
        simval::HOOK = logic_hook;
        simval::LIVE_HOOK = live_hook;
    }
    if plan.env_seed != 0 {
        // surroundings of this run
        let d = ["/", "/dev", "/usr", "/tmp"][(plan.env_seed % 4) as usize];
        let _ = std::env::set_current_dir(d);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _g = unlib();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
    let sched: Option<Vec<Dec>> = sched.map(|s| s.to_vec());
    let cfg = SimCfg {
        seed: plan.sched_seed,
        hot: plan.hot,
        env_seed: plan.env_seed,
        gap: plan.gap,
        explicit_sched: sched.is_some() as u32,
        nsched: sched.as_ref().map(|s| s.len() as u32).unwrap_or(0),
        sched: sched.as_ref().map(|s| s.as_ptr()).unwrap_or(std::ptr::null()),
        max_steps: plan.max_steps,
        fair: 20_000,
        spurious_ppm: plan.spurious_ppm,
        clock_jump_ppm: plan.jump_ppm,
        real_off_ns: plan.real_off,
        rand_seed: plan.rand_seed,
        ncpus: plan.ncpus,
        fake_pid: plan.pid,
    };
    let infos: Vec<Arc<Info>> = plan
        .texts
        .iter()
        .map(|t| Arc::new(Info { text: Box::leak(t.clone().into_boxed_str()), model: oracle.models.get(t).cloned().flatten(), fresh: false }))
        .collect();
    unsafe {
        sim_start(&cfg, &mut (*o).sim);
        sim_thread_top();
    }
    alloc::threads_on();
    let mut shared = vec![];
    let mut errs = vec![None; infos.len()];
    let c = Box::new(Ctx { infos: infos.clone(), shared: vec![], errs: vec![], plan: plan.clone(), oracle, out: o, nested_plan: false });
    unsafe { CTX = Box::leak(c) };
    let _ = (ctx().out, ctx().nested_plan);
    for t in &plan.shared {
        let i = &infos[*t % infos.len()];
        let Some(r) = guarded("parse", None, || parse(i)) else { continue };
        check_parse(i, &r);
        match r {
            Ok(e) => shared.push(Some((Arc::new(e), i.clone()))),
            Err(e) => errs[*t % infos.len()] = Some(Arc::new(e)),
        }
    }
    let c: &'static mut Ctx = Box::leak(Box::new(Ctx { infos, shared, errs, plan, oracle, out: o, nested_plan: false }));
    unsafe { CTX = c };
    let plan = &ctx().plan;
    if plan.stack < (1 << 20) {
        count(C::f_small_stack, plan.threads.len() as u64);
    }
    let single = plan.threads.len() == 1;
    // histories on threads that live on, except that C08 also looks at threads that end
    let inner = single || plan.prof != "C08";
    let outer = if inner { 1 } else { plan.rounds.min(12) };
    let mut lives: Vec<(i64, i64)> = Vec::with_capacity(16);
    for round in 0..outer {
        let mut hs_ = vec![];
        for (id, _) in plan.threads.iter().enumerate() {
            let b = std::thread::Builder::new().stack_size(plan.stack);
            let h = b.spawn(move || {
                let plan = &ctx().plan;
                let th = new_th(id);
                th.round.set(round);
                if let Some((_, n, p)) = plan.alloc_fail.iter().find(|a| a.0 == id) {
                    alloc::PERSIST.store(*p as u32, Relaxed);
                    FAIL_AT.with(|c| c.set(*n));
                }
                let rounds = if inner { plan.rounds } else { 1 };
                lower(plan.stack_pad, &mut || {
                let mut lives: Vec<(i64, i64)> = Vec::with_capacity(rounds + 1);
                for r in 0..rounds {
                    if single {
                        th.round.set(r);
                    }
                    count(C::rounds, 1);
                    for o in &plan.threads[id] {
                        op(&th, o);
                    }
                    clear(&th);
                    if rounds > 1 && single {
                        while let Some(s) = { let x = POOL.0.borrow_mut().pop(); x } {
                            drop_stream(Some(s));
                        }
                    }
                    lives.push((LIB_LIVE.load(Relaxed), LIB_LIVE_N.load(Relaxed)));
                }
                if rounds > 1 && single {
                    leak_check(&lives, "one thread repeating its calls");
                }
                });
                if LIVE.with(|c| c.get()) != 0 {
                    fail_for(&["C02", "C03", "C08"], "leaked-answer", "answer values are alive after all evaluations");
                }
            });
            match h {
                Ok(h) => hs_.push(h),
                Err(e) => {
                    set_violation(out(), "harness", &format!("spawn: {e}"));
                    unsafe { sim_die(78) }
                }
            }
        }
        for h in hs_ {
            if h.join().is_err() {
                fail("panic", &format!("a thread ended with a panic: {}", LAST_PANIC.with(|l| l.borrow().clone())));
            }
        }
        while let Some(s) = { let x = POOL.0.borrow_mut().pop(); x } {
            drop_stream(Some(s));
        }
        lives.push((LIB_LIVE.load(Relaxed), LIB_LIVE_N.load(Relaxed)));
    }
    leak_check(&lives, "threads repeating their calls");
    // everything shared is still what it was
    let th = new_th(90);
    for (k, s) in ctx().shared.iter().enumerate() {
        if let Some((e, i)) = s {
            if e.original() != strip(i.text) {
                fail("changed", &format!("the shared expression {} now says {}", short(i.text), short(e.original())));
            }
            eval(&th, ERef::Shared(k), Mode::Val, 1, &[]);
        }
    }
    val_health();
    count(C::lib_allocs, alloc::LIB_ALLOCS.load(Relaxed));
    out().done = 1;
    unsafe {
        sim_stop();
        _exit(0)
    }
}
/// Answers a reference query; never returns.
pub fn run_query(qr: &Query, o: *mut Out) -> ! {
    unsafe {
        OUT = o;
        let lim = [20u64, 25];
        setrlimit(0, &lim);
        let nul = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(std::os::fd::AsRawFd::as_raw_fd(&nul), 2);
        alloc::enter_run(0, 0);
        let cfg = SimCfg {
            seed: 1, hot: 0, env_seed: 0, gap: 0.0, explicit_sched: 0, nsched: 0, sched: std::ptr::null(), max_steps: 2_000_000_000, fair: 0, spurious_ppm: 0,
            clock_jump_ppm: 0, real_off_ns: 1_600_000_000_000_000_000, rand_seed: 1, ncpus: 4, fake_pid: 4242,
        };
        std::panic::set_hook(Box::new(|i| {
            let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            set_violation(out(), "panic", &format!("panicked{l}"));
        }));
        sim_start(&cfg, &mut (*o).sim);
        sim_thread_top();
        let r = catch_unwind(AssertUnwindSafe(|| answer(qr, &mut *o)));
        if r.is_ok() {
            (*o).done = 1;
        }
        sim_stop();
        _exit(0)
    }
}
