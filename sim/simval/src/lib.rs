//! `Val`: the free algebra of not/and/or, modulo associativity, commutativity and units, as a
//! caller-supplied Logic type. Every value knows which answers it was made from, so that after an
//! evaluation the harness can tell that each answer was used exactly once, by the right operations.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub const LEAF: u8 = 1;
pub const AND: u8 = 2;
pub const OR: u8 = 3;
pub const NOT: u8 = 4;

/// Shape of a term: kind, and for And/Or the multiset sum of the operands' digests.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Term {
    pub kind: u8,
    pub cnt: u32,
    pub sum: u128,
}
fn mix(h: u128, v: u128) -> u128 {
    let x = (h ^ v).wrapping_mul(0x2360ed051fc65da44385df649fccf645);
    let x = x ^ (x >> 67);
    let x = x.wrapping_mul(0x0fc94e3bf4e9ab32866458cd56f5e605);
    x ^ (x >> 59)
}
pub fn hash_str(s: &str) -> u128 {
    let mut h = 0x6c62272e07bb014262b821756295c58d;
    for b in s.bytes() {
        h = mix(h, b as u128 + 1);
    }
    h
}
impl Term {
    pub fn top() -> Term {
        Term { kind: AND, cnt: 0, sum: 0 }
    }
    pub fn bottom() -> Term {
        Term { kind: OR, cnt: 0, sum: 0 }
    }
    pub fn leaf(pred: &str) -> Term {
        Term { kind: LEAF, cnt: 1, sum: hash_str(pred) }
    }
    pub fn digest(&self) -> u128 {
        mix(mix(mix(17, self.kind as u128), self.cnt as u128), self.sum)
    }
    fn join(kind: u8, a: &Term, b: &Term) -> Term {
        if a.kind == kind && a.cnt == 0 {
            return *b;
        }
        if b.kind == kind && b.cnt == 0 {
            return *a;
        }
        let mut cnt = 0u32;
        let mut sum = 0u128;
        for t in [a, b] {
            if t.kind == kind {
                cnt += t.cnt;
                sum = sum.wrapping_add(t.sum);
            } else {
                cnt += 1;
                sum = sum.wrapping_add(t.digest());
            }
        }
        Term { kind, cnt, sum }
    }
    pub fn and(&self, b: &Term) -> Term {
        Term::join(AND, self, b)
    }
    pub fn or(&self, b: &Term) -> Term {
        Term::join(OR, self, b)
    }
    pub fn not(&self) -> Term {
        Term { kind: NOT, cnt: 1, sum: self.digest() }
    }
}

/// Values alive now; values ever made; values dropped that were not alive.
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static MADE: AtomicU64 = AtomicU64::new(0);
pub static BAD: AtomicU64 = AtomicU64::new(0);
/// Operands of different evaluations combined.
pub static MIXED: AtomicU64 = AtomicU64::new(0);

const MAGIC: u64 = 0x51a1_7e57_c0de_f00d;

/// What the harness does at the start of each Logic operation (a scheduling point; may panic).
pub static mut HOOK: fn(u8) = nohook;
/// Told of every value made (+1) and dropped (-1).
pub static mut LIVE_HOOK: fn(i64) = nolive;
fn nolive(_: i64) {}
fn live(d: i64) {
    LIVE.fetch_add(d, Relaxed);
    let f = unsafe { *std::ptr::addr_of!(LIVE_HOOK) };
    f(d)
}
fn nohook(_: u8) {}
fn hook(k: u8) {
    let f = unsafe { *std::ptr::addr_of!(HOOK) };
    f(k)
}

pub struct Val {
    pub term: Term,
    /// sum of the random ids of the answers it was made from, and how many they are
    pub ids: u64,
    pub leaves: u64,
    pub ev: u32,
    magic: u64,
}
impl Val {
    fn make(term: Term, ids: u64, leaves: u64, ev: u32) -> Val {
        live(1);
        MADE.fetch_add(1, Relaxed);
        Val { term, ids, leaves, ev, magic: MAGIC }
    }
    pub fn leaf(pred: &str, id: u64, ev: u32) -> Val {
        Val::make(Term::leaf(pred), id, 1, ev)
    }
    fn join(self, o: Val, or: bool) -> Val {
        if self.magic != MAGIC || o.magic != MAGIC {
            BAD.fetch_add(1, Relaxed);
        }
        if self.ev != 0 && o.ev != 0 && self.ev != o.ev {
            MIXED.fetch_add(1, Relaxed);
        }
        let t = if or { self.term.or(&o.term) } else { self.term.and(&o.term) };
        Val::make(t, self.ids.wrapping_add(o.ids), self.leaves + o.leaves, self.ev.max(o.ev))
    }
}
/// What a value looks like says nothing about it.
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        hook(5);
        f.write_str(["true", "false", "Some(true)", "Some(false)", "None", "Val"][(self.term.digest() as u64 % 6) as usize])
    }
}
/// A value without size.
pub struct Zst(());
impl Zst {
    pub fn new() -> Zst {
        live(1);
        Zst(())
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        live(-1);
    }
}
/// A large value.
pub struct Big {
    pub v: Val,
    pad: [u64; 40],
}
impl Big {
    pub fn new(v: Val) -> Big {
        let k = v.ids;
        Big { v, pad: std::array::from_fn(|i| k.wrapping_add(i as u64)) }
    }
    fn open(self) -> Val {
        let k = self.v.ids;
        if (0..40).any(|i| self.pad[i] != k.wrapping_add(i as u64)) {
            BAD.fetch_add(1, Relaxed);
        }
        self.v
    }
    pub fn and(self, o: Big) -> Big {
        Big::new(and(self.open(), o.open()))
    }
    pub fn or(self, o: Big) -> Big {
        Big::new(or(self.open(), o.open()))
    }
    pub fn not(self) -> Big {
        Big::new(not(self.open()))
    }
}
pub fn zst_op(k: u8) -> Zst {
    hook(k);
    Zst::new()
}
impl Drop for Val {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            BAD.fetch_add(1, Relaxed);
        }
        self.magic = 0;
        live(-1);
    }
}
pub fn top() -> Val {
    hook(0);
    Val::make(Term::top(), 0, 0, 0)
}
pub fn bottom() -> Val {
    hook(1);
    Val::make(Term::bottom(), 0, 0, 0)
}
pub fn and(a: Val, b: Val) -> Val {
    hook(2);
    a.join(b, false)
}
pub fn or(a: Val, b: Val) -> Val {
    hook(3);
    a.join(b, true)
}
pub fn not(a: Val) -> Val {
    hook(4);
    if a.magic != MAGIC {
        BAD.fetch_add(1, Relaxed);
    }
    Val::make(a.term.not(), a.ids, a.leaves, a.ev)
}
