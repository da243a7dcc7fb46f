//! Instantiates the generic parts of cfg-expr, so that they are compiled with the same
//! instrumentation as the rest of it. Contains no logic of its own.
pub use cfg_expr;
use cfg_expr::{
    expr::{lexer::{Lexer, LexerToken}, Logic},
    targets::{Families, Family, HasAtomic, HasAtomics, TargetInfo},
    Expression, ParseError, Predicate, TargetPredicate,
};
pub use simval;

pub struct V(pub simval::Val);
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
pub struct Z(pub simval::Zst);
impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("false")
    }
}
impl Logic for Z {
    fn top() -> Self {
        Z(simval::zst_op(0))
    }
    fn bottom() -> Self {
        Z(simval::zst_op(1))
    }
    fn and(self, _: Self) -> Self {
        Z(simval::zst_op(2))
    }
    fn or(self, _: Self) -> Self {
        Z(simval::zst_op(3))
    }
    fn not(self) -> Self {
        Z(simval::zst_op(4))
    }
}
pub struct B(pub simval::Big);
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.v.fmt(f)
    }
}
impl Logic for B {
    fn top() -> Self {
        B(simval::Big::new(simval::top()))
    }
    fn bottom() -> Self {
        B(simval::Big::new(simval::bottom()))
    }
    fn and(self, o: Self) -> Self {
        B(self.0.and(o.0))
    }
    fn or(self, o: Self) -> Self {
        B(self.0.or(o.0))
    }
    fn not(self) -> Self {
        B(self.0.not())
    }
}
/// An iterator whose rest can be consumed by each of Iterator's own methods.
pub trait Stream<T>: Iterator<Item = T> {
    /// Passes the remaining items to `f`, or some of them, and says how many there were.
    fn rest(self: Box<Self>, how: u8, f: &mut dyn FnMut(T)) -> usize;
}
impl<T, I: Iterator<Item = T>> Stream<T> for I {
    #[inline(never)]
    fn rest(self: Box<Self>, how: u8, f: &mut dyn FnMut(T)) -> usize {
        let me = *self;
        match how {
            0 => me.fold(0, |n, x| {
                f(x);
                n + 1
            }),
            1 => {
                let v: Vec<T> = me.collect();
                let n = v.len();
                v.into_iter().for_each(f);
                n
            }
            2 => me.count(),
            3 => {
                let mut n = 0;
                me.inspect(|_| n += 1).last().map(f);
                n
            }
            4 => {
                let mut n = 0;
                me.for_each(|x| {
                    f(x);
                    n += 1;
                });
                n
            }
            5 => {
                if let Some(x) = me.last() {
                    f(x);
                }
                0
            }
            _ => {
                // every second item
                let mut n = 0;
                for x in me.step_by(2) {
                    f(x);
                    n += 1;
                }
                n
            }
        }
    }
}
#[inline(never)]
pub fn eval_zst(e: &Expression, f: &mut dyn FnMut(&Predicate<'_>) -> simval::Zst) -> simval::Zst {
    e.eval(|p| Z(f(p))).0
}
#[inline(never)]
pub fn eval_big(e: &Expression, f: &mut dyn FnMut(&Predicate<'_>) -> simval::Val) -> simval::Val {
    e.eval(|p| B(simval::Big::new(f(p)))).0.v
}
/// Any value in any of the ways std's formatting offers.
pub trait Show: std::fmt::Display + std::fmt::Debug {}
impl<T: std::fmt::Display + std::fmt::Debug + ?Sized> Show for T {}
#[inline(never)]
pub fn show(w: &mut dyn std::fmt::Write, spec: u8, v: &dyn Show) -> std::fmt::Result {
    match spec {
        0 => write!(w, "{v}"),
        1 => write!(w, "{v:?}"),
        2 => write!(w, "{v:#?}"),
        3 => write!(w, "{v:>30}"),
        4 => write!(w, "{v:.3}"),
        5 => write!(w, "{v:#}"),
        6 => write!(w, "{v:*^12.5}"),
        _ => write!(w, "{v} and {v:<4}"),
    }
}
pub const SPECS: usize = 8;
#[inline(never)]
pub fn debug_expr(w: &mut dyn std::fmt::Write, e: &Expression) -> std::fmt::Result {
    write!(w, "{e:?}")
}
impl Logic for V {
    fn top() -> Self {
        V(simval::top())
    }
    fn bottom() -> Self {
        V(simval::bottom())
    }
    fn and(self, o: Self) -> Self {
        V(simval::and(self.0, o.0))
    }
    fn or(self, o: Self) -> Self {
        V(simval::or(self.0, o.0))
    }
    fn not(self) -> Self {
        V(simval::not(self.0))
    }
}
#[inline(never)]
pub fn eval_bool(e: &Expression, f: &mut dyn FnMut(&Predicate<'_>) -> bool) -> bool {
    e.eval(|p| f(p))
}
#[inline(never)]
pub fn eval_opt(e: &Expression, f: &mut dyn FnMut(&Predicate<'_>) -> Option<bool>) -> Option<bool> {
    e.eval(|p| f(p))
}
#[inline(never)]
pub fn eval_val(e: &Expression, f: &mut dyn FnMut(&Predicate<'_>) -> simval::Val) -> simval::Val {
    e.eval(|p| V(f(p))).0
}
#[inline(never)]
pub fn preds<'a>(e: &'a Expression) -> Box<dyn Stream<Predicate<'a>> + 'a> {
    Box::new(e.predicates())
}
#[inline(never)]
pub fn lex<'a>(t: &'a str) -> Box<dyn Stream<Result<LexerToken<'a>, ParseError>> + 'a> {
    Box::new(Lexer::new(t))
}
#[inline(never)]
pub fn fams(it: &mut dyn Iterator<Item = Family>) -> Families {
    Families::new(it)
}
#[inline(never)]
pub fn atoms(it: &mut dyn Iterator<Item = HasAtomic>) -> HasAtomics {
    HasAtomics::new(it)
}
#[inline(never)]
pub fn match_info(tp: &TargetPredicate, t: &TargetInfo) -> bool {
    tp.matches(t)
}
#[inline(never)]
pub fn match_triple(tp: &TargetPredicate, t: &cfg_expr::target_lexicon::Triple) -> bool {
    tp.matches(t)
}
#[inline(never)]
pub fn clone(e: &Expression) -> Expression {
    e.clone()
}
#[inline(never)]
pub fn eq(a: &Expression, b: &Expression) -> bool {
    a == b
}

pub fn is_multi(e: &cfg_expr::ParseError) -> bool {
    matches!(e.reason, cfg_expr::error::Reason::MultipleRootPredicates)
}
