//! Builds real neure patterns from the AST and runs them.
use crate::ast::*;
use crate::model::{Inp, M};
use crate::typed::{self, Leaf, ScanCfg, Scanned, Seen};
use neure::ctor::{self, Ctor, DynamicCtorThenBuilderHelper, Handler};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, MatchExt, MatchMulti, PolicyCtx, PolicyMatch};
use neure::err::Error;
use neure::neu::{self, CRange, Condition, EmptyCond, Neu, NeuCond, NeuIntoRegexOps, NeuOp, regex_cond};
use neure::prelude::CtorOps;
use neure::regex::{self, DynamicRegexBuilderHelper, Regex, RegexIntoHelper};
use neure::span::Span;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::Bound;
use std::rc::Rc;
use std::sync::Arc;
use vcore::tick;

// ------------------------------------------------------------------ elements
pub trait El: Copy + PartialEq + PartialOrd + Debug + Send + Sync + 'static {
    fn of(e: E) -> Self;
    fn code(self) -> u32;
    fn class(c: Class) -> DU<Self>;
    fn lit(self) -> DU<Self>;
}
/// element predicate handed to neure; every evaluation is counted
pub struct DU<T>(pub Arc<dyn Neu<T> + Send + Sync>);
impl<T> Clone for DU<T> {
    fn clone(&self) -> Self {
        DU(self.0.clone())
    }
}
impl<T> Neu<T> for DU<T> {
    fn is_match(&self, other: &T) -> bool {
        tick();
        self.0.is_match(other)
    }
    fn min_length(&self) -> usize {
        self.0.min_length()
    }
}
pub fn du<T, N: Neu<T> + Clone + Send + Sync + 'static>(n: N) -> DU<T> {
    DU(Arc::new(Dup(n)))
}
pub fn dun<T, N: Neu<T> + Send + Sync + 'static>(n: N) -> DU<T> {
    DU(Arc::new(n))
}
macro_rules! ascii_classes {
    ($c:expr, $t:ty, $($other:tt)*) => {
        match $c {
            Class::Word => du(neu::word::<$t>()),
            Class::Ascii => du(neu::ascii::<$t>()),
            Class::AAlpha => du(neu::ascii_alphabetic::<$t>()),
            Class::AAlnum => du(neu::ascii_alphanumeric::<$t>()),
            Class::AControl => du(neu::ascii_control::<$t>()),
            Class::ADigit => du(neu::ascii_digit::<$t>()),
            Class::AGraphic => du(neu::ascii_graphic::<$t>()),
            Class::AHex => du(neu::ascii_hexdigit::<$t>()),
            Class::ALower => du(neu::ascii_lowercase::<$t>()),
            Class::APunct => du(neu::ascii_punctuation::<$t>()),
            Class::AUpper => du(neu::ascii_uppercase::<$t>()),
            Class::AWs => du(neu::ascii_whitespace::<$t>()),
            $($other)*
        }
    };
}
impl El for char {
    fn of(e: E) -> Self {
        char::from_u32(e.0).unwrap()
    }
    fn code(self) -> u32 {
        self as u32
    }
    fn lit(self) -> DU<Self> {
        du(self)
    }
    fn class(c: Class) -> DU<Self> {
        ascii_classes!(c, char,
            Class::Alphabetic => du(neu::alphabetic()),
            Class::Alphanumeric => du(neu::alphanumeric()),
            Class::Control => du(neu::control()),
            Class::Digit10 => du(neu::digit(10)),
            Class::Lowercase => du(neu::lowercase()),
            Class::Numeric => du(neu::numeric()),
            Class::Uppercase => du(neu::uppercase()),
            Class::WhiteSpace => du(neu::whitespace()),
            Class::Wild => du(neu::wild()),
        )
    }
}
impl El for u8 {
    fn of(e: E) -> Self {
        e.0 as u8
    }
    fn code(self) -> u32 {
        self as u32
    }
    fn lit(self) -> DU<Self> {
        du(self)
    }
    fn class(c: Class) -> DU<Self> {
        ascii_classes!(c, u8, _ => unreachable!(),)
    }
}
/// closure built inside a generic fn, so that the blanket `Fn` impl is used
fn fun<T: El>(m: u32, r: u32) -> impl Fn(&T) -> bool + Clone + Send + Sync + 'static {
    move |x: &T| x.code() % m == r
}

// ------------------------------------------------------------------ contexts
impl<'a, C> Regex<C> for Skip
where
    C: Context<'a>,
    C::Item: El,
{
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        let beg = ctx.offset();
        let mut it = ctx.peek_at(beg)?;
        let rest = ctx.len() - beg;
        let mut at = |k: usize| -> (usize, Option<E>) {
            // k is always the next index
            let _ = k;
            match it.next() {
                Some((o, x)) => (o, Some(E(x.code()))),
                None => (rest, None),
            }
        };
        let (n, ok) = match self {
            Skip::Empty => (0, true),
            Skip::Many(s) => {
                let mut k = 0;
                loop {
                    let (o, x) = at(k);
                    if !x.is_some_and(|x| s.contains(&x)) {
                        break (o, true);
                    }
                    k += 1;
                }
            }
            Skip::AtMostOne(e) => {
                let (_, x) = at(0);
                if x == Some(*e) { (at(1).0, true) } else { (0, true) }
            }
            Skip::Required(e) => {
                let (_, x) = at(0);
                if x == Some(*e) { (at(1).0, true) } else { (0, false) }
            }
            Skip::Dirty(e, f) => {
                let mut k = 0;
                loop {
                    let (o, x) = at(k);
                    if x != Some(*e) {
                        break (o, x != Some(*f));
                    }
                    k += 1;
                }
            }
        };
        ctx.set_offset(beg + n);
        if ok { Ok(Span::new(beg, n)) } else { Err(Error::Uid(1)) }
    }
}
pub trait HCtx<'a>: Match<'a, Item = Self::T> + PolicyMatch<'a> + Sized + Send + Sync + 'a {
    type T: El;
    const TEXT: bool;
    fn bytes_of(o: Self::Orig<'a>) -> Vec<u8>;
    fn lit(form: usize, v: &[E]) -> D<'a, Self>;
    fn skip_ws(k: u8, p: D<'a, Self>) -> D<'a, Self>;
    fn typed(mk: &dyn Fn() -> Self, leaf: Leaf<'_, Self>) -> Vec<Seen>;
    fn pieces(mk: &dyn Fn() -> Self, leaf: Leaf<'_, Self>) -> (Option<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>);
}
/// literal in one of the accepted forms; the neure pattern is made on every use
#[derive(Clone)]
struct TextLit(usize, String);
#[derive(Clone)]
struct ByteLit(usize, Vec<u8>);
macro_rules! lit_impl {
    ($ty:ident, $orig:ty, $s:ident, |$p:ident, $run:ident| $body:expr) => {
        impl<'a, C: Context<'a, Orig<'a> = &'a $orig>> Regex<C> for $ty {
            fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
                let $s = self;
                macro_rules! $run {
                    ($e:expr) => {{
                        let $p = $e;
                        Regex::try_parse(&$p, ctx)
                    }};
                }
                $body
            }
        }
        impl<'a, C: Match<'a, Orig<'a> = &'a $orig>, O, H: Handler<C, Out = O>> Ctor<C, O, H> for $ty {
            fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
                let $s = self;
                macro_rules! $run {
                    ($e:expr) => {{
                        let $p = $e;
                        Ctor::construct(&$p, ctx, h)
                    }};
                }
                $body
            }
        }
    };
}
lit_impl!(TextLit, str, s, |p, run| match s.0 % 5 {
    0 => run!(s.1.as_str()),
    1 => run!(regex::literal(s.1.as_str())),
    #[cfg(feature = "alloc")]
    2 => run!(s.1.clone()),
    #[cfg(feature = "alloc")]
    3 => run!(&s.1),
    #[cfg(feature = "alloc")]
    4 => run!(regex::literal(&s.1)),
    #[allow(unreachable_patterns)]
    _ => run!(s.1.as_str()),
});
fn arr<const N: usize>(v: &[u8]) -> [u8; N] {
    v.try_into().unwrap()
}
lit_impl!(ByteLit, [u8], s, |p, run| match (s.0 % 7, s.1.len()) {
    (1, _) => run!(regex::literal(s.1.as_slice())),
    #[cfg(feature = "alloc")]
    (2, _) => run!(s.1.clone()),
    #[cfg(feature = "alloc")]
    (3, _) => run!(&s.1),
    (4, 1) => run!(arr::<1>(&s.1)),
    (4, 2) => run!(arr::<2>(&s.1)),
    (4, 3) => run!(arr::<3>(&s.1)),
    (5, 1) => run!(&arr::<1>(&s.1)),
    (5, 2) => run!(&arr::<2>(&s.1)),
    (6, 2) => {
        let a = arr::<2>(&s.1);
        run!(regex::literal(&a))
    }
    (6, 1) => {
        let a = arr::<1>(&s.1);
        run!(regex::literal(&a))
    }
    _ => run!(s.1.as_slice()),
});
fn text_of(v: &[E]) -> String {
    v.iter().map(|e| char::of(*e)).collect()
}
macro_rules! hctx {
    ($c:ty, text) => {
        impl<'a> HCtx<'a> for $c {
            type T = char;
            const TEXT: bool = true;
            fn bytes_of(o: &'a str) -> Vec<u8> {
                o.as_bytes().to_vec()
            }
            fn lit(form: usize, v: &[E]) -> D<'a, Self> {
                dd(TextLit(form, text_of(v)))
            }
            fn skip_ws(k: u8, p: D<'a, Self>) -> D<'a, Self> {
                match k {
                    0 => dd(p.skip_ws()),
                    1 => dd(p.skip_ascii_ws()),
                    2 => dd(p.skip_ws_leading()),
                    _ => dd(p.skip_ascii_ws_leading()),
                }
            }
            fn typed(mk: &dyn Fn() -> Self, leaf: Leaf<'_, Self>) -> Vec<Seen> {
                #[allow(unused_mut)]
                let mut v = typed::common(mk, leaf);
                #[cfg(feature = "alloc")]
                typed::owned(mk, leaf, &mut v);
                v
            }
            fn pieces(mk: &dyn Fn() -> Self, leaf: Leaf<'_, Self>) -> (Option<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>) {
                typed::pieces(mk, leaf)
            }
        }
    };
    ($c:ty, bytes) => {
        impl<'a> HCtx<'a> for $c {
            type T = u8;
            const TEXT: bool = false;
            fn bytes_of(o: &'a [u8]) -> Vec<u8> {
                o.to_vec()
            }
            fn lit(form: usize, v: &[E]) -> D<'a, Self> {
                dd(ByteLit(form, v.iter().map(|e| e.0 as u8).collect()))
            }
            fn skip_ws(k: u8, p: D<'a, Self>) -> D<'a, Self> {
                if k < 2 { dd(p.skip_ascii_ws()) } else { dd(p.skip_ascii_ws_leading()) }
            }
            fn typed(mk: &dyn Fn() -> Self, leaf: Leaf<'_, Self>) -> Vec<Seen> {
                typed::common(mk, leaf)
            }
            fn pieces(mk: &dyn Fn() -> Self, leaf: Leaf<'_, Self>) -> (Option<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>) {
                typed::pieces(mk, leaf)
            }
        }
    };
}
hctx!(CharsCtx<'a>, text);
hctx!(PolicyCtx<CharsCtx<'a>, Skip>, text);
hctx!(BytesCtx<'a>, bytes);
hctx!(PolicyCtx<BytesCtx<'a>, Skip>, bytes);

// ------------------------------------------------------------------ handler
#[derive(Clone)]
pub struct Rec {
    pub cfg: HCfg,
    pub log: Rc<RefCell<Vec<(usize, usize)>>>,
    pub failed: Rc<Cell<bool>>,
}
impl Rec {
    pub fn new(cfg: HCfg) -> Self {
        Rec { cfg, log: Default::default(), failed: Default::default() }
    }
}
impl<'a, C: HCtx<'a>> Handler<C> for Rec {
    type Out = Val;
    type Error = Error;
    fn invoke(&mut self, ctx: &C, span: &Span) -> Result<Val, Error> {
        self.log.borrow_mut().push((span.beg, span.len));
        if handler_fails(self.cfg.fail, span.beg, span.len) {
            self.failed.set(true);
            return Err(Error::Uid(2));
        }
        if self.cfg.text {
            Ok(Val::Tx(C::bytes_of(ctx.orig_sub(span.beg, span.len)?)))
        } else {
            Ok(Val::Sp(span.beg, span.len))
        }
    }
}

// ------------------------------------------------------------------ dynamic pattern
pub trait DynP<C>: Ctor<C, Val, Rec> + Send + Sync {}
impl<C, T: Ctor<C, Val, Rec> + Send + Sync> DynP<C> for T {}
/// any pattern, erased; every evaluation is counted
pub struct D<'a, C>(pub Arc<dyn DynP<C> + 'a>);
impl<C> Clone for D<'_, C> {
    fn clone(&self) -> Self {
        D(self.0.clone())
    }
}
impl<'a, C> Regex<C> for D<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        tick();
        self.0.try_parse(ctx)
    }
}
impl<'a, C> Ctor<C, Val, Rec> for D<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        tick();
        self.0.construct(ctx, h)
    }
}
/// a combinator that can be copied (and is, before every use, when copying is on)
pub fn dd<'a, C, T: Ctor<C, Val, Rec> + Clone + Send + Sync + 'a>(t: T) -> D<'a, C> {
    D(Arc::new(Dup(t)))
}
/// a combinator without Clone
pub fn dn<'a, C, T: Ctor<C, Val, Rec> + Send + Sync + 'a>(t: T) -> D<'a, C> {
    D(Arc::new(t))
}
thread_local! {
    static COPY: Cell<bool> = const { Cell::new(false) };
}
/// run `f` with every pattern cloned (recursively) right before each use
pub fn copying<R>(f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            COPY.with(|c| c.set(false));
        }
    }
    let _r = Reset;
    COPY.with(|c| c.set(true));
    f()
}
/// uses a copy of `T`, or a copy of a copy
#[derive(Clone)]
struct Dup<T>(T);
impl<T: Clone> Dup<T> {
    fn with<R>(&self, f: impl FnOnce(&T) -> R) -> R {
        if COPY.with(|c| c.get()) { f(&self.0.clone()) } else { f(&self.0) }
    }
}
impl<C, T: Regex<C> + Clone> Regex<C> for Dup<T> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.with(|t| t.try_parse(ctx))
    }
}
impl<C, T: Ctor<C, Val, Rec> + Clone> Ctor<C, Val, Rec> for Dup<T> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.with(|t| t.construct(ctx, h))
    }
}
impl<X, T: Neu<X> + Clone> Neu<X> for Dup<T> {
    fn is_match(&self, o: &X) -> bool {
        self.with(|t| t.is_match(o))
    }
    fn min_length(&self) -> usize {
        self.with(|t| t.min_length())
    }
}
/// converts the output type of a combinator
struct Conv<T, O, F>(T, F, PhantomData<fn() -> O>);
impl<T: Clone, O, F: Clone> Clone for Conv<T, O, F> {
    fn clone(&self) -> Self {
        Conv(self.0.clone(), self.1.clone(), PhantomData)
    }
}
impl<C, T: Regex<C>, O, F> Regex<C> for Conv<T, O, F> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C, T: Ctor<C, O, Rec>, O, F: Fn(O) -> Val> Ctor<C, Val, Rec> for Conv<T, O, F> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.0.construct(ctx, h).map(&self.1)
    }
}
fn cv<'a, C: 'a, T, O: 'a, F>(t: T, f: F) -> D<'a, C>
where
    T: Ctor<C, O, Rec> + Clone + Send + Sync + 'a,
    F: Fn(O) -> Val + Clone + Send + Sync + 'a,
{
    dd(Conv(t, f, PhantomData))
}
fn pair(x: Val, y: Val) -> Val {
    Val::Pair(Box::new(x), Box::new(y))
}
fn opt(x: Option<Val>) -> Val {
    Val::Opt(x.map(Box::new))
}
/// owns the items of a slice pattern
struct SliceP<'a, C>(Vec<D<'a, C>>, bool, usize);
impl<C> Clone for SliceP<'_, C> {
    fn clone(&self) -> Self {
        SliceP(self.0.clone(), self.1, self.2)
    }
}
macro_rules! slice_of {
    ($s:expr, $f:ident, $g:ident) => {
        match ($s.1, $s.2 % 4) {
            (false, 0) => regex::$f(&$s.0),
            (true, 0) => regex::$g(&$s.0),
            (l, 1) => regex::$f(&$s.0).with_longest(l),
            (l, 2) => regex::$g(&$s.0).with_longest(l),
            (l, _) => {
                let mut x = regex::$f(&$s.0);
                x.set_longest(!l);
                let o = (&x).longest();
                x.set_longest(!o);
                x
            }
        }
    };
}
impl<'a, C: Match<'a>> Regex<C> for SliceP<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        slice_of!(self, slice, slice_ltm).try_parse(ctx)
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for SliceP<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        slice_of!(self, slice, slice_ltm).construct(ctx, h)
    }
}
struct PairSliceP<'a, C>(Vec<(D<'a, C>, u32)>, bool, usize);
impl<C> Clone for PairSliceP<'_, C> {
    fn clone(&self) -> Self {
        PairSliceP(self.0.clone(), self.1, self.2)
    }
}
impl<'a, C: Match<'a>> Regex<C> for PairSliceP<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        slice_of!(self, pair_slice, pair_slice_ltm).try_parse(ctx)
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, (Val, u32), Rec> for PairSliceP<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<(Val, u32), Error> {
        slice_of!(self, pair_slice, pair_slice_ltm).construct(ctx, h)
    }
}

// ------------------------------------------------------------------ builder
/// Deterministic choice among equivalent ways to construct a node.
pub struct Bld {
    seed: u64,
    n: Cell<u64>,
    /// the recursive parser handed out by the recursion helper: Box<dyn Fn() -> D<'a, C> + 'a>, leaked; C is the context
    /// type this builder is used with
    hole: Cell<*const ()>,
    pub wrap: Wrap,
    /// wrappers around the finished pattern, innermost first; 1000 + k: an absent pattern instead of it
    pub outer: Vec<usize>,
    /// further patterns, built for the same context type
    pub more: Vec<P>,
    /// exchange the parts of finished patterns through their setters and accessors
    pub sets: bool,
    /// the input is long: a hint far beyond what is needed reserves memory for as many elements as are left, in every round
    roomy: bool,
}
unsafe impl Send for Bld {}
/// put other parts into `$x` and then the original ones back, through accessors, setters and `&mut` accessors
macro_rules! redo {
    ($s:ident, $x:ident: $($get:ident $set:ident $mutf:ident = $junk:expr),+ $(,)?) => {
        if $s.sets {
            $(match $s.alt(4) {
                0 => {}
                1 => {
                    let v = (&$x).$get().clone();
                    $x.$set($junk);
                    $x.$set(v);
                }
                2 => {
                    let j = $junk;
                    let v = std::mem::replace($x.$mutf(), j);
                    *$x.$mutf() = v;
                }
                _ => {
                    let j = $junk;
                    let v = std::mem::replace($x.$mutf(), j);
                    $x.$set(v);
                }
            })+
        }
    };
}
/// the same for settings read with a plain getter
macro_rules! redo_val {
    ($s:ident, $x:ident: $($get:ident $set:ident = $junk:expr),+ $(,)?) => {
        if $s.sets {
            $(if $s.alt(2) == 0 {
                let v = (&$x).$get().clone();
                $x.$set($junk);
                $x.$set(v);
            })+
        }
    };
}
/// Put parts of the pattern behind pointers, cells and adapters.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wrap {
    No,
    Any,
    /// wrappers that can be shared between threads
    Sync,
}
/// a bit of the number of the form: the input is long
pub const VAST: u64 = 1 << 40;
impl Bld {
    pub fn new(seed: u64) -> Self {
        Bld { seed, n: Cell::new(0), hole: Cell::new(std::ptr::null()), wrap: Wrap::No, outer: vec![], more: vec![], sets: false, roomy: seed & VAST != 0 }
    }
    /// one of the capacity hints
    fn hint(&self, v: &[usize]) -> usize {
        let n = v[self.alt(v.len())];
        if self.roomy { n.min(64) } else { n }
    }
    fn alt(&self, k: usize) -> usize {
        self.n.set(self.n.get() + 1);
        if self.seed == 0 {
            return 0;
        }
        (vcore::mix(self.seed ^ self.n.get().wrapping_mul(0x9E37)) % k as u64) as usize
    }
    #[cfg_attr(not(feature = "std"), allow(unused_mut))]
    pub fn unit<T: El>(&self, u: &U) -> DU<T> {
        let mut d = self.unit0(u);
        #[cfg(feature = "std")]
        if self.wrap != Wrap::No {
            for _ in 0..[0, 0, 0, 1, 1, 2][self.alt(6)] {
                let k = if self.wrap == Wrap::Sync { [0, 2, 3, 4, 5, 8][self.alt(6)] } else { self.alt(crate::wrap::UNITS) };
                d = crate::wrap::wrap_unit(k, d);
            }
        }
        d
    }
    fn unit0<T: El>(&self, u: &U) -> DU<T> {
        match u {
            U::Eq(e) => match self.alt(3) {
                0 => T::of(*e).lit(),
                1 => du(neu::equal(T::of(*e))),
                _ => du([T::of(*e)]),
            },
            U::Set(v) => {
                let v: Vec<T> = v.iter().map(|e| T::of(*e)).collect();
                match (self.alt(3), v.len()) {
                    (0, 1) => du([v[0]]),
                    (0, 2) => du([v[0], v[1]]),
                    (0, 3) => du([v[0], v[1], v[2]]),
                    #[cfg(feature = "alloc")]
                    (1, _) => du(v),
                    _ => du(SetSlice(v)),
                }
            }
            U::Range(f, a, b) => {
                let (a, b) = (T::of(*a), T::of(*b));
                match f {
                    RangeForm::Half => match self.alt(2) {
                        0 => du(a..b),
                        _ => du(neu::range(a..b)),
                    },
                    RangeForm::Incl => du(a..=b),
                    RangeForm::From => match self.alt(2) {
                        0 => du(a..),
                        _ => du(neu::range(a..)),
                    },
                    RangeForm::To => match self.alt(2) {
                        0 => du(..b),
                        _ => du(neu::range(..b)),
                    },
                    RangeForm::ToIncl => match self.alt(2) {
                        0 => du(..=b),
                        _ => du(neu::range(..=b)),
                    },
                    RangeForm::Full => du(..),
                    RangeForm::BoundExIn => match self.alt(2) {
                        0 => du((Bound::Excluded(a), Bound::Included(b))),
                        _ => du(neu::range((Bound::Excluded(a), Bound::Included(b)))),
                    },
                    RangeForm::BoundInEx => du((Bound::Included(a), Bound::Excluded(b))),
                    RangeForm::CRange => du(neu::range(a..=b)),
                }
            }
            U::Class(c) => T::class(*c),
            U::Not(u) => {
                let u = self.unit::<T>(u);
                match self.alt(3) {
                    0 => du(NeuOp::not(u)),
                    1 => du(neu::not(u)),
                    _ => {
                        let mut n = neu::Not::new(self.unit::<T>(&U::Never));
                        n.set_unit(u);
                        redo!(self, n: unit set_unit unit_mut = self.junk_u::<T>());
                        du(n)
                    }
                }
            }
            U::And(a, b) => {
                let (a, b) = (self.unit::<T>(a), self.unit::<T>(b));
                match self.alt(2) {
                    0 => {
                        let mut x = a.and(b);
                        redo!(self, x: left set_left left_mut = self.junk_u::<T>(), right set_right right_mut = self.junk_u::<T>());
                        du(x)
                    }
                    _ => du(neu::and(a, b)),
                }
            }
            U::Or(a, b) => {
                let (a, b) = (self.unit::<T>(a), self.unit::<T>(b));
                match self.alt(2) {
                    0 => {
                        let mut x = a.or(b);
                        redo!(self, x: left set_left left_mut = self.junk_u::<T>(), right set_right right_mut = self.junk_u::<T>());
                        du(x)
                    }
                    _ => du(neu::or(a, b)),
                }
            }
            U::Always => du(neu::always::<T>()),
            U::Never => du(neu::never::<T>()),
            U::Fun(m, r) => du(fun::<T>(*m, *r)),
        }
    }
    fn sub(&self) -> Bld {
        let b = Bld::new(if self.seed == 0 { 0 } else { vcore::mix(self.seed ^ (self.alt(1 << 30) as u64 + 1)) | 1 });
        b.hole.set(self.hole.get());
        Bld { wrap: self.wrap, sets: self.sets, roomy: self.roomy, ..b }
    }
    /// the same builder from the start: builds the same form on every use of a dynamic pattern
    fn again(&self) -> Bld {
        let b = Bld::new(self.seed);
        b.hole.set(self.hole.get());
        Bld { wrap: self.wrap, sets: self.sets, roomy: self.roomy, ..b }
    }
    pub fn cond<'a, C: HCtx<'a>>(&self, c: &Cond) -> DC<'a, C> {
        type It<'x, C> = (usize, <C as Context<'x>>::Item);
        match c.clone() {
            Cond::None => DC(Arc::new(EmptyCond)),
            Cond::Const(b) => DC(Arc::new(move |_: &C, _: &It<'a, C>| Ok(b))),
            Cond::RelBelow(k) => DC(Arc::new(move |_: &C, i: &It<'a, C>| Ok(i.0 < k))),
            Cond::AbsMod(m, r) => DC(Arc::new(move |c: &C, i: &It<'a, C>| Ok((c.offset() + i.0) % m == r))),
            Cond::Code(m, r) => DC(Arc::new(move |_: &C, i: &It<'a, C>| Ok(i.1.code() % m == r))),
            Cond::Next(e) => DC(Arc::new(move |c: &C, i: &It<'a, C>| {
                Ok(c.peek_at(c.offset() + i.0)?.nth(1).is_some_and(|x| x.1.code() == e.0))
            })),
            Cond::Rx(p) => DC(Arc::new(regex_cond::<C, D<'a, C>>(self.p::<C>(&p)))),
            Cond::ErrFrom(k) => DC(Arc::new(move |_: &C, i: &It<'a, C>| if i.0 >= k { Err(Error::Uid(3)) } else { Ok(true) })),
            Cond::ErrIf(e) => DC(Arc::new(move |_: &C, i: &It<'a, C>| {
                if i.1.code() == e.0 { Err(Error::Uid(3)) } else { Ok(true) }
            })),
        }
    }
    pub fn crange(&self, b: &Bd) -> CRange<usize> {
        let (lo, hi) = (b.lo, b.hi);
        use core::range;
        let k = b.form as usize / 8;
        match (b.form % 8, hi) {
            (0, None) => (lo..).into(),
            (1, None) if lo == 0 => (..).into(),
            (2, None) if lo > 0 => (Bound::Excluded(lo - 1), Bound::Unbounded).into(),
            (3, None) => range::RangeFrom { start: lo }.into(),
            (4, None) => CRange::clone_from(lo..),
            (5, None) if lo == 0 => CRange::default(),
            (_, None) => neu::range(lo..),
            (2 | 4 | 6, Some(h)) if lo == h => times(h, k),
            (_, Some(usize::MAX)) => neu::range(lo..=usize::MAX),
            (0, Some(h)) => (lo..=h).into(),
            (1, Some(h)) => (lo..h + 1).into(),
            (2, Some(h)) if lo == 0 => (..=h).into(),
            (3, Some(h)) if lo == 0 => (..h + 1).into(),
            (3, Some(h)) if lo > 0 => (Bound::Excluded(lo - 1), Bound::Included(h)).into(),
            (4, Some(h)) if lo == 0 => range::RangeToInclusive { last: h }.into(),
            (4, Some(h)) if lo > 0 => (Bound::Excluded(lo - 1), Bound::Excluded(h + 1)).into(),
            (5, Some(h)) => range::Range { start: lo, end: h + 1 }.into(),
            (6, Some(h)) => range::RangeInclusive { start: lo, last: h }.into(),
            (7, Some(h)) if lo == 0 => CRange::new(Bound::Unbounded, Bound::Excluded(h + 1)),
            (7, Some(h)) => CRange::clone_from((Bound::Excluded(lo - 1), Bound::Included(h))),
            (_, Some(h)) => CRange::new(Bound::Included(lo), Bound::Excluded(h + 1)),
        }
    }
    #[cfg_attr(not(feature = "std"), allow(unused_mut))]
    pub fn p<'a, C: HCtx<'a>>(&self, p: &P) -> D<'a, C> {
        let mut d = self.p0(p);
        #[cfg(feature = "std")]
        if self.wrap != Wrap::No {
            for _ in 0..[0, 0, 0, 1, 1, 2][self.alt(6)] {
                d = crate::wrap::wrap(self.pick_wrap(), d);
            }
        }
        d
    }
    #[cfg(feature = "std")]
    fn pick_wrap(&self) -> usize {
        use crate::wrap::*;
        if self.wrap == Wrap::Sync { SYNC[self.alt(SYNC.len())] } else { self.alt(FULL) }
    }
    /// the grammar `p`, with P::Hole standing for itself, through recursion helper number `helper`
    #[cfg(feature = "std")]
    pub fn recursive<'a, C: HCtx<'a>>(&self, p: &P, helper: usize) -> D<'a, C> {
        use crate::wrap::Force;
        use neure::regex::{RecParser, RecParserSync, RecursiveParser, RecursiveParserSync, rec_parser, rec_parser_sync};
        type Fac<'a, C> = Box<dyn Fn() -> D<'a, C> + 'a>;
        let set = |f: Fac<'a, C>| self.hole.set(Box::into_raw(Box::new(f)) as *const ());
        macro_rules! go {
            ($f:expr) => {
                dd(Force($f(|r| {
                    set(Box::new(move || dd(Force(r.clone()))));
                    self.p::<C>(p)
                })))
            };
        }
        match helper % 5 {
            0 => go!(rec_parser),
            1 => go!(rec_parser_sync),
            2 => go!(RecParser::build),
            3 => go!(RecParserSync::build_with),
            _ => go!(<RecParserSync as RecursiveParserSync<'a, C>>::build),
        }
    }
    /// a part to be replaced
    fn junk<'a, C: HCtx<'a>>(&self) -> D<'a, C> {
        match self.alt(4) {
            0 => dd(regex::fail()),
            1 => dd(regex::empty()),
            2 => dd(regex::consume(1)),
            _ => dd(regex::consume_all()),
        }
    }
    fn junk_u<T: El>(&self) -> DU<T> {
        if self.alt(2) == 0 { du(neu::always::<T>()) } else { du(neu::never::<T>()) }
    }
    fn aux<'a, C: HCtx<'a>>(&self) -> Vec<D<'a, C>> {
        self.more.iter().map(|p| self.p(p)).collect()
    }
    pub fn top<'a, C: HCtx<'a>>(&self, p: &P, rec: Option<usize>) -> D<'a, C> {
        #[cfg(feature = "std")]
        if !self.outer.is_empty() {
            let (first, rest) = if self.outer[0] >= 1000 {
                (crate::wrap::absent(self.outer[0] - 1000, self.p(p)), &self.outer[1..])
            } else {
                (self.p(p), &self.outer[..])
            };
            return rest.iter().fold(first, |d, k| crate::wrap::wrap(*k, d));
        }
        match rec {
            None => self.p(p),
            #[cfg(feature = "std")]
            Some(k) => self.recursive(p, k),
            #[cfg(not(feature = "std"))]
            Some(_) => panic!("needs std"),
        }
    }
    fn p0<'a, C: HCtx<'a>>(&self, p: &P) -> D<'a, C> {
        macro_rules! unit_op {
            ($u:expr, $c:expr, $m:ident, $t:ident, $f:ident) => {{
                let u = self.unit::<C::T>($u);
                if *$c == Cond::None {
                    match self.alt(3) {
                        0 => dd(NeuIntoRegexOps::<C>::$m(u)),
                        1 => dd(regex::$f::<C, _>(u)),
                        _ => {
                            let mut x = neu::$t::<C, DU<C::T>, C::T>::new(self.unit::<C::T>(&U::Always), EmptyCond);
                            x.set_unit(u);
                            redo!(self, x: unit set_unit unit_mut = self.junk_u::<C::T>());
                            dd(x)
                        }
                    }
                } else {
                    let c = self.cond::<C>($c);
                    match self.alt(2) {
                        0 => {
                            let mut x = NeuIntoRegexOps::<C>::$m(u).set_cond(c);
                            redo!(self, x: unit set_unit unit_mut = self.junk_u::<C::T>());
                            dd(x)
                        }
                        _ => dd(neu::$t::<C, _, C::T, _>::new(u, c)),
                    }
                }
            }};
        }
        macro_rules! between {
            ($i:expr, $u:expr, $c:expr, $(($k:literal, $m:expr, $n:expr)),*) => {
                match $i {
                    $($k => {
                        let u = self.unit::<C::T>($u);
                        if *$c == Cond::None {
                            match self.alt(2) {
                                0 => {
                                    let mut x = NeuIntoRegexOps::<C>::between::<{ $m }, { $n }>(u);
                                    redo!(self, x: unit set_unit unit_mut = self.junk_u::<C::T>());
                                    dd(x)
                                }
                                _ => dd(regex::count::<{ $m }, { $n }, C, _>(u)),
                            }
                        } else {
                            let c = self.cond::<C>($c);
                            match self.alt(2) {
                                0 => dd(NeuIntoRegexOps::<C>::between::<{ $m }, { $n }>(u).set_cond(c)),
                                _ => dd(regex::count_if::<{ $m }, { $n }, C, _, _>(u, c)),
                            }
                        }
                    })*
                    _ => unreachable!(),
                }
            };
        }
        macro_rules! rep2 {
            ($i:expr, |$m:ident, $n:ident| $e:expr) => {
                match $i {
                    0 => { const $m: usize = 0; const $n: usize = 0; $e }
                    1 => { const $m: usize = 0; const $n: usize = 1; $e }
                    2 => { const $m: usize = 1; const $n: usize = 1; $e }
                    3 => { const $m: usize = 0; const $n: usize = 2; $e }
                    4 => { const $m: usize = 1; const $n: usize = 2; $e }
                    5 => { const $m: usize = 2; const $n: usize = 2; $e }
                    6 => { const $m: usize = 0; const $n: usize = 3; $e }
                    7 => { const $m: usize = 1; const $n: usize = 3; $e }
                    8 => { const $m: usize = 2; const $n: usize = 4; $e }
                    9 => { const $m: usize = 3; const $n: usize = 3; $e }
                    _ => unreachable!(),
                }
            };
        }
        match p {
            P::Once(u, c) => unit_op!(u, c, once, Once, once),
            P::OptU(u, c) => unit_op!(u, c, opt, Opt, opt),
            P::Many0(u, c) => unit_op!(u, c, many0, Many0, many0),
            P::Many1(u, c) => unit_op!(u, c, many1, Many1, many1),
            P::Between(i, u, c) => match (self.alt(3), i) {
                // the shorthand forms
                (0, 7) if *c == Cond::None => dd(NeuIntoRegexOps::<C>::count::<2>(self.unit::<C::T>(u))),
                (0, 10) if *c == Cond::None => dd(NeuIntoRegexOps::<C>::count::<3>(self.unit::<C::T>(u))),
                (0, 13) if *c == Cond::None => dd(NeuIntoRegexOps::<C>::at_least::<1>(self.unit::<C::T>(u))),
                (0, 14) if *c == Cond::None => dd(NeuIntoRegexOps::<C>::at_least::<2>(self.unit::<C::T>(u))),
                (0, 2) if *c == Cond::None => dd(NeuIntoRegexOps::<C>::at_most::<2>(self.unit::<C::T>(u))),
                (0, 3) if *c == Cond::None => dd(NeuIntoRegexOps::<C>::at_most::<3>(self.unit::<C::T>(u))),
                _ => between!(*i, u, c,
                    (0, 0, 0), (1, 0, 1), (2, 0, 2), (3, 0, 3), (4, 1, 1), (5, 1, 2), (6, 1, 3), (7, 2, 2),
                    (8, 2, 3), (9, 2, 4), (10, 3, 3), (11, 3, 5), (12, 0, usize::MAX), (13, 1, usize::MAX),
                    (14, 2, usize::MAX), (15, 3, 1)),
            },
            P::Times(b, u, c) => {
                let r = self.crange(b);
                let u = self.unit::<C::T>(u);
                let mut t = match self.alt(2) {
                    0 => NeuIntoRegexOps::<C>::times(u, r),
                    _ => {
                        let mut t = NeuIntoRegexOps::<C>::times(u, 1..=1);
                        t.set_range(r);
                        t
                    }
                };
                redo!(self, t: unit set_unit unit_mut = self.junk_u::<C::T>(), range set_range range_mut = neu::range(self.alt(3)..));
                if *c == Cond::None { dd(t) } else { dd(t.set_cond(self.cond::<C>(c))) }
            }
            P::ThenU(a, b, c) => {
                let mut t = NeuIntoRegexOps::<C>::then(self.unit::<C::T>(a), self.unit::<C::T>(b));
                redo!(self, t: left set_left left_mut = self.junk_u::<C::T>(), right set_right right_mut = self.junk_u::<C::T>());
                if *c == Cond::None { dd(t) } else { dd(t.set_cond(self.cond::<C>(c))) }
            }
            P::Lit(v) => C::lit(self.alt(35), v),
            P::Hole => {
                let f = self.hole.get() as *const Box<dyn Fn() -> D<'a, C> + 'a>;
                assert!(!f.is_null(), "no grammar to refer to");
                // set by `recursive` for the same context type; never freed
                unsafe { (*f)() }
            }
            P::Start => dd(regex::start()),
            P::End => dd(regex::end()),
            P::Empty => dd(regex::empty()),
            #[cfg(feature = "std")]
            P::Fail if self.wrap != Wrap::No => match self.alt(3) {
                0 => dd(regex::fail()),
                k => crate::wrap::absent(k - 1, self.p0(&P::Empty)),
            },
            P::Fail => dd(regex::fail()),
            P::Unit => dd(RegexIntoHelper::<C>::into_ctor(())),
            P::Consume(k) => dd(regex::consume(*k)),
            P::ConsumeAll => dd(regex::consume_all()),
            P::Clo(k) => {
                let k = k.clone();
                dd(move |ctx: &mut C| clo(&k, ctx))
            }
            P::Assert(k, p) => {
                let p = self.p::<C>(p);
                let fix = |mut x: regex::Assert<D<'a, C>>| {
                    redo!(self, x: pat set_pat pat_mut = self.junk::<C>());
                    if self.sets && self.alt(2) == 0 {
                        let v = (&x).value();
                        x = x.with_value(!v);
                        x.set_value(v);
                    }
                    dd(x)
                };
                match k {
                    AK::Not => fix(regex::not(p)),
                    AK::Peek => fix(regex::peek(p)),
                    AK::With(b) => match self.alt(2) {
                        0 => dd(regex::assert(p, *b)),
                        _ => dd(regex::assert(p, !*b).with_value(*b)),
                    },
                    AK::OpNot => dd(!p.pat()),
                }
            }
            P::Pat(p) => {
                let mut x = self.p::<C>(p).pat();
                redo!(self, x: pat set_pat pat_mut = self.junk::<C>());
                dd(x)
            }
            P::AsCtor(p) => {
                let p = self.p::<C>(p);
                match self.alt(2) {
                    0 => dd(p.into_ctor()),
                    _ => {
                        let mut x = regex::Adapter::<C, _>::new(p);
                        redo!(self, x: inner set_inner inner_mut = self.junk::<C>());
                        dd(if self.sets && self.alt(2) == 0 { regex::Adapter::new(self.junk::<C>()).with_inner(x.into_inner()) } else { x })
                    }
                }
            }
            P::DynRe(p, d) => {
                let p = self.p::<C>(p);
                let (d, b) = (d.clone(), std::sync::Mutex::new(self.sub()));
                let f = move |ctx: &mut C, s: &Span| -> Result<D<'a, C>, Error> {
                    let bytes = C::bytes_of(ctx.orig_sub(s.beg, s.len)?);
                    let els = els_of(&bytes, C::TEXT);
                    match M::dyn_pick_re(&d, s.len, &els) {
                        Some(q) => {
                            moved(ctx, d.mv, s.beg);
                            Ok(b.lock().unwrap().again().p::<C>(&q))
                        }
                        None => {
                            if d.dirty {
                                dirty(ctx);
                            }
                            Err(Error::Uid(4))
                        }
                    }
                };
                match self.alt(2) {
                    0 => dn(p.into_regex_builder(f)),
                    _ => dn(regex::into_regex_builder::<C, _, _, _>(p, f)),
                }
            }
            P::Opt(p) => {
                let p = self.p::<C>(p);
                let mut x = p.opt();
                redo!(self, x: pat set_pat pat_mut = self.junk::<C>());
                cv(x, opt)
            }
            P::Or(a, b) => {
                let (a, b) = (self.p::<C>(a), self.p::<C>(b));
                let mut x = a.or(b);
                redo!(self, x: left set_left left_mut = self.junk::<C>(), right set_right right_mut = self.junk::<C>());
                dd(x)
            }
            P::Ltm(a, b) => {
                let (a, b) = (self.p::<C>(a), self.p::<C>(b));
                let mut x = a.longest(b);
                redo!(self, x: left set_left left_mut = self.junk::<C>(), right set_right right_mut = self.junk::<C>());
                dd(x)
            }
            P::Then(a, b) => cv(self.then(a, b), |(x, y)| pair(x, y)),
            P::IfThen(..) => cv(self.if_then(p), |(x, y): (Val, Option<Val>)| pair(x, opt(y))),
            P::Prefix(p, q) => {
                let (p, q) = (self.p::<C>(p), self.p::<C>(q));
                match self.alt(2) {
                    0 => {
                        let mut x = p.prefix(q);
                        redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), prefix set_prefix prefix_mut = self.junk::<C>());
                        dd(x)
                    }
                    _ => dd(ctor::Prefix::<C, _, _>::new(p, q)),
                }
            }
            P::Suffix(p, q) => {
                let (p, q) = (self.p::<C>(p), self.p::<C>(q));
                match self.alt(2) {
                    0 => {
                        let mut x = p.suffix(q);
                        redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), suffix set_suffix suffix_mut = self.junk::<C>());
                        dd(x)
                    }
                    _ => dd(ctor::Suffix::<C, _, _>::new(p, q)),
                }
            }
            P::Enclose(p, l, r) => {
                let (p, l, r) = (self.p::<C>(p), self.p::<C>(l), self.p::<C>(r));
                match self.alt(2) {
                    0 => {
                        let mut x = p.enclose(l, r);
                        redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), open set_open open_mut = self.junk::<C>(), close set_close close_mut = self.junk::<C>());
                        dd(x)
                    }
                    _ => {
                        let mut e = self.p::<C>(&P::Fail).enclose(self.p::<C>(&P::Fail), self.p::<C>(&P::Fail));
                        e.set_pat(p).set_open(l).set_close(r);
                        dd(e)
                    }
                }
            }
            P::SepOnce(..) => cv(self.sep_once(p), |(x, y)| pair(x, y)),
            #[cfg(feature = "alloc")]
            P::Sep(p, s, skip, min) => {
                let mut x = self.p::<C>(p).sep(self.p::<C>(s));
                x = match self.alt(2) {
                    0 => x.with_skip(*skip).at_least(*min),
                    _ => {
                        x.set_skip(*skip).set_min(*min).set_capacity(self.hint(&[3, 0, usize::MAX]));
                        x
                    }
                };
                redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), sep set_sep sep_mut = self.junk::<C>());
                redo_val!(self, x: skip set_skip = !x.skip(), min set_min = self.alt(4), capacity set_capacity = self.alt(9));
                if self.sets && self.alt(2) == 0 {
                    x = x.with_capacity(self.hint(&[0, 1, 7, usize::MAX / 2, usize::MAX]));
                }
                cv(x, Val::List)
            }
            P::Sep2(p, s, skip, i) => rep2!(*i, |MM, NN| {
                let mut x = self.p::<C>(p).sep2::<_, MM, NN>(self.p::<C>(s)).with_skip(*skip);
                redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), sep set_sep sep_mut = self.junk::<C>());
                if self.sets && self.alt(2) == 0 {
                    x = x.with_skip(!*skip);
                    x.set_skip(*skip);
                }
                cv(x, |v: [Option<Val>; NN]| Val::Arr(v.into_iter().collect()))
            }),
            P::SepCol(p, s, skip, min) => {
                let (p, s) = (self.p::<C>(p), self.p::<C>(s));
                // a collection that keeps pulling after the end, as FromIterator allows
                match self.alt(2) {
                    0 => {
                        let mut x = p.sep_collect::<_, Val, Vec<Val>>(s).with_skip(*skip).at_least(*min);
                        redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), sep set_sep sep_mut = self.junk::<C>());
                        redo_val!(self, x: skip set_skip = !x.skip(), min set_min = self.alt(4));
                        if self.sets && self.alt(2) == 0 {
                            x = x.with_skip(!*skip).at_least(self.alt(4));
                            x.set_skip(*skip).set_min(*min);
                        }
                        cv(x, Val::List)
                    }
                    _ => cv(
                        p.sep_collect::<_, Val, Greedy>(s).with_skip(*skip).at_least(*min),
                        |g: Greedy| Val::List(g.0),
                    ),
                }
            }
            #[cfg(feature = "alloc")]
            P::Repeat(p, b) => {
                let p = self.p::<C>(p);
                let r = self.crange(b);
                let mut x = match self.alt(3) {
                    0 => p.repeat(r),
                    1 => p.repeat(1..=1).with_range(r),
                    _ => {
                        let mut x = p.repeat(1..=1);
                        x.set_range(r).set_capacity(self.hint(&[2, 0, usize::MAX]));
                        x
                    }
                };
                redo!(self, x: pat set_pat pat_mut = self.junk::<C>());
                redo_val!(self, x: range set_range = self.alt(3).., capacity set_capacity = self.alt(9));
                if self.sets {
                    x = match self.alt(3) {
                        0 => self.junk::<C>().repeat(*x.range()).with_pat((&x).pat().clone()),
                        1 => x.with_capacity(self.hint(&[0, 1, 7, usize::MAX / 2, usize::MAX])),
                        _ => x,
                    };
                }
                cv(x, Val::List)
            }
            P::Repeat2(p, i) => rep2!(*i, |MM, NN| {
                let mut x = self.p::<C>(p).repeat2::<MM, NN>();
                redo!(self, x: pat set_pat pat_mut = self.junk::<C>());
                if self.sets && self.alt(2) == 0 {
                    x = self.junk::<C>().repeat2::<MM, NN>().with_pat((&x).pat().clone());
                }
                cv(x, |v: [Option<Val>; NN]| Val::Arr(v.into_iter().collect()))
            }),
            P::Collect(p, min) => {
                let p = self.p::<C>(p);
                match self.alt(3) {
                    0 => cv(p.collect::<Val, Vec<Val>>().at_least(*min), Val::List),
                    1 => cv(p.collect::<Val, Greedy>().at_least(*min), |g: Greedy| Val::List(g.0)),
                    _ => {
                        let mut x = p.collect::<Val, Vec<Val>>();
                        x.set_min(*min);
                        redo!(self, x: pat set_pat pat_mut = self.junk::<C>());
                        redo_val!(self, x: min set_min = self.alt(4));
                        cv(x, Val::List)
                    }
                }
            }
            P::Branch(t, a, b) => {
                let t = *t;
                let (a, b) = (self.p::<C>(a), self.p::<C>(b));
                let mk = |t: BT| move |c: &C| -> Result<bool, Error> {
                    let next = |c: &C| c.peek().ok().and_then(|mut i| i.next()).map(|x| E(x.1.code()));
                    match t {
                        BT::Const(b) => Ok(b),
                        BT::AbsMod(m, r) => Ok(c.offset() % m == r),
                        BT::NextIs(e) => Ok(next(c) == Some(e)),
                        BT::ErrIf(e) if next(c) == Some(e) => Err(Error::Uid(5)),
                        BT::ErrMod(m, r) if c.offset() % m == r => Err(Error::Uid(5)),
                        BT::ErrEnd if next(c).is_none() => Err(Error::Uid(5)),
                        BT::ErrIf(_) | BT::ErrMod(..) | BT::ErrEnd => Ok(true),
                    }
                };
                match self.alt(2) {
                    0 => {
                        let mut x = a.if_else(mk(t), b);
                        redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), other set_other other_mut = self.junk::<C>(), test set_test test_mut = mk(BT::Const(self.alt(2) == 0)));
                        dd(x)
                    }
                    _ => dd(ctor::branch(mk(t), a, b)),
                }
            }
            P::Many(mk, ltm, v) => self.many(*mk, *ltm, v),
            P::Sel(w, q) => {
                let mk = |x: Val, y: Option<Val>| pair(x, opt(y));
                match (&**q, w) {
                    (P::Then(a, b), 0) => cv(self.then(a, b)._0::<(Val, Val)>(), |v: Val| v),
                    (P::Then(a, b), 1) => cv(self.then(a, b)._1::<(Val, Val)>(), |v: Val| v),
                    (P::Then(a, b), _) => cv(self.then(a, b)._eq::<Val, Val>(), |(x, y): (Val, Val)| pair(x, y)),
                    (P::SepOnce(..), 0) => cv(self.sep_once(q)._0::<(Val, Val)>(), |v: Val| v),
                    (P::SepOnce(..), 1) => cv(self.sep_once(q)._1::<(Val, Val)>(), |v: Val| v),
                    (P::SepOnce(..), _) => cv(self.sep_once(q)._eq::<Val, Val>(), |(x, y): (Val, Val)| pair(x, y)),
                    (P::IfThen(..), 0) => cv(self.if_then(q)._0::<(Val, Option<Val>)>(), |v: Val| v),
                    (P::IfThen(..), 1) => cv(self.if_then(q)._1::<(Val, Option<Val>)>(), opt),
                    (P::IfThen(..), _) => {
                        cv(self.if_then(q)._eq::<Val, Option<Val>>(), move |(x, y): (Val, Option<Val>)| mk(x, y))
                    }
                    (P::DynCtor(a, d), 0) => cv(self.dyn_ctor(a, d)._0::<(Val, Val)>(), |v: Val| v),
                    (P::DynCtor(a, d), 1) => cv(self.dyn_ctor(a, d)._1::<(Val, Val)>(), |v: Val| v),
                    (P::DynCtor(a, d), _) => {
                        cv(self.dyn_ctor(a, d)._eq::<Val, Val>(), |(x, y): (Val, Val)| pair(x, y))
                    }
                    _ => unreachable!(),
                }
            }
            P::Map(p, m) => {
                let m = *m;
                let p = self.p::<C>(p);
                let mk = |m: MapR| move |v: Val| -> Result<Val, Error> {
                    if m.fail != 0 && v.hash() % m.fail == 0 {
                        Err(Error::Uid(6))
                    } else {
                        Ok(Val::Tag(m.tag, Box::new(v)))
                    }
                };
                match self.alt(3) {
                    0 => {
                        let mut x = p.try_map::<_, Val>(mk(m));
                        redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), mapper set_mapper mapper_mut = mk(MapR { tag: 77, fail: 1 }));
                        cv(x, |v: Val| v)
                    }
                    1 if m.fail == 0 => {
                        cv(CtorOps::map::<_, Val>(p, move |v: Val| Val::Tag(m.tag, Box::new(v))), |v: Val| v)
                    }
                    _ => cv(CtorOps::map::<_, Val>(p, |_: Val| Val::Unit).map_to::<_, Val>(mk(m)), |v: Val| v),
                }
            }
            P::DynCtor(a, d) => cv(self.dyn_ctor(a, d), |(x, y): (Val, Val)| pair(x, y)),
            P::SkipWs(k, p) => C::skip_ws(*k, self.p::<C>(p)),
            #[cfg(not(feature = "alloc"))]
            P::Sep(..) | P::Repeat(..) => panic!("needs alloc"),
        }
    }
    fn then<'a, C: HCtx<'a>>(&self, a: &P, b: &P) -> ctor::Then<C, D<'a, C>, D<'a, C>> {
        let (a, b) = (self.p::<C>(a), self.p::<C>(b));
        match self.alt(3) {
            0 => {
                let mut x = a.then(b);
                redo!(self, x: left set_left left_mut = self.junk::<C>(), right set_right right_mut = self.junk::<C>());
                x
            }
            1 => ctor::Then::new(a, b),
            _ => {
                let mut t = self.p::<C>(&P::Fail).then(self.p::<C>(&P::Fail));
                t.set_right(b);
                t.set_left(a);
                t
            }
        }
    }
    fn if_then<'a, C: HCtx<'a>>(&self, p: &P) -> ctor::IfThen<C, D<'a, C>, D<'a, C>, D<'a, C>> {
        let P::IfThen(a, t, b) = p else { unreachable!() };
        let mut x = self.p::<C>(a).if_then(self.p::<C>(t), self.p::<C>(b));
        redo!(self, x: left set_left left_mut = self.junk::<C>(), test set_test test_mut = self.junk::<C>(), right set_right right_mut = self.junk::<C>());
        x
    }
    fn sep_once<'a, C: HCtx<'a>>(&self, p: &P) -> ctor::SepOnce<C, D<'a, C>, D<'a, C>, D<'a, C>> {
        let P::SepOnce(a, s, b) = p else { unreachable!() };
        let mut x = self.p::<C>(a).sep_once(self.p::<C>(s), self.p::<C>(b));
        redo!(self, x: left set_left left_mut = self.junk::<C>(), sep set_sep sep_mut = self.junk::<C>(), right set_right right_mut = self.junk::<C>());
        x
    }
    fn dyn_ctor<'a, C: HCtx<'a>>(
        &self,
        a: &P,
        d: &Dyn,
    ) -> ctor::DynamicCtorThenBuilder<C, D<'a, C>, impl Fn(&mut C, &Val) -> Result<D<'a, C>, Error> + Clone + Send + Sync + use<'a, C>>
    {
        let (d, b) = (d.clone(), self.sub());
        let b = Arc::new(std::sync::Mutex::new(b));
        let mk = move |on: bool| {
            let (d, b) = (d.clone(), b.clone());
            move |ctx: &mut C, v: &Val| match M::dyn_pick_val(&d, v, C::TEXT).filter(|_| on) {
                Some(q) => {
                    let at = ctx.offset();
                    moved(ctx, d.mv, at);
                    Ok(b.lock().unwrap().again().p::<C>(&q))
                }
                None => {
                    if d.dirty {
                        dirty(ctx);
                    }
                    Err(Error::Uid(7))
                }
            }
        };
        let mut x = self.p::<C>(a).into_ctor_then_builder(mk(true));
        redo!(self, x: pat set_pat pat_mut = self.junk::<C>(), func set_func func_mut = mk(false));
        x
    }
    fn many<'a, C: HCtx<'a>>(&self, mk: MK, ltm: bool, v: &[P]) -> D<'a, C> {
        let mut it: Vec<D<'a, C>> = v.iter().map(|p| self.p::<C>(p)).collect();
        let tag = |(v, t): (Val, u32)| Val::Tag(t, Box::new(v));
        let form = self.alt(4);
        macro_rules! arr_n {
            ($n:literal, $it:expr) => {{
                let mut i = $it.into_iter();
                let a: [_; $n] = std::array::from_fn(|_| i.next().unwrap());
                a
            }};
        }
        macro_rules! lng {
            ($f:ident, $g:ident, $a:expr) => {
 {
                    let mut x = match (form, ltm) {
                        (0, false) => regex::$f($a),
                        (0, true) => regex::$g($a),
                        (2, l) => regex::$g($a).with_longest(l),
                        (_, l) => regex::$f($a).with_longest(l),
                    };
                    if self.sets && self.alt(2) == 0 {
                        let l = (&x).longest();
                        x = x.with_longest(!l);
                        x.set_longest(l);
                    }
                    x
                }
            };
        }
        match mk {
            MK::Array => match it.len() {
                1 => dd(lng!(array, array_ltm, arr_n!(1, it))),
                2 => dd(lng!(array, array_ltm, arr_n!(2, it))),
                3 => dd(lng!(array, array_ltm, arr_n!(3, it))),
                _ => dd(lng!(array, array_ltm, arr_n!(4, it))),
            },
            MK::Slice => dd(SliceP(it, ltm, form)),
            #[cfg(feature = "alloc")]
            MK::Vector => {
                if form == 1 && it.len() > 1 {
                    // the vector is a Vec: extend it after construction
                    let last = it.pop().unwrap();
                    let mut x = lng!(vector, vector_ltm, it);
                    x.push(last);
                    dd(x)
                } else {
                    dd(lng!(vector, vector_ltm, it))
                }
            }
            MK::PairArray | MK::PairSlice | MK::PairVector => {
                let v: Vec<(D<'a, C>, u32)> = it.drain(..).enumerate().map(|(i, d)| (d, 1000 + i as u32)).collect();
                match mk {
                    MK::PairArray => match v.len() {
                        1 => cv(lng!(pair_array, pair_array_ltm, arr_n!(1, v)), tag),
                        2 => cv(lng!(pair_array, pair_array_ltm, arr_n!(2, v)), tag),
                        3 => cv(lng!(pair_array, pair_array_ltm, arr_n!(3, v)), tag),
                        _ => cv(lng!(pair_array, pair_array_ltm, arr_n!(4, v)), tag),
                    },
                    MK::PairSlice => cv(PairSliceP(v, ltm, form), tag),
                    #[cfg(feature = "alloc")]
                    _ => cv(lng!(pair_vector, pair_vector_ltm, v), tag),
                    #[cfg(not(feature = "alloc"))]
                    _ => panic!("needs alloc"),
                }
            }
            #[cfg(not(feature = "alloc"))]
            MK::Vector => panic!("needs alloc"),
        }
    }
}
pub struct DC<'a, C>(Arc<dyn NeuCond<'a, C> + Send + Sync + 'a>);
impl<C> Clone for DC<'_, C> {
    fn clone(&self) -> Self {
        DC(self.0.clone())
    }
}
impl<'a, C: Context<'a>> NeuCond<'a, C> for DC<'a, C> {
    fn check(&self, ctx: &C, item: &(usize, C::Item)) -> Result<bool, Error> {
        self.0.check(ctx, item)
    }
}
/// `&[T]` as an element set, borrowed on every use
#[derive(Clone)]
struct SetSlice<T>(Vec<T>);
impl<T: El> Neu<T> for SetSlice<T> {
    fn is_match(&self, other: &T) -> bool {
        Neu::is_match(&self.0.as_slice(), other)
    }
    fn min_length(&self) -> usize {
        Neu::<T>::min_length(&self.0.as_slice())
    }
}
/// collection that asks once more after the iterator has ended
pub struct Greedy(Vec<Val>);
impl FromIterator<Val> for Greedy {
    fn from_iter<I: IntoIterator<Item = Val>>(i: I) -> Self {
        let mut it = i.into_iter();
        let mut v = vec![];
        for again in 0..3 {
            let _ = again;
            for x in it.by_ref() {
                v.push(x);
            }
        }
        Greedy(v)
    }
}
fn els_of(b: &[u8], text: bool) -> Vec<E> {
    if text {
        std::str::from_utf8(b).unwrap().chars().map(|c| E(c as u32)).collect()
    } else {
        b.iter().map(|b| E(*b as u32)).collect()
    }
}
/// a builder function that moves the cursor: back to `beg` or one element ahead
fn moved<'a, C: HCtx<'a>>(ctx: &mut C, mv: u8, beg: usize) {
    match mv {
        0 => {}
        1 => {
            ctx.set_offset(beg);
        }
        _ => {
            let rest = ctx.len() - ctx.offset();
            let n = ctx.peek().ok().and_then(|mut i| i.nth(1)).map_or(rest, |x| x.0);
            ctx.inc(n);
        }
    }
}
fn dirty<'a, C: HCtx<'a>>(ctx: &mut C) {
    let n = ctx.peek().ok().and_then(|mut i| i.nth(1)).map(|x| x.0).unwrap_or(0);
    ctx.inc(n);
}
fn clo<'a, C: HCtx<'a>>(k: &Clo, ctx: &mut C) -> Result<Span, Error> {
    let beg = ctx.offset();
    let rest = ctx.len() - beg;
    match k {
        Clo::Take(n) => {
            let v: Vec<usize> = ctx.peek()?.map(|x| x.0).take(n + 1).collect();
            if v.len() < *n {
                return Err(Error::Uid(8));
            }
            let len = v.get(*n).copied().unwrap_or(rest);
            ctx.inc(len);
            Ok(Span::new(beg, len))
        }
        Clo::Dirty(e) => {
            let v: Vec<(usize, u32)> = ctx.peek()?.map(|x| (x.0, x.1.code())).take(2).collect();
            let len = v.get(1).map(|x| x.0).unwrap_or(rest);
            ctx.inc(len);
            if v.first().is_some_and(|x| x.1 == e.0) { Ok(Span::new(beg, len)) } else { Err(Error::Uid(9)) }
        }
        Clo::Nothing => Ok(Span::new(beg, 0)),
        Clo::Fail => Err(Error::Uid(10)),
    }
}

// ------------------------------------------------------------------ running
pub type Sp = Option<(usize, usize)>;
/// A pattern bound to one context type and a set of inputs.
pub trait Exec {
    /// ctx.try_mat(pattern) at byte offset `at`
    fn mat(&self, inp: usize, at: usize) -> (Sp, usize);
    /// pattern.try_parse(ctx)
    fn parse(&self, inp: usize, at: usize) -> (Sp, usize);
    /// ctx.is_mat(pattern) and pattern.parse(ctx)
    fn yes(&self, inp: usize, at: usize) -> [(bool, usize); 2];
    /// ctx.ctor_handler(pattern, handler)
    fn ctor(&self, inp: usize, at: usize, h: &Rec) -> (Option<Val>, usize);
    /// pattern.construct(ctx, handler)
    fn construct(&self, inp: usize, at: usize, h: &Rec) -> (Option<Val>, usize);
    /// ctx.map_handler(pattern, handler)
    fn map_h(&self, inp: usize, at: usize, h: &Rec) -> (Option<Val>, usize);
    fn find(&self, inp: usize, at: usize) -> (Sp, usize);
    fn find_all(&self, inp: usize, at: usize) -> (Vec<(usize, usize)>, usize);
    fn match_seq(&self, inp: usize, at: usize) -> (Vec<(usize, usize)>, usize);
    /// the errors of try_mat, try_parse, ctor_handler and construct, as text
    fn errors(&self, inp: usize, at: usize, h: HCfg) -> [Option<String>; 4];
    fn ctor_errors(&self, inp: usize, at: usize, h: HCfg) -> [Option<String>; 4];
    /// ctx.try_assert / is_mat
    fn assert(&self, inp: usize, at: usize) -> (bool, usize);
    /// several operations on one context, without repositioning in between
    fn seq(&self, inp: usize, at: usize, n: usize) -> Vec<(Sp, usize)>;
    /// values of every kind from one match of the pattern
    fn typed(&self, inp: usize, at: usize) -> Vec<Seen>;
    /// scanning with user functions
    fn scan_with(&self, inp: usize, at: usize, k: ScanCfg) -> Scanned;
    /// find, find_all and match_seq giving the pieces
    fn pieces(&self, inp: usize, at: usize) -> (Option<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>);
    /// try_mat_policy with the auxiliary patterns; absent ones through try_mat_before / try_mat_after
    fn policy(&self, inp: usize, at: usize, before: bool, after: bool) -> (Sp, usize);
}
struct Ex<'a, C, F> {
    pat: D<'a, C>,
    aux: Vec<D<'a, C>>,
    mk: F,
}
fn sp(r: Result<Span, Error>) -> Sp {
    r.ok().map(|s| (s.beg, s.len))
}
impl<'a, C: HCtx<'a>, F: Fn(usize) -> C> Exec for Ex<'a, C, F> {
    fn mat(&self, inp: usize, at: usize) -> (Sp, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = c.try_mat(&self.pat);
        (sp(r), c.offset())
    }
    fn parse(&self, inp: usize, at: usize) -> (Sp, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = self.pat.try_parse(&mut c);
        (sp(r), c.offset())
    }
    fn yes(&self, inp: usize, at: usize) -> [(bool, usize); 2] {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let m = c.is_mat(&self.pat);
        let e = c.offset();
        c.set_offset(at);
        let p = self.pat.parse(&mut c);
        [(m, e), (p, c.offset())]
    }
    fn ctor(&self, inp: usize, at: usize, h: &Rec) -> (Option<Val>, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = c.ctor_handler(&self.pat, h.clone());
        (r.ok(), c.offset())
    }
    fn construct(&self, inp: usize, at: usize, h: &Rec) -> (Option<Val>, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = self.pat.construct(&mut c, &mut h.clone());
        (r.ok(), c.offset())
    }
    fn map_h(&self, inp: usize, at: usize, h: &Rec) -> (Option<Val>, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = c.map_handler(&self.pat, h.clone());
        (r.ok(), c.offset())
    }
    fn find(&self, inp: usize, at: usize) -> (Sp, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = c.find::<Span>(&|c: &mut C| self.pat.try_parse(c));
        (r.map(|s| (s.beg, s.len)), c.offset())
    }
    fn find_all(&self, inp: usize, at: usize) -> (Vec<(usize, usize)>, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = c.find_all::<Span>(&|c: &mut C| self.pat.try_parse(c)).map(|s| (s.beg, s.len)).collect();
        (r, c.offset())
    }
    fn match_seq(&self, inp: usize, at: usize) -> (Vec<(usize, usize)>, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = c.match_seq::<Span>(&|c: &mut C| self.pat.try_parse(c)).map(|s| (s.beg, s.len)).collect();
        (r, c.offset())
    }
    fn ctor_errors(&self, inp: usize, at: usize, h: HCfg) -> [Option<String>; 4] {
        let c = || {
            let mut c = (self.mk)(inp);
            c.set_offset(at);
            c
        };
        let s = |e: Option<Error>| e.map(|e| format!("{e:?}"));
        [None, None, s(c().ctor_handler(&self.pat, Rec::new(h)).err()), s(self.pat.construct(&mut c(), &mut Rec::new(h)).err())]
    }
    fn errors(&self, inp: usize, at: usize, h: HCfg) -> [Option<String>; 4] {
        let c = || {
            let mut c = (self.mk)(inp);
            c.set_offset(at);
            c
        };
        let s = |e: Option<Error>| e.map(|e| format!("{e:?}"));
        [
            s(c().try_mat(&self.pat).err()),
            s(self.pat.try_parse(&mut c()).err()),
            s(c().ctor_handler(&self.pat, Rec::new(h)).err()),
            s(self.pat.construct(&mut c(), &mut Rec::new(h)).err()),
        ]
    }
    fn assert(&self, inp: usize, at: usize) -> (bool, usize) {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        let r = neure::ctx::Assert::try_assert(&mut c, &self.pat).unwrap_or(false);
        let e = c.offset();
        c.set_offset(at);
        let quiet = neure::ctx::Assert::assert(&mut c, &self.pat);
        assert_eq!((quiet, c.offset()), (r, e), "Assert::assert against Assert::try_assert");
        (r, c.offset())
    }
    fn seq(&self, inp: usize, at: usize, n: usize) -> Vec<(Sp, usize)> {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        (0..n)
            .map(|_| {
                let r = c.try_mat(&self.pat);
                (sp(r), c.offset())
            })
            .collect()
    }
    fn typed(&self, inp: usize, at: usize) -> Vec<Seen> {
        C::typed(&|| self.at(inp, at), &|c: &mut C| self.pat.try_parse(c))
    }
    fn scan_with(&self, inp: usize, at: usize, k: ScanCfg) -> Scanned {
        typed::scan(&mut self.at(inp, at), &|c: &mut C| self.pat.try_parse(c), k)
    }
    fn pieces(&self, inp: usize, at: usize) -> (Option<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>) {
        C::pieces(&|| self.at(inp, at), &|c: &mut C| self.pat.try_parse(c))
    }
    fn policy(&self, inp: usize, at: usize, before: bool, after: bool) -> (Sp, usize) {
        let mut c = self.at(inp, at);
        let r = match (before, after) {
            (true, true) => c.try_mat_policy(&self.pat, &self.aux[0], &self.aux[1]),
            (true, false) => c.try_mat_before(&self.pat, &self.aux[0]),
            (false, true) => c.try_mat_after(&self.pat, &self.aux[1]),
            (false, false) => c.try_mat_policy(&self.pat, &regex::empty(), &regex::empty()),
        };
        (sp(r), c.offset())
    }
}
impl<'a, C: HCtx<'a>, F: Fn(usize) -> C> Ex<'a, C, F> {
    fn at(&self, inp: usize, at: usize) -> C {
        let mut c = (self.mk)(inp);
        c.set_offset(at);
        c
    }
}
/// Build the pattern for its context type and hand it to `f`.
pub fn with_exec<R>(text: bool, skip: Option<&Skip>, seed: u64, p: &P, inps: &[Inp], f: impl FnOnce(&dyn Exec) -> R) -> R {
    let (mut f, mut r) = (Some(f), None);
    with_exec_dyn(text, skip, seed, p, inps, &mut |e| r = Some(f.take().unwrap()(e)));
    r.unwrap()
}
pub fn with_exec_dyn(text: bool, skip: Option<&Skip>, seed: u64, p: &P, inps: &[Inp], f: &mut dyn FnMut(&dyn Exec)) {
    with_bld(text, skip, &Bld::new(seed), None, p, inps, f)
}
pub fn with_bld(text: bool, skip: Option<&Skip>, b: &Bld, rec: Option<usize>, p: &P, inps: &[Inp], f: &mut dyn FnMut(&dyn Exec)) {
    match (text, skip) {
        (true, None) => f(&Ex { pat: b.top::<CharsCtx<'_>>(p, rec), aux: b.aux(), mk: |i: usize| CharsCtx::new(inps[i].str()) }),
        (false, None) => {
            f(&Ex { pat: b.top::<BytesCtx<'_>>(p, rec), aux: b.aux(), mk: |i: usize| BytesCtx::new(inps[i].bytes.as_slice()) })
        }
        (true, Some(s)) => f(&Ex {
            pat: b.top::<PolicyCtx<CharsCtx<'_>, Skip>>(p, rec), aux: b.aux(),
            mk: |i: usize| CharsCtx::new(inps[i].str()).skip_before(s.clone()),
        }),
        (false, Some(s)) => f(&Ex {
            pat: b.top::<PolicyCtx<BytesCtx<'_>, Skip>>(p, rec), aux: b.aux(),
            mk: |i: usize| BytesCtx::new(inps[i].bytes.as_slice()).skip_before(s.clone()),
        }),
    }
}

/// exactly `n` occurrences, given as one of the integer types a count can be written in
fn times(n: usize, form: usize) -> CRange<usize> {
    macro_rules! t {
        ($($k:literal $t:ty),*) => {
            match form {
                $($k if n <= <$t>::MAX as usize => (n as $t).into(),)*
                $(k if k == $k + 10 && n <= <$t>::MAX as usize => (&(n as $t)).into(),)*
                _ => n.into(),
            }
        };
    }
    t!(0 i8, 1 u8, 2 i16, 3 u16, 4 i32, 5 u32, 6 i64, 7 u64, 8 isize, 9 usize)
}
