//! Every way neure offers to put a pattern behind a pointer, cell, trait object or adapter.
use crate::ast::Val;
use crate::build::{D, DU, El, HCtx, Rec, dd, dn, du, dun};
use neure::ctor::{self, Ctor, CtorIntoHelper, CtorRefAsDynCtor};
use neure::err::Error;
use neure::neu::Neu;
use neure::regex::{self, Regex, RegexIntoHelper, RegexRefAsCtor, RegexRefAsDynRegex};
use neure::span::Span;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

/// Lets a wrapper that is not thread safe sit inside `D`; the harness keeps it on one thread.
#[derive(Clone)]
pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<C, T: Regex<C>> Regex<C> for Force<T> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C, T: Ctor<C, Val, Rec>> Ctor<C, Val, Rec> for Force<T> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.0.construct(ctx, h)
    }
}
impl<X, T: Neu<X>> Neu<X> for Force<T> {
    fn is_match(&self, o: &X) -> bool {
        self.0.is_match(o)
    }
    fn min_length(&self) -> usize {
        self.0.min_length()
    }
}
/// a Copy pattern
struct DRef<'p, 'a, C>(&'p D<'a, C>);
impl<C> Clone for DRef<'_, '_, C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C> Copy for DRef<'_, '_, C> {}
impl<C> Regex<C> for DRef<'_, '_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C> Ctor<C, Val, Rec> for DRef<'_, '_, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.0.construct(ctx, h)
    }
}
/// wrappers around a borrowed pattern, made on every use
struct OnUse<'a, C>(usize, D<'a, C>);
impl<C> Clone for OnUse<'_, C> {
    fn clone(&self) -> Self {
        OnUse(self.0, self.1.clone())
    }
}
macro_rules! on_use {
    ($s:expr, |$w:ident| $e:expr) => {{
        let d = &$s.1;
        macro_rules! go {
            ($x:expr) => {{
                let $w = &$x;
                $e
            }};
        }
        match $s.0 {
            0 => go!(d.as_dyn_ctor()),
            1 => go!(Cell::new(DRef(d))),
            2 => go!(Cell::new(d.as_dyn_ctor())),
            3 => go!(ctor::Adapter::<C, _>::cell(DRef(d))),
            4 => go!(CtorIntoHelper::<C>::into_cell(DRef(d))),
            5 => go!(Some(d.as_dyn_ctor())),
            6 => go!(ctor::DynRefAdapter::<C, Val, Rec>::new(d)),
            // leaves
            7 => go!(d.as_ctor()),
            8 => go!(d.as_dyn_regex()),
            9 => go!(regex::Adapter::<C, _>::cell(DRef(d))),
            10 => go!(RegexIntoHelper::<C>::into_cell_regex(DRef(d))),
            11 => go!(Cell::new(d.as_dyn_regex())),
            12 => go!(Cell::new(d.as_ctor())),
            13 => go!(regex::RefAdapter::<C, _>::new(d)),
            _ => go!(regex::DynRefAdapter::<C>::new(d)),
        }
    }};
}
impl<'a, C: HCtx<'a>> Regex<C> for OnUse<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        on_use!(self, |w| Regex::<C>::try_parse(w, ctx))
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for OnUse<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        on_use!(self, |w| Ctor::<C, Val, Rec>::construct(w, ctx, h))
    }
}
/// construction through a function adapter (which has no matching side)
struct FunOnUse<'a, C>(D<'a, C>);
impl<C> Clone for FunOnUse<'_, C> {
    fn clone(&self) -> Self {
        FunOnUse(self.0.clone())
    }
}
impl<'a, C: HCtx<'a>> Regex<C> for FunOnUse<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for FunOnUse<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        let f = ctor::Adapter::<C, _>::func(|c: &mut C, h: &mut Rec| self.0.construct(c, h));
        f.construct(ctx, h)
    }
}

/// wrappers 0..FULL forward matching and construction; the ones from FULL to ALL construct by matching and handing
/// the span to the handler
pub const FULL: usize = 49;
pub const ALL: usize = 86;
/// transparent wrappers that are really Send + Sync
pub const SYNC: [usize; 21] = [0, 1, 4, 5, 8, 11, 14, 15, 17, 18, 23, 24, 27, 30, 40, 41, 42, 43, 44, 46, 48];
fn once<T>(t: T) -> OnceLock<T> {
    let o = OnceLock::new();
    o.set(t).ok();
    o
}
pub fn name(k: usize) -> &'static str {
    NAMES[k]
}
macro_rules! wrappers {
    ($d:ident, $c:ident; $($k:literal $n:literal => $e:expr),* $(,)?) => {
        pub const NAMES: &[&str] = &[$($n),*];
        pub fn wrap<'a, $c: HCtx<'a>>(k: usize, $d: D<'a, $c>) -> D<'a, $c> {
            match k {
                $($k => $e,)*
                _ => unreachable!(),
            }
        }
    };
}
wrappers! { d, C;
    0 "Some" => dd(Some(d)),
    1 "Arc" => dd(Arc::new(d)),
    2 "Rc" => dd(Force(Rc::new(d))),
    3 "RefCell" => dd(Force(RefCell::new(d))),
    4 "Mutex" => dn(Mutex::new(d)),
    5 "OnceLock" => dd(once(d)),
    6 "Box<dyn Ctor>" => dn(Force(Box::new(d) as Box<dyn Ctor<C, Val, Rec> + 'a>)),
    7 "Box<dyn Ctor+Send>" => dn(Force(Box::new(d) as Box<dyn Ctor<C, Val, Rec> + Send + 'a>)),
    8 "Box<dyn Ctor+Send+Sync>" => dn(Box::new(d) as Box<dyn Ctor<C, Val, Rec> + Send + Sync + 'a>),
    9 "Arc<dyn Ctor>" => dd(Force(Arc::new(d) as Arc<dyn Ctor<C, Val, Rec> + 'a>)),
    10 "Arc<dyn Ctor+Send>" => dd(Force(Arc::new(d) as Arc<dyn Ctor<C, Val, Rec> + Send + 'a>)),
    11 "Arc<dyn Ctor+Send+Sync>" => dd(Arc::new(d) as Arc<dyn Ctor<C, Val, Rec> + Send + Sync + 'a>),
    12 "Rc<dyn Ctor>" => dd(Force(Rc::new(d) as Rc<dyn Ctor<C, Val, Rec> + 'a>)),
    13 "Rc<dyn Ctor+Send>" => dd(Force(Rc::new(d) as Rc<dyn Ctor<C, Val, Rec> + Send + 'a>)),
    14 "ctor::Adapter" => dd(Share(ctor::Adapter::<C, _>::new(d))),
    15 "ctor::Adapter::from" => dd(Share(ctor::Adapter::<C, _>::from(d))),
    16 "ctor::Adapter::box" => dd(Force(ctor::Adapter::<C, _>::r#box(d))),
    17 "into_box" => dd(Share(CtorIntoHelper::<C>::into_box(d))),
    18 "into_box clone" => dd(Share(CtorIntoHelper::<C>::into_box(Arc::new(d)).clone())),
    19 "ctor::Adapter::rc" => dd(Force(ctor::Adapter::<C, _>::rc(d))),
    20 "into_rc" => dd(Force(CtorIntoHelper::<C>::into_rc(d))),
    21 "ctor::Adapter::arc" => dd(Force(ctor::Adapter::<C, _>::arc(d))),
    22 "ctor::Adapter::refcell" => dd(Force(ctor::Adapter::<C, _>::refcell(d))),
    23 "into_arc" => dd(Share(CtorIntoHelper::<C>::into_arc(d))),
    24 "ctor::Adapter::mutex" => dn(Share(ctor::Adapter::<C, _>::mutex(d))),
    25 "into_refcell" => dd(Force(CtorIntoHelper::<C>::into_refcell(d))),
    26 "ctor::Adapter::dyn_box" => dn(Force(ctor::Adapter::<C, Box<dyn Ctor<C, Val, Rec> + 'a>>::dyn_box(d))),
    27 "into_mutex" => dn(Share(CtorIntoHelper::<C>::into_mutex(d))),
    28 "into_dyn" => dn(Force(d.into_dyn())),
    29 "ctor::Adapter::dyn_box_send" => dn(Force(ctor::Adapter::<C, Box<dyn Ctor<C, Val, Rec> + Send + 'a>>::dyn_box_send(d))),
    30 "ctor::Adapter::dyn_box_sync" =>
        dn(Share(ctor::Adapter::<C, Box<dyn Ctor<C, Val, Rec> + Send + Sync + 'a>>::dyn_box_sync(d))),
    31 "ctor::Adapter::dyn_arc" => dd(Force(ctor::Adapter::<C, Arc<dyn Ctor<C, Val, Rec> + 'a>>::dyn_arc(d))),
    32 "ctor::Adapter::dyn_arc_send" => dd(Force(ctor::Adapter::<C, Arc<dyn Ctor<C, Val, Rec> + Send + 'a>>::dyn_arc_send(d))),
    33 "into_dyn_arc" => dd(Force(d.into_dyn_arc())),
    34 "ctor::Adapter::dyn_rc" => dd(Force(ctor::Adapter::<C, Rc<dyn Ctor<C, Val, Rec> + 'a>>::dyn_rc(d))),
    35 "ctor::Adapter::dyn_rc_send" => dd(Force(ctor::Adapter::<C, Rc<dyn Ctor<C, Val, Rec> + Send + 'a>>::dyn_rc_send(d))),
    36 "into_dyn_rc" => dd(Force(d.into_dyn_rc())),
    37 "Cell" => dd(OnUse(1, d)),
    38 "Cell(dyn ref)" => dd(OnUse(2, d)),
    39 "Rc clone" => {
        let r = Rc::new(d);
        dd(Force(r.clone()))
    },
    40 "ctor::Adapter::dyn_arc_sync" =>
        dd(Share(ctor::Adapter::<C, Arc<dyn Ctor<C, Val, Rec> + Send + Sync + 'a>>::dyn_arc_sync(d))),
    41 "as_dyn_ctor" => dd(OnUse(0, d)),
    42 "ctor::Adapter::cell" => dd(OnUse(3, d)),
    43 "into_cell" => dd(OnUse(4, d)),
    44 "Some(dyn ref)" => dd(OnUse(5, d)),
    45 "ctor::Adapter set_inner" => {
        let mut a = ctor::Adapter::<C, Option<D<'a, C>>>::default();
        a.set_inner(Some(d));
        dd(Force(a))
    },
    46 "ctor::DynRefAdapter" => dd(OnUse(6, d)),
    47 "ctor::Adapter with_inner" => dd(Force(ctor::Adapter::<C, _>::new(None).with_inner(Some(d)))),
    48 "ctor::Adapter::func" => dd(FunOnUse(d)),
    49 "regex::Adapter" => dd(Force(regex::Adapter::<C, _>::new(d))),
    50 "into_ctor" => dd(Force(RegexIntoHelper::<C>::into_ctor(d))),
    51 "regex::Adapter::from" => dd(Force(regex::Adapter::<C, _>::from(d))),
    52 "regex::Adapter::box" => dd(Force(regex::Adapter::<C, _>::r#box(d))),
    53 "into_box_regex" => dd(Force(RegexIntoHelper::<C>::into_box_regex(d))),
    54 "into_box_regex clone" => dd(Force(RegexIntoHelper::<C>::into_box_regex(Arc::new(d)).clone())),
    55 "regex::Adapter::rc" => dd(Force(regex::Adapter::<C, _>::rc(d))),
    56 "into_rc_regex" => dd(Force(RegexIntoHelper::<C>::into_rc_regex(d))),
    57 "regex::Adapter::arc" => dd(Force(regex::Adapter::<C, _>::arc(d))),
    58 "into_arc_regex" => dd(Force(RegexIntoHelper::<C>::into_arc_regex(d))),
    59 "regex::Adapter::refcell" => dd(Force(regex::Adapter::<C, _>::refcell(d))),
    60 "into_refcell_regex" => dd(Force(RegexIntoHelper::<C>::into_refcell_regex(d))),
    61 "regex::Adapter::mutex" => dn(Force(regex::Adapter::<C, _>::mutex(d))),
    62 "into_mutex_regex" => dn(Force(RegexIntoHelper::<C>::into_mutex_regex(d))),
    63 "regex::Adapter::dyn_box" => dn(Force(regex::Adapter::<C, Box<dyn Regex<C> + 'a>>::dyn_box(d))),
    64 "into_dyn_regex" => dn(Force(d.into_dyn_regex())),
    65 "regex::Adapter::dyn_box_send" => dn(Force(regex::Adapter::<C, Box<dyn Regex<C> + Send + 'a>>::dyn_box_send(d))),
    66 "regex::Adapter::dyn_box_sync" => dn(Force(regex::Adapter::<C, Box<dyn Regex<C> + Send + Sync + 'a>>::dyn_box_sync(d))),
    67 "regex::Adapter::dyn_arc" => dd(Force(regex::Adapter::<C, Arc<dyn Regex<C> + 'a>>::dyn_arc(d))),
    68 "into_dyn_arc_regex" => dd(Force(d.into_dyn_arc_regex())),
    69 "regex::Adapter::dyn_arc_send" => dd(Force(regex::Adapter::<C, Arc<dyn Regex<C> + Send + 'a>>::dyn_arc_send(d))),
    70 "regex::Adapter::dyn_arc_sync" => dd(Force(regex::Adapter::<C, Arc<dyn Regex<C> + Send + Sync + 'a>>::dyn_arc_sync(d))),
    71 "regex::Adapter::dyn_rc" => dd(Force(regex::Adapter::<C, Rc<dyn Regex<C> + 'a>>::dyn_rc(d))),
    72 "into_dyn_rc_regex" => dd(Force(d.into_dyn_rc_regex())),
    73 "regex::Adapter::dyn_rc_send" => dd(Force(regex::Adapter::<C, Rc<dyn Regex<C> + Send + 'a>>::dyn_rc_send(d))),
    74 "Box<dyn Regex>" => dn(Force(Box::new(d) as Box<dyn Regex<C> + 'a>)),
    75 "Box<dyn Regex+Send>" => dn(Force(Box::new(d) as Box<dyn Regex<C> + Send + 'a>)),
    76 "Box<dyn Regex+Send+Sync>" => dn(Force(Box::new(d) as Box<dyn Regex<C> + Send + Sync + 'a>)),
    77 "Rc<dyn Regex>" => dd(Force(Rc::new(d) as Rc<dyn Regex<C> + 'a>)),
    78 "Rc<dyn Regex+Send>" => dd(Force(Rc::new(d) as Rc<dyn Regex<C> + Send + 'a>)),
    79 "as_ctor" => dd(OnUse(7, d)),
    80 "as_dyn_regex" => dd(OnUse(8, d)),
    81 "regex::Adapter::cell" => dd(OnUse(9, d)),
    82 "into_cell_regex" => dd(OnUse(10, d)),
    83 "Cell(dyn regex ref)" => dd(OnUse(11, d)),
    84 "Cell(regex ref)" => dd(OnUse(12, d)),
    85 "closure" => dd(move |ctx: &mut C| d.try_parse(ctx)),
}
/// `Adapter` holds a PhantomData<C>; everything it really holds is Send + Sync
type Share<T> = Force<T>;
#[allow(non_snake_case)]
fn Share<T>(t: T) -> Share<T> {
    Force(t)
}

/// element test wrappers
pub const UNITS: usize = 12;
struct URef<'x, T>(&'x DU<T>);
impl<T> Clone for URef<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for URef<'_, T> {}
impl<T> Neu<T> for URef<'_, T> {
    fn is_match(&self, o: &T) -> bool {
        self.0.is_match(o)
    }
    fn min_length(&self) -> usize {
        self.0.min_length()
    }
}
struct UnitOnUse<T>(usize, DU<T>);
impl<T> Clone for UnitOnUse<T> {
    fn clone(&self) -> Self {
        UnitOnUse(self.0, self.1.clone())
    }
}
macro_rules! unit_on_use {
    ($s:expr, |$w:ident| $e:expr) => {{
        let d = &$s.1;
        macro_rules! go {
            ($x:expr) => {{
                let $w = &$x;
                $e
            }};
        }
        match $s.0 {
            0 => go!(Cell::new(URef(d))),
            1 => go!(Mutex::new(URef(d))),
            _ => go!(Arc::new(Mutex::new(URef(d)))),
        }
    }};
}
impl<T> Neu<T> for UnitOnUse<T> {
    fn is_match(&self, o: &T) -> bool {
        unit_on_use!(self, |w| Neu::<T>::is_match(w, o))
    }
    fn min_length(&self) -> usize {
        unit_on_use!(self, |w| Neu::<T>::min_length(w))
    }
}
pub fn wrap_unit<T: El>(k: usize, d: DU<T>) -> DU<T> {
    match k {
        0 => dun(Force(Box::new(d) as Box<dyn Neu<T>>)),
        1 => du(Force(RefCell::new(d))),
        2 => du(UnitOnUse(0, d)),
        3 => du(UnitOnUse(1, d)),
        4 => du(Arc::new(d)),
        5 => du(Force(Arc::new(d) as Arc<dyn Neu<T>>)),
        6 => du(Force(Rc::new(d))),
        7 => du(Force(Rc::new(d) as Rc<dyn Neu<T>>)),
        8 => du(UnitOnUse(2, d)),
        9 => du(Arc::new(Force(RefCell::new(d)))),
        10 => dun(Force(Box::new(Force(Rc::new(d))) as Box<dyn Neu<T>>)),
        _ => du(d.clone()),
    }
}

/// a wrapper with nothing inside; `d` is what could have been inside
pub fn absent<'a, C: HCtx<'a>>(k: usize, d: D<'a, C>) -> D<'a, C> {
    match k {
        0 => dd({
            let mut o = Some(d);
            o.take();
            o
        }),
        1 => dd(OnceLock::<D<'a, C>>::new()),
        2 => dd(Force(ctor::Adapter::<C, Option<D<'a, C>>>::default())),
        _ => {
            // a lock whose owner died
            let m = Force(Mutex::new(d));
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _g = m.0.lock();
                std::panic::resume_unwind(Box::new(()));
            }))
            .unwrap_err();
            dn(m)
        }
    }
}
pub const ABSENT: usize = 4;
