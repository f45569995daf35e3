//! Every way of extracting a value from one matched pattern, and of scanning with one's own functions.
use crate::build::HCtx;
use neure::ctor::{Ctor, Extract, Handler, extract};
use neure::ctx::{Context, MatchExt, MatchMulti};
use neure::err::Error;
use neure::map::mapper;
use neure::prelude::CtorOps;
use neure::span::Span;
use std::cell::RefCell;

#[derive(Debug, PartialEq, Clone)]
pub enum Got {
    Piece(Vec<u8>),
    Span(usize, usize),
    Pair(Box<(Got, Got)>),
    /// (the position the handler saw, the span it was given, what the context says is there)
    Handler(usize, (usize, usize), Vec<u8>),
    Unit,
}
#[derive(Debug)]
pub struct Seen {
    pub what: &'static str,
    /// rejected by the mapping or handler
    pub rejects: bool,
    pub got: Option<Got>,
    pub pos: usize,
}
pub type Leaf<'x, C> = &'x dyn Fn(&mut C) -> Result<Span, Error>;
fn s(x: Span) -> Got {
    Got::Span(x.beg, x.len)
}
pub fn common<'a, C>(mk: &dyn Fn() -> C, leaf: Leaf<'_, C>) -> Vec<Seen>
where
    C: HCtx<'a>,
    Extract<C::Orig<'a>>: Handler<C, Out = C::Orig<'a>>,
{
    let l = |c: &mut C| leaf(c);
    let p = |o: C::Orig<'a>| Got::Piece(C::bytes_of(o));
    let mut out = vec![];
    macro_rules! go {
        ($what:literal, $rej:expr, |$c:ident| $e:expr) => {{
            let mut $c = mk();
            let got = { $e };
            out.push(Seen { what: $what, rejects: $rej, got, pos: $c.offset() });
        }};
    }
    go!("ctor", false, |c| c.ctor::<_, C::Orig<'a>>(&l).ok().map(p));
    go!("ctor, mapped", false, |c| {
        let m = l.map(p);
        c.ctor(&m).ok()
    });
    go!("ctor_span", false, |c| c.ctor_span::<_, Span>(&l).ok().map(s));
    go!("extract unit", false, |c| c.ctor_handler::<_, _, ()>(&l, extract::<()>()).ok().map(|_| Got::Unit));
    go!("ctor_with", false, |c| c
        .ctor_with(&l, |c: &C, x: &Span| Ok(Got::Handler(c.offset(), (x.beg, x.len), C::bytes_of(c.orig_sub(x.beg, x.len)?))))
        .ok());
    go!("ctor_with", true, |c| c.ctor_with(&l, |_: &C, _: &Span| Err::<Got, Error>(Error::Uid(1))).ok());
    go!("map_with", false, |c| c
        .map_with(&l, |c: &C, x: &Span| Ok(Got::Handler(c.offset(), (x.beg, x.len), C::bytes_of(c.orig_sub(x.beg, x.len)?))))
        .ok());
    go!("map_with", true, |c| c.map_with(&l, |_: &C, _: &Span| Err::<Got, Error>(Error::Uid(1))).ok());
    go!("map_span", false, |c| c.map_span(&l, |x: Span| Ok(s(x))).ok());
    go!("map_span", true, |c| c.map_span(&l, |_: Span| Err::<Got, Error>(Error::Uid(1))).ok());
    go!("map", false, |c| c.map(&l, |o: C::Orig<'a>| Ok(p(o))).ok());
    go!("map, mapper", false, |c| c.map(&l, mapper(p)).ok());
    go!("map", true, |c| c.map(&l, |_: C::Orig<'a>| Err::<Got, Error>(Error::Uid(1))).ok());
    go!("map_handler", false, |c| c.map_handler(&l, extract::<Span>()).ok().map(s));
    let two = neure::ctor::Then::new(&l, &l);
    go!("pair of spans", false, |c| c.ctor_span::<_, (Span, Span)>(&two).ok().map(|(a, b)| Got::Pair(Box::new((s(a), s(b))))));
    go!("pair of pieces", false, |c| c.ctor::<_, (C::Orig<'a>, C::Orig<'a>)>(&two).ok().map(|(a, b)| Got::Pair(Box::new((p(a), p(b))))));
    out
}
#[cfg(feature = "alloc")]
pub fn owned<'a, C>(mk: &dyn Fn() -> C, leaf: Leaf<'_, C>, out: &mut Vec<Seen>)
where
    C: HCtx<'a> + Context<'a, Orig<'a> = &'a str>,
{
    let l = |c: &mut C| leaf(c);
    let mut c = mk();
    let r: Result<String, Error> = l.construct(&mut c, &mut extract::<String>());
    if r.is_err() {
        let at = mk().offset();
        c.set_offset(at);
    }
    out.push(Seen { what: "String", rejects: false, got: r.ok().map(|x| Got::Piece(x.into_bytes())), pos: c.offset() });
}
/// how a scan is run
#[derive(Clone, Copy, Debug)]
pub struct ScanCfg {
    /// the mapping rejects its k-th call if bit k is set
    pub map_rejects: u64,
    /// the function given the match drops the k-th one if bit k is set
    pub func_drops: u64,
    /// results taken
    pub take: usize,
    pub all: bool,
}
#[derive(Debug, PartialEq)]
pub struct Scanned {
    pub out: Vec<(usize, usize)>,
    /// spans given to the mapping
    pub given: Vec<(usize, usize)>,
    pub pos: usize,
}
pub fn scan<'a, C: HCtx<'a>>(c: &mut C, leaf: Leaf<'_, C>, k: ScanCfg) -> Scanned {
    let given = RefCell::new(vec![]);
    let l = |c: &mut C| leaf(c);
    let mut n = 0;
    let func = |c: &mut C, r: Result<Span, Error>| match r {
        Ok(x) if x.len > 0 => {
            n += 1;
            (k.func_drops >> (n - 1).min(63) & 1 == 0).then_some(x)
        }
        _ => {
            let left = c.len() - c.offset();
            let step = c.peek().ok().and_then(|mut i| i.nth(1)).map_or(left, |x| x.0);
            c.inc(step);
            None
        }
    };
    let map = |_: &C, x: &Span| {
        let mut g = given.borrow_mut();
        g.push((x.beg, x.len));
        if k.map_rejects >> (g.len() - 1).min(63) & 1 == 1 { Err(Error::Uid(3)) } else { Ok((x.beg, x.len)) }
    };
    let out: Vec<(usize, usize)> = if k.all {
        c.find_all_with(&l, func, map).take(k.take).collect()
    } else {
        c.find_with(&l, func, map).into_iter().collect()
    };
    Scanned { out, given: given.into_inner(), pos: c.offset() }
}
/// find and find_all with the pieces themselves
pub fn pieces<'a, C>(mk: &dyn Fn() -> C, leaf: Leaf<'_, C>) -> (Option<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>)
where
    C: HCtx<'a>,
    Extract<C::Orig<'a>>: Handler<C, Out = C::Orig<'a>>,
{
    let l = |c: &mut C| leaf(c);
    let one = mk().find::<C::Orig<'a>>(&l).map(C::bytes_of);
    let all = mk().find_all::<C::Orig<'a>>(&l).map(C::bytes_of).collect();
    let seq = mk().match_seq::<C::Orig<'a>>(&l).map(C::bytes_of).collect();
    (one, all, seq)
}
