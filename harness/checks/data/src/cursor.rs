//! C19: histories of context operations against a counter over the input.
use neure::ctx::{BytesCtx, CharsCtx, Context, CtxGuard, Match, PolicyCtx, RegexCtx};
use neure::err::Error;
use neure::iter::IndexBySpan;
use neure::regex::Regex;
use neure::span::Span;
use vcore::{Case, Check, Res, Src, ensure, ensure_eq, sub};

const POOL: [&str; 14] = ["a", "b", " ", "\n", "0", "é", "ß", "中", "😀", "\u{0}", "\u{7f}", "\u{80}", "\u{10ffff}", "e\u{301}"];

pub fn text(s: &mut Src, n: usize) -> String {
    let k = s.range(0, n);
    (0..k).map(|_| *s.pick(&POOL)).collect()
}
pub fn bytes(s: &mut Src, n: usize) -> Vec<u8> {
    let k = s.range(0, n);
    (0..k).map(|_| s.below(256) as u8).collect()
}
/// positions of interest: inside, just outside and far outside
fn pos(s: &mut Src, n: usize) -> usize {
    match s.weighted(&[12, 3, 1]) {
        0 => s.range(0, n),
        1 => n + s.range(0, 3),
        _ => *s.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32]),
    }
}
pub trait Dat: ToOwned + 'static {
    fn raw(&self) -> &[u8];
    fn part(&self, o: usize, e: usize) -> Option<&Self>;
    fn items(&self) -> Vec<(usize, u32)>;
    fn tail(&self, o: usize) -> Option<&Self> {
        self.part(o, self.raw().len())
    }
}
impl Dat for str {
    fn raw(&self) -> &[u8] {
        self.as_bytes()
    }
    fn part(&self, o: usize, e: usize) -> Option<&str> {
        if o <= e && e <= self.len() && self.is_char_boundary(o) && self.is_char_boundary(e) { Some(&self[o..e]) } else { None }
    }
    fn items(&self) -> Vec<(usize, u32)> {
        let mut o = 0;
        let mut v = vec![];
        for c in self.chars() {
            v.push((o, c as u32));
            o += c.len_utf8();
        }
        v
    }
}
impl Dat for [u8] {
    fn raw(&self) -> &[u8] {
        self
    }
    fn part(&self, o: usize, e: usize) -> Option<&[u8]> {
        if o <= e && e <= self.len() { Some(&self[o..e]) } else { None }
    }
    fn items(&self) -> Vec<(usize, u32)> {
        self.iter().enumerate().map(|(i, b)| (i, *b as u32)).collect()
    }
}
pub trait It {
    fn code(self) -> u32;
}
impl It for char {
    fn code(self) -> u32 {
        self as u32
    }
}
impl It for u8 {
    fn code(self) -> u32 {
        self as u32
    }
}
/// everything a context can be asked, at its position and at `o`, `l`
fn observe<'a, C, D: Dat + ?Sized>(c: &C, dat: &'a D, at: usize, o: usize, l: usize) -> Res
where
    C: Context<'a, Orig<'a> = &'a D> + Clone,
    C::Item: It,
{
    let n = dat.raw().len();
    ensure_eq!(c.offset(), at, "position");
    ensure_eq!(Context::len(c), n, "length");
    ensure_eq!(Context::is_empty(c), n == 0, "emptiness");
    let raw = |r: Result<&'a D, Error>| r.ok().map(|d| d.raw().to_vec());
    let part = |o: usize, e: Option<usize>| e.and_then(|e| dat.part(o, e)).map(|d| d.raw().to_vec());
    ensure_eq!(raw(c.orig()), part(at, Some(n)), "remaining input at {at}");
    ensure_eq!(raw(c.orig_at(o)), part(o, Some(n)), "remaining input from {o}");
    ensure_eq!(raw(c.orig_sub(o, l)), part(o, o.checked_add(l)), "input part {o}+{l}");
    ensure_eq!(raw(Span::new(o, l).orig(c)), part(o, o.checked_add(l)), "input at span {o}+{l}");
    let items = |r: Result<C::Iter<'a>, Error>| r.ok().map(|i| i.map(|(o, x)| (o, x.code())).collect::<Vec<_>>());
    ensure_eq!(items(c.peek()), dat.tail(at).map(|d| d.items()), "elements at {at}");
    ensure_eq!(items(c.peek_at(o)), dat.tail(o).map(|d| d.items()), "elements from {o}");
    if let Ok(mut it) = c.peek_at(o) {
        let mut left = dat.tail(o).unwrap().items().len();
        loop {
            let (lo, hi) = it.size_hint();
            ensure!(lo <= left && hi.is_none_or(|h| h >= left), "size hint {lo}..{hi:?} with {left} elements left");
            if std::mem::size_of::<C::Item>() == 1 {
                ensure!(lo == left && hi == Some(left), "inexact byte count {lo}..{hi:?}, {left} left");
            }
            if it.next().is_none() {
                break;
            }
            left -= 1;
        }
        ensure!(left == 0 && it.next().is_none(), "elements after the end");
    }
    match (c.clone_at(o), dat.tail(o)) {
        (Ok(k), Some(d)) => {
            ensure_eq!(k.offset(), 0, "position of a context at {o}");
            ensure_eq!(raw(k.orig()), Some(d.raw().to_vec()), "input of a context at {o}");
        }
        (a, b) => ensure!(a.is_err() && b.is_none(), "context at {o}: {} / {}", a.is_ok(), b.is_some()),
    }
    ensure_eq!(c.offset(), at, "position after queries");
    Ok(())
}
fn is_text<D: Dat + ?Sized>(_: &D) -> bool {
    std::any::TypeId::of::<D>() == std::any::TypeId::of::<str>()
}
struct Live<'a, D: ?Sized, C> {
    ctx: C,
    dat: &'a D,
    at: usize,
}
fn history<'a, D: Dat + ?Sized, C>(
    c: &mut Case,
    dats: &'a [Box<D>],
    mk: impl Fn(&'a D) -> C,
    reset: impl Fn(&mut C) -> bool,
    reset_with: impl Fn(&mut C, &'a D),
    with: impl Fn(C, &'a D) -> C,
) -> Res
where
    C: Context<'a, Orig<'a> = &'a D> + Clone + Match<'a>,
    C::Item: It,
{
    let n = c.src.range(1, 24);
    let mut log = String::new();
    let mut live = vec![Live { ctx: mk(&*dats[0]), dat: &*dats[0], at: 0 }];
    let verbose = c.verbose;
    let mut moved = 0;
    let r = (|| -> Res {
        for _ in 0..n {
            let i = c.src.u(live.len());
            let len = live[i].dat.raw().len();
            let (o, l) = (pos(&mut c.src, len), pos(&mut c.src, len));
            let op = c.src.u(10);
            if verbose {
                log += &format!(" {i}:{op}({o},{l})");
            }
            let x = &mut live[i];
            match op {
                0 | 1 => {
                    x.ctx.set_offset(o);
                    x.at = o;
                    moved += 1;
                }
                2 => {
                    if let Some(t) = x.at.checked_add(o) {
                        x.ctx.inc(o);
                        x.at = t;
                        moved += 1;
                    }
                }
                3 => {
                    let d = o.min(x.at);
                    x.ctx.dec(d);
                    x.at -= d;
                    moved += 1;
                }
                4 => {
                    if reset(&mut x.ctx) {
                        x.at = 0;
                    }
                }
                5 => {
                    let d = &*dats[c.src.u(dats.len())];
                    reset_with(&mut x.ctx, d);
                    x.dat = d;
                    x.at = 0;
                }
                6 => {
                    let d = &*dats[c.src.u(dats.len())];
                    x.ctx = with(x.ctx.clone(), d);
                    x.dat = d;
                    x.at = x.ctx.offset();
                    // keeps or resets the position, nothing else
                    let at = x.at;
                    observe(&x.ctx, d, at, 0, 0)?;
                }
                7 => {
                    if live.len() < 4 {
                        let x = &live[i];
                        let y = Live { ctx: x.ctx.clone(), dat: x.dat, at: x.at };
                        live.push(y);
                    }
                }
                8 => {
                    if let (Ok(k), true) = (x.ctx.clone_at(o), x.dat.tail(o).is_some()) {
                        let d = x.dat.tail(o).unwrap();
                        if live.len() < 4 {
                            live.push(Live { ctx: k, dat: d, at: 0 });
                        }
                    }
                }
                _ => {
                    // a guard: puts the position back unless nothing failed
                    let (at, dat) = (x.at, x.dat);
                    let steps = c.src.u(4);
                    let mut want = at;
                    let mut fail = false;
                    {
                        let mut g = CtxGuard::new(&mut x.ctx);
                        ensure!(g.beg() == at && g.end() == at && g.len() == len && g.is_empty() == (len == 0), "fresh guard");
                        for _ in 0..steps {
                            match c.src.u(4) {
                                0 => {
                                    let k = c.src.u(3);
                                    if want.checked_add(k).is_some() {
                                        let s = g.inc(k);
                                        ensure_eq!((s.beg, s.len), (at, k), "span of a guard");
                                        want += k;
                                    }
                                }
                                1 => {
                                    g.reset();
                                    want = at;
                                }
                                2 => {
                                    let ok = c.src.bool();
                                    let r = g.process_ret(if ok { Ok(1) } else { Err(Error::Uid(9)) });
                                    ensure!(r.is_ok() == ok, "guard changed a result");
                                    fail |= !ok;
                                }
                                _ => {
                                    let ok = c.src.bool();
                                    let k = c.src.u(3);
                                    let r = g.try_mat(&Mover(k, ok));
                                    ensure!(r.is_ok() == (ok && want.checked_add(k).is_some()), "match through a guard");
                                    if r.is_ok() { want += k } else { fail = true }
                                }
                            }
                            let e = g.end();
                            ensure_eq!(e, want, "position seen by a guard");
                            ensure_eq!(g.beg(), at, "start seen by a guard");
                            ensure!(g.peek().is_ok() == dat.tail(want).is_some(), "peek through a guard at {want}");
                            ensure!(g.peek_at(o).is_ok() == dat.tail(o).is_some(), "peek through a guard from {o}");
                        }
                    }
                    x.at = if fail { at } else { want };
                    moved += steps;
                }
            }
            for x in &live {
                observe(&x.ctx, x.dat, x.at, o, l)?;
            }
        }
        Ok(())
    })();
    c.dump(|| {
        format!("{} inputs={:?} ops(set set inc dec reset reset_with with clone clone_at guard):{log}", if is_text(&*dats[0]) { "text" } else { "bytes" },
            dats.iter().map(|d| String::from_utf8_lossy(d.raw()).into_owned()).collect::<Vec<_>>())
    });
    c.nontrivial = moved > 1;
    c.comparisons += n as u64 * 10;
    r
}
/// moves the position and succeeds or fails
struct Mover(usize, bool);
impl<'a, C: Context<'a>> Regex<C> for Mover {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        let b = ctx.offset();
        if b.checked_add(self.0).is_none() {
            return Err(Error::Uid(8));
        }
        ctx.inc(self.0);
        if self.1 { Ok(Span::new(b, self.0)) } else { Err(Error::Uid(7)) }
    }
}
#[derive(Clone, Copy)]
struct Nothing;
impl<'a, C: Context<'a>> Regex<C> for Nothing {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        Ok(Span::new(ctx.offset(), 0))
    }
}
fn dats_text(c: &mut Case) -> Vec<Box<str>> {
    (0..3).map(|_| text(&mut c.src, 8).into_boxed_str()).collect()
}
fn dats_bytes(c: &mut Case) -> Vec<Box<[u8]>> {
    (0..3).map(|_| bytes(&mut c.src, 8).into_boxed_slice()).collect()
}
fn extra<'a, D: Dat + ?Sized>(c: &mut Case, dat: &'a D) -> Res
where
    RegexCtx<'a, D>: Context<'a, Orig<'a> = &'a D> + IndexBySpan<Output = D>,
    <RegexCtx<'a, D> as Context<'a>>::Item: It,
{
    let n = dat.raw().len();
    let (o, l) = (pos(&mut c.src, n), pos(&mut c.src, n));
    let x = RegexCtx::new(dat).with_offset(o);
    observe(&x, dat, o, o, l)?;
    ensure_eq!(x.dat().raw(), dat.raw(), "input");
    ensure_eq!(RegexCtx::offset(&x), o, "position");
    let part = o.checked_add(l).and_then(|e| dat.part(o, e)).map(|d| d.raw());
    ensure_eq!(x.get_by_span(&Span::new(o, l)).map(|d| d.raw()), part, "input at span {o}+{l}");
    let mut p: PolicyCtx<_, Nothing> = x.skip_before(Nothing);
    observe(&p, dat, o, o, l)?;
    ensure_eq!(p.get_by_span(&Span::new(o, l)).map(|d| d.raw()), part, "input at span {o}+{l} of a policy context");
    ensure_eq!(p.inner().offset(), o, "position of the inner context");
    Context::set_offset(p.inner_mut(), l);
    observe(&p, dat, l, o, l)?;
    let q = p.with_regex(0usize);
    ensure_eq!(q.inner().offset(), l, "position after changing the rule");
    let p = p.with_inner(x);
    observe(&p, dat, o, o, l)?;
    ensure_eq!(RegexCtx::with(dat, |k| k.offset()), 0, "fresh context");
    ensure_eq!(x.span_storer(o % 7).len(), o % 7, "groups of a store");
    Ok(())
}
/// a copy of an iterator over bytes goes on from where it was made
fn copied_iter(c: &mut Case, d: &[u8]) -> Res {
    let k = c.src.u(d.len() + 1);
    let mut it = BytesCtx::new(d).peek_at(0).map_err(|e| format!("{e:?}"))?;
    let want: Vec<(usize, u8)> = d.iter().copied().enumerate().collect();
    ensure_eq!(it.by_ref().take(k).collect::<Vec<_>>(), want[..k], "first {k} bytes");
    #[allow(clippy::clone_on_copy)]
    let (x, y) = (it, it.clone());
    for it in [x, y, it] {
        ensure_eq!(it.len(), d.len() - k, "bytes left");
        ensure_eq!(it.collect::<Vec<_>>(), want[k..], "the others");
    }
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C19",
        rule: "a case (one history of up to 24 operations over up to 4 live contexts, all queries checked after every operation) is non-trivial when the position was moved at least twice".into(),
        assumptions: vec!["positions are not moved below zero or beyond the range of usize".into()],
        subs: vec![
            sub("text", 400_000, 20, |c: &mut Case| {
                let d = dats_text(c);
                c.label("text");
                extra(c, &*d[0])?;
                history(c, &d, |d| CharsCtx::new(d), |x| { x.reset(); true }, |x, d| { x.reset_with(d); }, |x, d| x.with_dat(d))
            }),
            sub("bytes", 400_000, 20, |c: &mut Case| {
                let d = dats_bytes(c);
                copied_iter(c, &d[0])?;
                c.label("bytes");
                extra(c, &*d[0])?;
                history(c, &d, |d| BytesCtx::new(d), |x| { x.reset(); true }, |x, d| { x.reset_with(d); }, |x, d| x.with_dat(d))
            }),
            sub("policy_text", 200_000, 20, |c: &mut Case| {
                let d = dats_text(c);
                c.label("policy");
                history(c, &d, |d| CharsCtx::new(d).skip_before(Nothing), |_| false, |x, d| { x.reset_with(CharsCtx::new(d)); }, |x, d| x.with_inner(CharsCtx::new(d)))
            }),
            sub("policy_bytes", 200_000, 20, |c: &mut Case| {
                let d = dats_bytes(c);
                c.label("policy");
                history(c, &d, |d| BytesCtx::new(d).skip_before(Nothing), |_| false, |x, d| { x.set_inner(BytesCtx::new(d)); }, |x, d| x.with_inner(BytesCtx::new(d)))
            }),
        ],
    }
}
