//! Every pattern type of the library written down once, for what hangs on the type rather than on the composition:
//! the `!` operator, default values, access to the parts.
use neure::ctor::{self, DynamicCtorThenBuilderHelper, Array, PairArray, PairSlice, PairVector, Slice, Vector};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, MatchExt, MatchMulti};
use neure::err::Error;
use neure::neu::{self, Condition, NeuIntoRegexOps};
use neure::prelude::CtorOps;
use neure::regex::{self, DynamicRegexBuilderHelper, Regex};
use neure::span::Span;
use vcore::{Case, Res, Src, ensure_eq};

type Sp = Option<(usize, usize)>;
fn look<'a, C: Match<'a> + MatchExt<'a>>(mut c: C, p: &impl Regex<C>) -> (Sp, usize) {
    let r = c.try_mat(p);
    (r.ok().map(|s: Span| (s.beg, s.len)), c.offset())
}
fn input(s: &mut Src) -> (String, usize) {
    let n = s.range(0, 7);
    let t: String = (0..n).map(|_| *s.pick(&["a", "b", "1", ",", "-", "ab", "é", " ", "a,", "(", ")"])).collect();
    let cuts: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
    let at = if s.bool() { 0 } else { *s.pick(&cuts) };
    (t, at)
}
/// `!p` for every type of pattern, against the pattern itself
macro_rules! nots {
    ($out:ident, $mk:expr; $($p:expr),* $(,)?) => {$({
        let (m, _) = look($mk, &$p);
        let a = $mk.offset();
        let n = look($mk, &!$p);
        let mut c = $mk;
        let v: Option<Span> = c.ctor_span(&!$p).ok();
        $out.push((stringify!($p), m, n, v.map(|s| (s.beg, s.len)), c.offset(), a));
    })*};
}
macro_rules! all_patterns {
    ($f:ident, $out:ident, $mk:expr, $a:literal, $b:literal, $one:literal, $comma:literal, $dash:literal, $ba:expr, $bb:expr, $kind:ty) => {
        $f!($out, $mk;
            $ba.once(), $ba.opt(), $ba.many0(), $ba.many1(), $ba.times(1..3), $ba.between::<1, 2>(), $ba.count::<2>(),
            neu::NeuIntoRegexOps::then($ba, $bb),
            regex::literal($a), regex::start(), regex::end(), regex::empty(), regex::fail(), regex::consume(2), regex::consume_all(),
            regex::not(regex::literal($a)), regex::peek($ba.many0()),
            ctor::Adapter::new($ba.many1()), regex::Adapter::new($ba.many1()),
            $ba.many1().pat(), $ba.once().pat().opt(), $ba.once().pat().or($bb.once()), $ba.once().pat().longest($ba.many1().then($bb.once()).pat()),
            $ba.once().then($bb.many0()).pat(), CtorOps::then($ba.once(), $bb.once()), $ba.once().if_then(regex::literal($comma), $bb.once()),
            $ba.once().prefix(regex::literal($dash)), $ba.once().suffix(regex::literal($dash)),
            $ba.many0().enclose(regex::literal($dash), regex::literal($dash)), $ba.once().sep_once(regex::literal($comma), $bb.opt()),
            $ba.once().sep(regex::literal($comma)), $ba.once().sep(regex::literal($comma)).at_least(2).with_skip(false),
            $ba.once().sep2::<_, 1, 3>(regex::literal($comma)),
            $ba.once().sep_collect::<_, Span, Vec<Span>>(regex::literal($comma)), $ba.once().sep_collect::<_, Span, Vec<Span>>(regex::literal($comma)).at_least(2),
            CtorOps::repeat($ba.once(), 2..4), $ba.once().repeat2::<2, 3>(),
            $ba.once().collect::<Span, Vec<Span>>(), $ba.once().collect::<Span, Vec<Span>>().at_least(2),
            $ba.once().pat().map::<_, Span>(|s: Span| s.len),
            Array::new([$ba.once(), $ba.once()], true), PairArray::new([($ba.once(), 1u8), ($ba.once(), 2)], false),
            Slice::new(&[$ba.many1(), $ba.many1()], false), PairSlice::new(&[($ba.once(), 1u8)], true),
            Vector::new(vec![$bb.once()], true), PairVector::new(vec![($bb.once(), 1u8), ($bb.once(), 2)], false),
        )
    };
}
pub fn not_operator(c: &mut Case) -> Res {
    let (t, at) = input(&mut c.src);
    let text = c.src.bool();
    c.dump(|| format!("{t:?} @{at} text={text}"));
    let mut out: Vec<(&'static str, Sp, (Sp, usize), Sp, usize, usize)> = vec![];
    if text {
        let mk = || {
            let mut c = CharsCtx::new(&t);
            c.set_offset(at);
            c
        };
        all_patterns!(nots, out, mk(), "a", "b", "1", ",", "-", 'a', 'b', str);
    } else {
        let mk = || {
            let mut c = BytesCtx::new(t.as_bytes());
            c.set_offset(at);
            c
        };
        all_patterns!(nots, out, mk(), b"a", b"b", b"1", b",", b"-", b'a', b'b', [u8]);
    }
    let mut both = [false; 2];
    for (p, m, (n, e), v, e2, a) in out {
        let want = m.is_none().then_some((a, 0));
        ensure_eq!((n, e), (want, a), "!{p} matched on {t:?} from {at}");
        ensure_eq!((v, e2), (want, a), "!{p} constructed on {t:?} from {at}");
        c.comparisons += 2;
        both[m.is_some() as usize] = true;
    }
    c.nontrivial = both[0] && both[1] && t.len() > at;
    Ok(())
}

fn default_of<T: Default>(_: &T) -> T {
    T::default()
}
/// a default combinator against one put together from default parts, matched and constructed
macro_rules! defaults {
    ($out:ident, $mk:expr; $($p:expr => $o:ty),* $(,)?) => {$({
        let p = $p;
        let q = default_of(&p);
        let mut go = |q: bool, r: (Sp, usize), v: (Option<$o>, usize)| $out.push((stringify!($p), q, format!("{r:?} {v:?}")));
        let ctor = |v: Result<$o, neure::err::Error>, e: usize| (v.ok(), e);
        let mut c = $mk;
        let v = c.ctor_handler(&p, ctor::extract::<Span>());
        go(false, look($mk, &p), ctor(v, c.offset()));
        let mut c = $mk;
        let v = c.ctor_handler(&q, ctor::extract::<Span>());
        go(true, look($mk, &q), ctor(v, c.offset()));
    })*};
}
pub fn default_values(c: &mut Case) -> Res {
    let (t, at) = input(&mut c.src);
    c.dump(|| format!("{t:?} @{at}"));
    let mut out: Vec<(&'static str, bool, String)> = vec![];
    let mk = || {
        let mut c = CharsCtx::new(&t);
        c.set_offset(at);
        c
    };
    let w = neu::word::<char>;
    let d = neu::ascii_digit::<char>;
    let l = neu::alphabetic;
    defaults!(out, mk();
        w().once() => Span, d().opt() => Span, l().many0() => Span, w().many1() => Span, neu::always::<char>().once() => Span,
        neu::never::<char>().opt() => Span, neu::wild().once() => Span, neu::not(d()).many1() => Span, neu::or(d(), l()).many1() => Span,
        neu::and(w(), l()).many1() => Span, NeuIntoRegexOps::then(w(), d()) => Span,
        w().once().pat() => Span, w().once().pat().opt() => Option<Span>, d().once().pat().or(w().many1()) => Span,
        d().once().pat().longest(w().many1()) => Span, CtorOps::then(l().once(), d().once()) => (Span, Span),
        l().many1().if_then(d().once(), l().once()) => (Span, Option<Span>), l().once().prefix(d().once()) => Span,
        l().once().suffix(d().once()) => Span, l().once().enclose(w().once(), w().once()) => Span,
        l().once().sep_once(d().once(), l().once()) => (Span, Span), regex::start() => Span, regex::end() => Span, regex::empty() => Span,
        regex::consume_all() => Span, ctor::Adapter::new(w().many1()) => Span, regex::Adapter::new(w().many1()) => Span,
    );
    for x in out.chunks_exact(2) {
        ensure_eq!(x[1].2, x[0].2, "default value against {} on {t:?} from {at}", x[0].0);
        c.comparisons += 1;
    }
    c.nontrivial = t.len() > at;
    Ok(())
}
/// what a container or an adapter hands out is what is in use
pub fn parts(c: &mut Case) -> Res {
    let (t, at) = input(&mut c.src);
    let k = c.src.u(3);
    let longest = c.src.bool();
    c.dump(|| format!("{t:?} @{at} k={k} longest={longest}"));
    let mk = || {
        let mut c = CharsCtx::new(&t);
        c.set_offset(at);
        c
    };
    // three alternatives, the k-th exchanged
    let old = [('a'.many1(), 1u8), ('b'.many1(), 2), ('é'.many1(), 3)];
    let new = ('1'.many1(), 9u8);
    let mut made = old;
    made[k] = new;
    macro_rules! one {
        ($what:literal, $p:expr, $q:expr) => {{
            let (p, q) = ($p, $q);
            let (a, b) = (look(mk(), &p), look(mk(), &q));
            ensure_eq!(a, b, "{} against one made that way, on {t:?} from {at}, part {k}", $what);
            c.comparisons += 1;
        }};
    }
    fn keys<T>(x: [(T, u8); 3]) -> [T; 3] {
        x.map(|x| x.0)
    }
    let mut a = Array::new(keys(old), longest);
    (*a)[k] = new.0;
    one!("Array", a, Array::new(keys(made), longest));
    let a = Array::new(keys(made), longest);
    one!("element of Array", (*a)[k], new.0);
    let mut a = PairArray::new(old, longest);
    (*a)[k] = new;
    one!("PairArray", a, PairArray::new(made, longest));
    let mut a = Vector::new(keys(old).to_vec(), longest);
    (*a)[k] = new.0;
    one!("Vector", a, Vector::new(keys(made).to_vec(), longest));
    let mut a = Vector::new(keys(old)[..1].to_vec(), longest);
    a.extend(keys(old).into_iter().skip(1));
    one!("grown Vector", a, Vector::new(keys(old).to_vec(), longest));
    let mut a = PairVector::new(old.to_vec(), longest);
    (*a)[k] = new;
    a.swap(0, 2);
    let mut m = made.to_vec();
    m.swap(0, 2);
    one!("PairVector", a, PairVector::new(m, longest));
    let ks = keys(made);
    let a = Slice::new(&ks, longest);
    ensure_eq!(a.len(), 3, "elements of a Slice");
    one!("element of Slice", a[k], ks[k]);
    let a = PairSlice::new(&made, longest);
    one!("element of PairSlice", a[k].0, made[k].0);
    ensure_eq!(a[k].1, made[k].1, "value of an element of a PairSlice");
    // adapters
    let mut a = ctor::Adapter::<CharsCtx, _>::new(ks[0]);
    one!("inner of ctor::Adapter", *a.inner(), ks[0]);
    *a.inner_mut() = ks[k];
    one!("ctor::Adapter", a, ctor::Adapter::<CharsCtx, _>::new(ks[k]));
    one!("into_inner of ctor::Adapter", a.into_inner(), ks[k]);
    let mut a = regex::Adapter::<CharsCtx, _>::new(ks[0]);
    one!("inner of regex::Adapter", *a.inner(), ks[0]);
    *a.inner_mut() = ks[k];
    one!("regex::Adapter", a, regex::Adapter::<CharsCtx, _>::new(ks[k]));
    one!("into_inner of regex::Adapter", a.into_inner(), ks[k]);
    c.nontrivial = t.len() > at;
    Ok(())
}

/// an error type of the user's own
struct Mine(usize);
impl From<Mine> for Error {
    fn from(m: Mine) -> Error {
        Error::Uid(m.0)
    }
}
/// refuses the `at`-th piece handed to it
struct Refuse {
    seen: usize,
    at: usize,
    uid: usize,
}
impl<C> ctor::Handler<C> for Refuse {
    type Out = (usize, usize);
    type Error = Mine;
    fn invoke(&mut self, _: &C, s: &Span) -> Result<(usize, usize), Mine> {
        self.seen += 1;
        if self.seen - 1 == self.at { Err(Mine(self.uid)) } else { Ok((s.beg, s.len)) }
    }
}
/// C27: every way in, with any number in the error
pub fn user_errors(c: &mut Case) -> Res {
    let n = c.src.range(1, 12);
    let t: String = (0..n).map(|_| *c.src.pick(&["a", "b", "é", "1"])).collect();
    let uid = match c.src.u(3) {
        0 => c.src.u(4),
        1 => usize::MAX - c.src.u(3),
        _ => c.src.full64() as usize,
    };
    let at = c.src.u(n + 2);
    c.dump(|| format!("{t:?} uid={uid} piece {at}"));
    let e = Error::Uid(uid);
    macro_rules! same {
        ($what:literal, $got:expr, $want:expr) => {{
            let (got, want) = ($got, $want);
            ensure_eq!(got, want, "{} on {t:?}", $what);
            c.comparisons += 1;
        }};
    }
    let x = || CharsCtx::new(&t);
    let any = neu::wild().once();
    let all = regex::consume_all();
    // refused by the function given along
    same!("ctor_with", x().ctor_with(&any, |_: &CharsCtx<'_>, _: &Span| Err::<(), Error>(Error::Uid(uid))), Err(Error::Uid(uid)));
    same!("map_with", x().map_with(&all, |_: &CharsCtx<'_>, _: &Span| Err::<(), Error>(Error::Uid(uid))), Err(Error::Uid(uid)));
    same!("map_span", x().map_span(&all, |_: Span| Err::<(), Error>(Error::Uid(uid))), Err(Error::Uid(uid)));
    same!("map", x().map(&all, |_: &str| Err::<(), Error>(Error::Uid(uid))), Err(Error::Uid(uid)));
    same!("ctor of a conversion", x().ctor::<_, ()>(&any.try_map(|_: &str| Err::<(), Error>(Error::Uid(uid)))), Err(Error::Uid(uid)));
    let no = |_: &mut CharsCtx<'_>| -> Result<Span, Error> { Err(Error::Uid(uid)) };
    let no = regex::Adapter::new(no);
    same!("try_mat", x().try_mat(&no), Err(Error::Uid(uid)));
    same!("map of a failing function", x().map(&no, |s: &str| Ok(s.len())), Err(Error::Uid(uid)));
    same!("function that constructs only", x().ctor_handler::<_, _, ()>(&ctor::Adapter::func(|_: &mut CharsCtx<'_>, _: &mut ctor::Extract<Span>| Err(Error::Uid(uid))), ctor::extract::<Span>()), Err(Error::Uid(uid)));
    let mut k = 0;
    let r = x().find_with::<Span, _, _>(no, |x: &mut CharsCtx<'_>, r: Result<Span, Error>| {
        k += (r == Err(Error::Uid(uid))) as usize;
        // on to the end
        x.set_offset(Context::len(x));
        None
    }, ctor::extract::<Span>());
    same!("what find_with is told", (r, k), (None, 1));
    // a piece of a sequence refused: the error is the handler's, or there are too few pieces
    let p = any.then(any).then(any.then(any));
    let pieces = t.chars().count();
    let want = if at < pieces.min(4) { Some(Error::Uid(uid)) } else { None };
    let mut ctx = x();
    let r = ctx.ctor_handler(&p, Refuse { seen: 0, at, uid });
    match (&r, want) {
        (Err(g), Some(w)) => same!("piece of a sequence", g, &w),
        (Ok(_), w) => same!("sequence accepted", (pieces >= 4, w.is_none()), (true, true)),
        (Err(g), None) => same!("sequence refused without the user", (pieces < 4, *g != e), (true, true)),
    }
    same!("position", r.is_ok() || ctx.offset() == 0, true);
    // map_handler with an error type of the user's own
    same!("map_handler", x().map_handler(&all, Refuse { seen: 0, at: 0, uid }).err(), Some(Error::Uid(uid)));
    // a condition, a branch test, a builder
    let cond = any.set_cond(|_: &CharsCtx<'_>, _: &(usize, char)| Err(Error::Uid(uid)));
    same!("condition", x().try_mat(&cond), Err(Error::Uid(uid)));
    let br = any.pat().if_else(|_: &CharsCtx<'_>| Err(Error::Uid(uid)), any);
    same!("branch test", x().try_mat(&br), Err(Error::Uid(uid)));
    same!("branch test, constructed", x().ctor_span::<_, Span>(&br), Err(Error::Uid(uid)));
    let dy = any.into_regex_builder(|_: &mut CharsCtx<'_>, _: &Span| Err::<regex::ConsumeAll, Error>(Error::Uid(uid)));
    same!("builder", x().try_mat(&dy), Err(Error::Uid(uid)));
    let dy = any.into_ctor_then_builder(|_: &mut CharsCtx<'_>, _: &&str| Err::<regex::ConsumeAll, Error>(Error::Uid(uid)));
    same!("constructing builder", x().ctor::<_, (&str, &str)>(&dy).err(), Some(Error::Uid(uid)));
    // a rule to skip
    let mut s = x().skip_before(regex::Adapter::new(|_: &mut CharsCtx<'_>| -> Result<Span, Error> { Err(Error::Uid(uid)) }));
    same!("skip rule", s.try_mat(&regex::consume(1)), Err(Error::Uid(uid)));
    c.nontrivial = true;
    Ok(())
}
