//! What is run in every build configuration; the text says everything a caller observes.
use neure::ctor::{CtorOps, Extract};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, MatchExt, MatchMulti, PolicyCtx};
use neure::err::Error;
use neure::map::{self, FallibleMap, WithDefaultHelper};
use neure::neu::{self, Condition, Neu, NeuIntoRegexOps, NeuOp};
use neure::regex;
use neure::span::{ArrayStorer, Span};
use std::fmt::{Debug, Write};
use vcore::{Case, Src, ticks_reset};
use vpat::ops::*;
use vpat::setup::*;

/// what a configuration must offer to take part
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Needs {
    Nothing,
    Alloc,
    Std,
}
pub const HAVE: Needs = if cfg!(feature = "std") {
    Needs::Std
} else if cfg!(feature = "alloc") {
    Needs::Alloc
} else {
    Needs::Nothing
};
thread_local! {
    /// (for the case that ends in a panic)
    pub static NEEDS: std::cell::Cell<Needs> = const { std::cell::Cell::new(Needs::Nothing) };
}
pub struct Out {
    pub needs: Needs,
    pub text: String,
    pub gain: bool,
}
pub type Scene = fn(&mut Case) -> Out;
pub const SCENES: [(&str, Scene); 5] =
    [("patterns", patterns), ("convert", convert), ("store", store), ("cursor", cursor), ("typed", typed)];

/// generated patterns, every operation, errors included
fn patterns(c: &mut Case) -> Out {
    let rec = c.src.chance(1, 8);
    let dyn_ctor = !rec && c.src.chance(1, 4);
    let st = setup(c, &Opt { kinds: ALL, inputs: 2, skip: 2, dyn_ctor, map_fail: true, rec, ..BASE });
    let n = c.src.range(2, 6);
    let ops: Vec<(Op, usize)> = (0..n).map(|_| (gen_op(&mut c.src, st.p.ctor_only()), c.src.u(2))).collect();
    let with_errors = c.src.bool();
    let needs = if rec {
        Needs::Std
    } else if st.p.needs_alloc() {
        Needs::Alloc
    } else {
        Needs::Nothing
    };
    NEEDS.set(needs);
    c.dump(|| format!("{} | {ops:?}", describe(&st)));
    let mut out = Out { needs, text: String::new(), gain: false };
    if needs > HAVE {
        return out;
    }
    let cost: Vec<Option<u64>> = (0..2)
        .map(|i| {
            let w = want(&st, i, TEXT)?.steps;
            Some(w.max(if st.p.ctor_only() { 0 } else { scan_steps(&st, i)? }))
        })
        .collect();
    let t = &mut out.text;
    let gain = &mut out.gain;
    with_st(&st, |ex| {
        for (op, i) in &ops {
            let Some(mut k) = cost[*i] else { continue };
            let mut h = TEXT;
            if let Op::Ctor(x) | Op::Construct(x) = op {
                let Some(w) = want(&st, *i, *x) else { continue };
                k = k.max(w.steps);
                h = *x;
            }
            ticks_reset(64 * 6 * k + 100_000);
            let r = run(ex, *op, *i, at(&st, *i));
            *gain |= match &r {
                vpat::ops::Out::Span(s, _) => s.is_some_and(|s| s.1 > 0),
                vpat::ops::Out::Val(v, ..) => v.is_some(),
                vpat::ops::Out::Spans(v, _) => !v.is_empty(),
                _ => false,
            };
            let _ = write!(t, "{r:?};");
            if with_errors {
                ticks_reset(64 * 6 * k + 100_000);
                let _ = write!(t, "{:?};", ex.errors(*i, at(&st, *i), h));
            }
        }
    });
    out
}
const POOL: [&str; 16] =
    ["a", "b", " ", "\n", "0", "7", "-", ".", "é", "中", "😀", "\u{0}", "\u{7f}", "\u{80}", "\u{10ffff}", "e"];
fn text(s: &mut Src, n: usize) -> String {
    (0..s.range(0, n)).map(|_| *s.pick(&POOL)).collect()
}
fn bytes(s: &mut Src, n: usize) -> Vec<u8> {
    let ascii = s.bool();
    (0..s.range(0, n)).map(|_| s.below(if ascii { 128 } else { 256 }) as u8).collect()
}
fn say<T: Debug>(t: &mut String, what: &str, x: T) {
    let _ = write!(t, "{what}={x:?};");
}
/// conversions on a consumed piece
fn convert(c: &mut Case) -> Out {
    let s = &mut c.src;
    let mut t = String::new();
    let num = match s.u(4) {
        0 => s.full64().to_string(),
        1 => format!("-{}", s.below(1 << 20)),
        2 => format!("{}.{}e{}", s.below(100), s.below(1000), s.below(50)),
        _ => text(s, 5),
    };
    let b = bytes(s, 18);
    let radix = *s.pick(&[2u32, 8, 10, 16, 36]);
    let k = s.range(0, 17);
    c.dump(|| format!("{num:?} radix {radix} {b:?} piece {k}"));
    fn go<'a, O: Debug, M: FallibleMap<&'a str, O> + Clone>(t: &mut String, what: &str, d: &'a str, m: M) {
        let n = d.chars().count();
        let mut x = CharsCtx::new(d);
        say(t, what, m.try_map(d));
        say(t, what, (x.map(&regex::consume(n), m.clone()), x.offset()));
        let mut x = CharsCtx::new(d);
        say(t, what, (x.ctor(&regex::consume(n).try_map(m)), x.offset()));
    }
    go(&mut t, "i8", &num, map::from_str::<i8>());
    go(&mut t, "u64", &num, map::from_str::<u64>());
    go(&mut t, "f64", &num, map::from_str::<f64>());
    go(&mut t, "char", &num, map::from_str::<char>());
    go(&mut t, "bool", &num, map::from_str::<bool>());
    go(&mut t, "radix i16", &num, map::from_str_radix::<i16>(radix));
    go(&mut t, "radix u128", &num, map::from_str_radix::<u64>(radix));
    go(&mut t, "default", &num, map::from_str::<u32>().with_default(|| 77));
    fn by<'a, O: Debug, M: FallibleMap<&'a [u8], O> + Clone>(t: &mut String, what: &str, d: &'a [u8], k: usize, m: M) {
        let mut x = BytesCtx::new(d);
        say(t, what, m.try_map(d));
        say(t, what, (x.map(&regex::consume(k), m.clone()), x.offset()));
        let mut x = BytesCtx::new(d);
        say(t, what, (x.ctor(&regex::consume(k).try_map(m)), x.offset()));
    }
    by(&mut t, "utf8", &b, k, map::from_utf8::<&str>());
    by(&mut t, "le u8", &b, k, map::from_le_bytes::<u8>());
    by(&mut t, "le i16", &b, k, map::from_le_bytes::<i16>());
    by(&mut t, "be u32", &b, k, map::from_be_bytes::<u32>());
    by(&mut t, "ne i64", &b, k, map::from_ne_bytes::<i64>());
    by(&mut t, "be u128", &b, k, map::from_be_bytes::<u128>());
    let mut needs = Needs::Nothing;
    if k % 4 == 3 {
        needs = Needs::Alloc;
        NEEDS.set(needs);
        #[cfg(feature = "alloc")]
        {
            by(&mut t, "String", &b, k, map::from_utf8::<String>());
            by(&mut t, "Cow", &b, k, map::from_utf8_lossy::<std::borrow::Cow<'_, str>>());
        }
    }
    Out { needs, gain: t.contains("Ok("), text: t }
}
/// captures in an array of groups
fn store(c: &mut Case) -> Out {
    let s = &mut c.src;
    let d = text(s, 10);
    let n = s.range(2, 12);
    let mut t = String::new();
    let mut x = CharsCtx::new(d.as_str());
    let mut a = ArrayStorer::<3, 2>::new();
    let mut hist = vec![];
    for _ in 0..n {
        let (id, k) = (s.u(4), s.u(8));
        hist.push((id, k));
        match k {
            0..=3 if id < 3 => say(&mut t, "cap", a.try_cap(id, k % 2, &mut x, &neu::alphabetic().many0())),
            4 if id < 3 => say(&mut t, "cap", a.try_cap(id, k % 2, &mut x, &regex::consume(1))),
            5 if id < 3 => {
                a.clr_span(id);
            }
            6 => {
                x.set_offset(0);
            }
            7 if id == 0 => {
                a.reset();
            }
            _ => {
                if id < 3 {
                    a.set_span(id, k % 2, Span::new(k % 3, id));
                }
            }
        }
        for g in 0..4 {
            say(&mut t, "has", a.contain(g));
            say(&mut t, "spans", a.spans(g).map(|v| v.to_vec()));
            say(&mut t, "iter", a.spans_iter(g).map(|v| v.collect::<Vec<_>>()));
            for i in 0..3 {
                say(&mut t, "slice", a.slice(d.as_str(), g, i));
            }
        }
        say(&mut t, "at", x.offset());
    }
    c.dump(|| format!("{d:?} {hist:?}"));
    Out { needs: Needs::Nothing, gain: t.contains("Ok("), text: t }
}
fn look<'a, C: Context<'a>>(t: &mut String, c: &C, o: usize, l: usize)
where
    C::Item: Debug,
    C::Orig<'a>: Debug,
{
    say(t, "at", (c.offset(), c.len(), c.is_empty()));
    say(t, "orig", (c.orig(), c.orig_at(o), c.orig_sub(o, l)));
    say(t, "peek", c.peek().map(|i| i.collect::<Vec<_>>()));
    say(t, "peek_at", c.peek_at(o).map(|i| i.collect::<Vec<_>>()));
    say(t, "clone", c.clone_at(o).map(|k| k.offset()));
}
/// moves and queries of contexts
fn cursor(c: &mut Case) -> Out {
    let s = &mut c.src;
    let (d, b) = (text(s, 8), bytes(s, 8));
    let mut t = String::new();
    let mut x = CharsCtx::new(d.as_str());
    let mut y = BytesCtx::new(b.as_slice());
    let mut z: PolicyCtx<CharsCtx<'_>, _> = CharsCtx::new(d.as_str()).skip_whitespace();
    let mut hist = vec![];
    for _ in 0..s.range(1, 8) {
        let (op, o, l) = (s.u(4), s.range(0, 9), s.range(0, 9));
        hist.push((op, o, l));
        match op {
            0 => {
                x.set_offset(o.min(d.len()));
                y.set_offset(o.min(b.len()));
                z.set_offset(o.min(d.len()));
            }
            1 => {
                let k = o.min(d.len() - x.offset().min(d.len()));
                x.inc(k);
                y.inc(o.min(b.len() - y.offset().min(b.len())));
                z.inc(o.min(d.len() - z.offset().min(d.len())));
            }
            2 => {
                x.dec(o.min(x.offset()));
                y.dec(o.min(y.offset()));
                z.dec(o.min(z.offset()));
            }
            _ => {
                say(&mut t, "mat", x.try_mat(&neu::alphabetic().between::<1, 3>()));
                say(&mut t, "mat", y.try_mat(&neu::range(b'0'..=b'z').many1()));
                say(&mut t, "mat", z.try_mat(&neu::alphabetic().many1()));
            }
        }
        look(&mut t, &x, o, l);
        look(&mut t, &y, o, l);
        look(&mut t, &z, o, l);
    }
    c.dump(|| format!("{d:?} {b:?} {hist:?}"));
    Out { needs: Needs::Nothing, gain: t.contains("Ok(Span"), text: t }
}
/// patterns written out in the source: concrete types, extraction, macros
fn typed(c: &mut Case) -> Out {
    let s = &mut c.src;
    let mut d = text(s, 8);
    if s.bool() {
        d = format!("{}{}{}", s.pick(&["a", "ab", "-", ""]), s.pick(&["1", "23", "0x1f", ""]), d);
    }
    let b = bytes(s, 8);
    let o = if s.bool() { 0 } else { s.range(0, d.len()) };
    let ob = if s.bool() { 0 } else { s.range(0, b.len()) };
    c.dump(|| format!("{d:?}@{o} {b:?}@{ob}"));
    let mut t = String::new();
    let mut x = CharsCtx::new(d.as_str());
    macro_rules! text {
        ($($what:literal $p:expr => $t:ty),* $(,)?) => { $(
            let p = $p;
            x.set_offset(o);
            say(&mut t, $what, (x.try_mat(&p), x.offset()));
            x.set_offset(o);
            let r: Result<$t, Error> = x.ctor(&p);
            say(&mut t, $what, (r, x.offset()));
            x.set_offset(o);
            say(&mut t, $what, (x.is_mat(&p), x.offset()));
        )* };
    }
    text! {
        "word" neu::word::<char>().many1() => &str,
        "digits" neu::digit(10).between::<1, 2>() => &str,
        "not" 'a'.or('b').not().many0() => &str,
        "regex" neure::regex!([a - z]+) => &str,
        "regex2" neure::regex!([^ '0' - '9']{1, 3}) => &str,
        "regex3" neure::regex!(.{2}) => &str,
        "literal" regex::literal("ab") => &str,
        "start" regex::start().then(regex::literal("a")).pat() => &str,
        "end" neu::wild().many0().then(regex::end()).pat() => &str,
        "or" regex::literal("ab").or(regex::literal("a")) => &str,
        "ltm" regex::literal("a").longest(neu::alphabetic().many1()) => &str,
        "then" neu::alphabetic().many0().then(neu::digit(10).many1()) => (&str, &str),
        "opt" regex::literal("-").opt().then(neu::digit(10).many0()) => (Option<&str>, &str),
        "enclose" neu::digit(10).many0().enclose("a", "b".or("")) => &str,
        "sep_once" neu::alphabetic().once().sep_once("-".or(""), neu::digit(10).once()) => (&str, &str),
        "repeat2" neu::alphabetic().once().repeat2::<1, 3>() => [Option<&str>; 3],
        "sep2" neu::wild().once().sep2::<_, 0, 4>("a".or("b")) => [Option<&str>; 4],
        "array" regex::array::<3, _>(["a", "ab", "-"]) => &str,
        "array_ltm" regex::array_ltm::<3, _>(["a", "ab", "-"]) => &str,
        "pairs" regex::pair_array([("a", 1), ("ab", 2), ("é", 3)]) => (&str, i32),
        "branch" neu::digit(10).once().if_else(|x: &CharsCtx<'_>| Ok(x.offset() == 0), neu::wild().once()) => &str,
        "if" neu::wild().once().if_then("a", neu::wild().once()) => (&str, Option<&str>),
        "cond" 'a'.or('b').many0().set_cond(|_: &CharsCtx<'_>, p: &(usize, char)| Ok(p.0 < 1)) => &str,
        "not ahead" regex::not(neu::digit(10).once()).then(neu::wild().once()) => (&str, &str),
        "map" neu::digit(10).many1().try_map(map::from_str::<u8>()) => u8,
        "consume" regex::consume(2).then(regex::consume_all()) => (&str, &str),
    }
    x.set_offset(o);
    say(&mut t, "span", x.ctor_span::<_, Span>(&neu::alphabetic().many1()));
    say(&mut t, "find", (x.find::<&str>(neu::digit(10).many1()), x.offset()));
    x.set_offset(o);
    say(&mut t, "find_all", x.find_all::<&str>(neu::alphabetic().many1()).collect::<Vec<_>>());
    let mut y = BytesCtx::new(b.as_slice());
    macro_rules! bytes {
        ($($what:literal $p:expr => $t:ty),* $(,)?) => { $(
            let p = $p;
            y.set_offset(ob);
            say(&mut t, $what, (y.try_mat(&p), y.offset()));
            y.set_offset(ob);
            let r: Result<$t, Error> = y.ctor(&p);
            say(&mut t, $what, (r, y.offset()));
        )* };
    }
    bytes! {
        "ascii" neu::ascii::<u8>().many1() => &[u8],
        "range" neu::range(b'0'..b'a').between::<0, 3>() => &[u8],
        "byte" b'a'.or(b'0').many0() => &[u8],
        "two" regex::consume(2).try_map(map::from_be_bytes::<u16>()) => u16,
        "utf8" regex::consume(3).try_map(map::from_utf8::<&str>()) => &str,
    }
    for ch in d.chars() {
        say(&mut t, "is", (neu::word::<char>().is_match(&ch), neu::whitespace().is_match(&ch), neu::range('a'..='\u{80}').is_match(&ch)));
    }
    let _ = Extract::<&str>::new();
    Out { needs: Needs::Nothing, gain: t.contains("Ok(Span"), text: t }
}
