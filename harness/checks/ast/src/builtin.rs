//! C15: the whitespace-skipping contexts the library provides, against a skip rule written with the standard library,
//! and against splitting at whitespace.
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, MatchExt, MatchMulti};
use neure::err::Error;
use neure::neu::{self, NeuIntoRegexOps};
use neure::prelude::CtorOps;
use neure::regex;
use neure::span::Span;
use vcore::{Case, Res, ensure_eq};

const POOL: [&str; 22] = [
    "a", "b", "ab", "7", "42", ",", "-", "é", "_", " ", " ", "  ", "\t", "\n", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}",
    "\u{2003}", "\u{200b}", "\u{1c}",
];
/// everything the context makes of a list of patterns
macro_rules! look {
    ($mk:expr, $o:ty, $t:ty, $comma:expr, $dash:expr, $all:expr) => {{
        let mut out: Vec<String> = vec![];
        macro_rules! go {
            ($p:expr => $r:ty) => {{
                let p = $p;
                let mut c = $mk;
                let r = c.try_mat(&p);
                out.push(format!("{r:?} @{}", c.offset()));
                let mut c = $mk;
                let r: Result<$r, Error> = c.ctor(&p);
                out.push(format!("{r:?} @{}", c.offset()));
            }};
        }
        let word = neu::ascii_alphabetic::<$t>().many1();
        let num = neu::ascii_digit::<$t>().many1();
        go!(word => $o);
        go!(word.then(num) => ($o, $o));
        go!(word.then(word.opt()) => ($o, Option<$o>));
        go!(word.or(num).sep($comma) => Vec<$o>);
        go!(num.sep_once($dash, word) => ($o, $o));
        go!(word.enclose($dash, $dash) => $o);
        go!(word.repeat(1..4) => Vec<$o>);
        go!(regex::end() => $o);
        go!(word.longest(word.then(num).pat()) => $o);
        go!(regex::not(num).then(regex::consume(1)) => ($o, $o));
        go!(num.if_then($comma, word) => ($o, Option<$o>));
        go!(regex::start().then(regex::consume_all()) => ($o, $o));
        let mut c = $mk;
        let words: Vec<$o> = c.find_all::<$o>(word).collect();
        out.push(format!("{words:?} @{}", c.offset()));
        let mut c = $mk;
        let seq: Vec<$o> = c.match_seq::<$o>(word.or(num)).collect();
        out.push(format!("{seq:?} @{}", c.offset()));
        let mut c = $mk;
        let toks: Vec<$o> = c.match_seq::<$o>($all).collect();
        (out, toks)
    }};
}
pub fn check(c: &mut Case) -> Res {
    let s = &mut c.src;
    let n = s.range(0, 10);
    let text: String = (0..n).map(|_| *s.pick(&POOL)).collect();
    let at = if s.chance(2, 3) { 0 } else { *s.pick(&text.char_indices().map(|x| x.0).chain([text.len()]).collect::<Vec<_>>()) };
    c.dump(|| format!("{text:?} @{at}"));
    let rest = &text[at..];
    // all whitespace
    let rule = |c: &mut CharsCtx<'_>| {
        let n = c.orig()?.len() - c.orig()?.trim_start().len();
        let beg = c.offset();
        c.inc(n);
        Ok(Span::new(beg, n))
    };
    macro_rules! solid { () => { neu::NeuOp::not(neu::whitespace()).many1() } }
    let (got, toks) = look!({ let mut c = CharsCtx::new(&text).skip_whitespace(); c.set_offset(at); c }, &str, char, ",", "-", solid!());
    let (want, _) = look!({ let mut c = CharsCtx::new(&text).skip_before(rule); c.set_offset(at); c }, &str, char, ",", "-", solid!());
    ensure_eq!(got, want, "skip_whitespace on {text:?} from {at}");
    ensure_eq!(toks, rest.split_whitespace().collect::<Vec<_>>(), "words of {rest:?}");
    // ASCII whitespace
    let rule = |c: &mut CharsCtx<'_>| {
        let n = c.orig()?.bytes().take_while(u8::is_ascii_whitespace).count();
        let beg = c.offset();
        c.inc(n);
        Ok(Span::new(beg, n))
    };
    macro_rules! solid { () => { neu::NeuOp::not(neu::ascii_whitespace::<char>()).many1() } }
    let (got, toks) = look!({ let mut c = CharsCtx::new(&text).skip_ascii_whitespace(); c.set_offset(at); c }, &str, char, ",", "-", solid!());
    let (want, _) = look!({ let mut c = CharsCtx::new(&text).skip_before(rule); c.set_offset(at); c }, &str, char, ",", "-", solid!());
    ensure_eq!(got, want, "skip_ascii_whitespace on {text:?} from {at}");
    ensure_eq!(toks, rest.split_ascii_whitespace().collect::<Vec<_>>(), "words of {rest:?}");
    let words = toks.len();
    // bytes
    let bytes = text.as_bytes();
    let rule = |c: &mut BytesCtx<'_>| {
        let n = c.orig()?.iter().take_while(|b| b.is_ascii_whitespace()).count();
        let beg = c.offset();
        c.inc(n);
        Ok(Span::new(beg, n))
    };
    macro_rules! solid { () => { neu::NeuOp::not(neu::ascii_whitespace::<u8>()).many1() } }
    let lit = |s: &'static [u8]| regex::literal(s);
    let (got, toks) = look!({ let mut c = BytesCtx::new(bytes).skip_ascii_whitespace(); c.set_offset(at); c }, &[u8], u8, lit(b","), lit(b"-"), solid!());
    let (want, _) = look!({ let mut c = BytesCtx::new(bytes).skip_before(rule); c.set_offset(at); c }, &[u8], u8, lit(b","), lit(b"-"), solid!());
    ensure_eq!(got, want, "skip_ascii_whitespace on {bytes:?} from {at}");
    ensure_eq!(toks, rest.split_ascii_whitespace().map(str::as_bytes).collect::<Vec<_>>(), "words of the bytes of {rest:?}");
    c.comparisons += got.len() as u64 * 3 + 3;
    c.nontrivial = words > 1;
    Ok(())
}
