//! C20: the pattern macros against the regular expressions whose notation they mimic.
use neure::neu::Neu;
use neure::prelude::*;
use std::sync::OnceLock;
use vcore::{Case, Check, Res, Src, ensure, ensure_eq, sub};

type Got = (Option<(usize, usize)>, usize, Option<(usize, usize)>, usize);
struct Form<I: ?Sized> {
    mac: &'static str,
    re: String,
    run: fn(&I, usize) -> Got,
}
struct Unit<T> {
    mac: &'static str,
    re: &'static str,
    run: fn(&T) -> bool,
}
/// span and position after matching, then after constructing the slice
macro_rules! probe {
    ($ctx:ident, $inp:expr, $off:ident, $p:expr) => {{
        let p = $p;
        let mut ctx = $ctx::new($inp);
        ctx.set_offset($off);
        let m = ctx.try_mat(&p).ok().map(|s| (s.beg(), s.len()));
        let o1 = ctx.offset();
        let mut ctx = $ctx::new($inp);
        ctx.set_offset($off);
        let c: Option<Span> = ctx.ctor_span(&p).ok();
        (m, o1, c.map(|s| (s.beg(), s.len())), ctx.offset())
    }};
}
macro_rules! quant {
    ($out:ident, $ctx:ident, $ty:ty, $src:literal, $t:tt; $($q:literal = $qt:tt),* $(,)?) => {
        $(quant1!($out, $ctx, $ty, $src, $t, $q, $qt);)*
    };
}
macro_rules! quant1 {
    ($out:ident, $ctx:ident, $ty:ty, $src:literal, [$($t:tt)*], $q:literal, [$($qt:tt)*]) => {
        $out.push(Form::<$ty> {
            mac: concat!("regex!(", stringify!($($t)* $($qt)*), ")"),
            re: format!("^{}(?:{}){}", if stringify!($ctx) == "CharsCtx" { "" } else { "(?-u)" }, $src, $q),
            run: |inp, off| probe!($ctx, inp, off, neure::regex!($($t)* $($qt)*)),
        });
    };
}
macro_rules! forms {
    ($ctx:ident, $ty:ty; $($src:literal = $t:tt),* $(,)?) => {{
        let mut out: Vec<Form<$ty>> = Vec::new();
        $(quant!(out, $ctx, $ty, $src, $t;
            "" = [], "?" = [?], "*" = [*], "+" = [+],
            "{0}" = [{0}], "{1}" = [{1}], "{2}" = [{2}], "{5}" = [{5}],
            "{0,}" = [{0,}], "{1,}" = [{1,}], "{3,}" = [{3,}],
            "{0,0}" = [{0, 0}], "{0,2}" = [{0, 2}], "{1,3}" = [{1, 3}], "{2,2}" = [{2, 2}], "{2,6}" = [{2, 6}],
        );)*
        out
    }};
}
macro_rules! units {
    ($ty:ty; $($src:literal = [$($t:tt)*]),* $(,)?) => {
        vec![$(Unit::<$ty> { mac: concat!("neu!(", stringify!($($t)*), ")"), re: $src, run: |v| Neu::is_match(&neure::neu!($($t)*), v) }),*]
    };
}
macro_rules! text_table {
    ($mac:ident, $($first:tt),*; $($extra:tt)*) => {
        $mac!($($first),*;
            r"[^\s]" = [^], "." = [.],
            "[a-z]" = [[a - z]], "[^a-z]" = [[^a - z]], "[a-z]" = [['a' - 'z']], "[^a-z]" = [[^'a' - 'z']],
            "[b-b]" = [[b - b]], "[A-Z]" = [[A - Z]], "[^A-Z]" = [[^A - Z]], "[c-k]" = [['c' - 'k']],
            "[0-9]" = [['0' - '9']], "[^0-9]" = [[^'0' - '9']],
            "[a-zA-Z]" = [[a - z A - Z]], "[^a-zA-Z]" = [[^a - z A - Z]],
            "[a-cA-C]" = [['a' - 'c' 'A' - 'C']], "[^a-cA-C0-3]" = [[^'a' - 'c' 'A' - 'C' '0' - '3']],
            "[a-mh-z]" = [[a - m h - z]], "[a-cx-zM-P]" = [[a - c x - z M - P]],
            "[abc]" = [[a b c]], "[^abc]" = [[^a b c]], "[a]" = [[a]], "[^a]" = [[^a]], "[zyb]" = [[z y b]],
            "[abc]" = [['a' 'b' 'c']], "[^abc]" = [[^'a' 'b' 'c']], r"[_.+\-]" = [['_' '.' '+' '-']], r"[^\n\t]" = [[^'\n' '\t']],
            "[x]" = [['x']], "[^x]" = [[^'x']],
            "[\u{4e00}-\u{9fa5}]" = [['\u{4e00}' - '\u{9fa5}']], "[^\u{4e00}-\u{9fa5}]" = [[^'\u{4e00}' - '\u{9fa5}']],
            "[你我]" = [[你 我]], "[^你我]" = [[^你 我]], "[é\u{1d11e}]" = [['é' '\u{1d11e}']], "[^é\u{1d11e}]" = [[^'é' '\u{1d11e}']],
            "[\u{80}-\u{7ff}]" = [['\u{80}' - '\u{7ff}']], "[\u{0}-\u{10ffff}]" = [['\0' - '\u{10ffff}']],
            "a" = [a], "Z" = [Z], "你" = [你], "b" = ['b'], "\n" = ['\n'], "é" = ['é'], "\u{1d11e}" = ['\u{1d11e}'], r"\+" = ['+'],
            "[a-z0-9_]" = [(neure::neu::ascii_lowercase(), neure::neu::digit(10), '_')],
            "[q]" = [('q')], "[0-9a-fé]" = [(neure::neu::range('0'..='9'), neure::neu::range('a'..'g'), 'é')],
            "[^0-9]" = [(neure::neu::digit(10).not())], "[0-9A-Fa-f]" = [(neure::neu::digit(16), neure::neu::never())],
            $($extra)*
        )
    };
}
macro_rules! byte_table {
    ($mac:ident, $($first:tt),*) => {
        $mac!($($first),*;
            "[a-z]" = [[b'a' - b'z']], "[^a-z]" = [[^b'a' - b'z']],
            "[0-9A-F]" = [[b'0' - b'9' b'A' - b'F']], "[^0-9A-F]" = [[^b'0' - b'9' b'A' - b'F']],
            r"[\x80-\xff]" = [[b'\x80' - b'\xff']], r"[^\x00]" = [[^b'\x00']], r"[\x00\xffa]" = [[b'\x00' b'\xff' b'a']],
            "[^abc]" = [[^b'a' b'b' b'c']], "[abc]" = [[b'a' b'b' b'c']],
            "a" = [b'a'], r"\xff" = [b'\xff'], r"\n" = [b'\n'], r"\xfe" = [0xfe],
            r"[a0-9]" = [(b'a', neure::neu::ascii_digit())], r"[^\x00-\x7f]" = [(neure::neu::ascii().not())],
        )
    };
}
fn text_forms() -> Vec<Form<str>> {
    text_table!(forms, CharsCtx, str; r"\s" = [])
}
fn byte_forms() -> Vec<Form<[u8]>> {
    byte_table!(forms, BytesCtx, [u8])
}
fn text_units() -> Vec<Unit<char>> {
    text_table!(units, char;)
}
fn byte_units() -> Vec<Unit<u8>> {
    byte_table!(units, u8)
}

const SEEDS: &[char] = &[
    'a', 'b', 'c', 'd', 'k', 'l', 'm', 'y', 'z', '`', '{', '@', 'A', 'C', 'D', 'M', 'Z', '[', '0', '3', '4', '9', '/', ':', '_', '.', '+', '-', 'x', 'q', 'f', 'g', '\n',
    '\t', '\r', ' ', '\u{a0}', '\u{85}', '\u{2028}', '\u{3000}', '\u{b}', '\u{1c}', '你', '我', '啊', 'é', 'è', 'ê', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}',
    '\u{4dff}', '\u{4e00}', '\u{9fa5}', '\u{9fa6}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{1d11d}', '\u{1d11e}', '\u{1d11f}', '\u{10ffff}', '\0',
];
fn ch(s: &mut Src) -> char {
    match s.weighted(&[8, 2, 1]) {
        0 => *s.pick(SEEDS),
        1 => char::from_u32(s.below(128) as u32).unwrap(),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}
/// a text of runs, the first characters of which are likely to be in the class: chosen with the oracle's help
fn text(s: &mut Src, inside: &[char]) -> String {
    let mut t = String::new();
    for _ in 0..s.range(0, 4) {
        if !inside.is_empty() && s.chance(3, 4) {
            for _ in 0..s.range(1, 7) {
                t.push(*s.pick(inside));
            }
        } else {
            let c = ch(s);
            for _ in 0..s.range(1, 3) {
                t.push(c);
            }
        }
    }
    t
}
const VAST: [usize; 10] = [254, 255, 256, 300, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073];
fn brief<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    match s.chars().count() {
        0..=400 => s,
        n => s.chars().take(60).chain(" .. ".chars()).chain(s.chars().skip(n - 60)).collect::<String>() + &format!(" ({n} characters)"),
    }
}
struct Compiled<I: ?Sized + 'static, R> {
    form: Form<I>,
    re: R,
}
fn form_text(c: &mut Case, vast: bool) -> Res {
    static T: OnceLock<Vec<(Compiled<str, ::regex::Regex>, Vec<char>)>> = OnceLock::new();
    let t = T.get_or_init(|| {
        text_forms()
            .into_iter()
            .map(|form| {
                let re = ::regex::Regex::new(&form.re).unwrap();
                // which of the seed characters the class holds: a single one extends or makes the match
                let class = ::regex::Regex::new(&format!("^{}$", form.re[1..].rsplit_once(')').unwrap().0.to_owned() + ")")).unwrap();
                let mut b = [0; 4];
                let inside = SEEDS.iter().copied().filter(|c| class.is_match(c.encode_utf8(&mut b))).collect();
                (Compiled { form, re }, inside)
            })
            .collect()
    });
    let (f, inside) = &t[c.src.u(t.len())];
    let pre = if c.src.chance(1, 3) { text(&mut c.src, inside) } else { String::new() };
    let mut inp = pre.clone() + &text(&mut c.src, inside);
    if vast {
        // a run around the width of a small counter, of one length of character or of several
        let n = *c.src.pick(&VAST);
        let seg: Vec<char> = (0..c.src.range(1, 3)).map(|_| if inside.is_empty() { 'a' } else { *c.src.pick(inside) }).collect();
        let tail = inp.split_off(pre.len());
        inp.extend(seg.iter().cycle().take(n));
        inp += &tail;
    }
    let want = f.re.find(&inp[pre.len()..]).map(|m| (pre.len(), m.end()));
    let end = pre.len() + want.map_or(0, |w| w.1);
    c.dump(|| format!("{} as {:?} on {} at {}", f.form.mac, f.form.re, brief(&inp), pre.len()));
    c.label(if want.is_some() { "match" } else { "no match" });
    c.nontrivial = inp.len() > pre.len();
    let got = (f.form.run)(&inp, pre.len());
    c.comparisons += 4;
    ensure_eq!(got, (want, end, want, end), "{} against {} on {} at {}", f.form.mac, f.form.re, brief(&inp), pre.len());
    Ok(())
}
fn form_bytes(c: &mut Case, vast: bool) -> Res {
    static T: OnceLock<Vec<(Compiled<[u8], ::regex::bytes::Regex>, Vec<u8>)>> = OnceLock::new();
    let t = T.get_or_init(|| {
        byte_forms()
            .into_iter()
            .map(|form| {
                let re = ::regex::bytes::Regex::new(&form.re).unwrap();
                let class = ::regex::bytes::Regex::new(&(form.re.rsplit_once(')').unwrap().0.to_owned() + ")")).unwrap();
                let inside = (0..=255u8).filter(|b| class.is_match(&[*b])).collect();
                (Compiled { form, re }, inside)
            })
            .collect()
    });
    let (f, inside) = &t[c.src.u(t.len())];
    let off = if c.src.chance(1, 3) { c.src.range(0, 5) } else { 0 };
    let mut inp: Vec<u8> = (0..off).map(|_| c.src.below(256) as u8).collect();
    for _ in 0..c.src.range(0, 4) {
        for _ in 0..c.src.range(1, 5) {
            let b = if c.src.chance(4, 5) { *c.src.pick(inside) } else { c.src.below(256) as u8 };
            inp.push(b);
        }
    }
    if vast {
        let n = *c.src.pick(&VAST);
        let seg: Vec<u8> = (0..c.src.range(1, 3)).map(|_| *c.src.pick(inside)).collect();
        inp.splice(off..off, seg.iter().copied().cycle().take(n));
    }
    let want = f.re.find(&inp[off..]).map(|m| (off, m.end()));
    let end = off + want.map_or(0, |w| w.1);
    c.dump(|| format!("{} as {:?} on {} at {}", f.form.mac, f.form.re, brief(&inp), off));
    c.label(if want.is_some() { "match" } else { "no match" });
    c.nontrivial = inp.len() > off;
    let got = (f.form.run)(&inp, off);
    c.comparisons += 4;
    ensure_eq!(got, (want, end, want, end), "{} against {} on {} at {}", f.form.mac, f.form.re, brief(&inp), off);
    Ok(())
}
fn unit_text(c: &mut Case) -> Res {
    static T: OnceLock<Vec<(Unit<char>, ::regex::Regex)>> = OnceLock::new();
    let t = T.get_or_init(|| text_units().into_iter().map(|u| (::regex::Regex::new(&format!("^(?:{})$", u.re)).unwrap(), u)).map(|(r, u)| (u, r)).collect());
    let (u, re) = &t[c.src.u(t.len())];
    c.dump(|| format!("{} as {:?}", u.mac, u.re));
    c.nontrivial = true;
    let mut buf = [0; 4];
    for _ in 0..32 {
        let x = ch(&mut c.src);
        let want = re.is_match(x.encode_utf8(&mut buf));
        c.comparisons += 1;
        ensure_eq!((u.run)(&x), want, "{} against {} on {:?}", u.mac, u.re, x);
    }
    Ok(())
}
fn unit_bytes(c: &mut Case) -> Res {
    static T: OnceLock<Vec<(Unit<u8>, ::regex::bytes::Regex)>> = OnceLock::new();
    let t = T.get_or_init(|| {
        byte_units().into_iter().map(|u| (::regex::bytes::Regex::new(&format!("^(?-u)(?:{})$", u.re)).unwrap(), u)).map(|(r, u)| (u, r)).collect()
    });
    let (u, re) = &t[c.src.u(t.len())];
    c.dump(|| format!("{} as {:?}", u.mac, u.re));
    c.nontrivial = true;
    for _ in 0..32 {
        let x = c.src.below(256) as u8;
        let want = re.is_match(&[x]);
        c.comparisons += 1;
        ensure_eq!((u.run)(&x), want, "{} against {} on {:?}", u.mac, u.re, x);
    }
    Ok(())
}

/// escape_strval!: the longest run of items, an item being an escape pair or anything but the quote
fn escape_model<T: PartialEq + Copy>(inp: &[(usize, T)], quote: T, prefix: T, set: &[T]) -> usize {
    let mut i = 0;
    while i < inp.len() {
        if inp[i].1 == prefix && i + 1 < inp.len() && set.contains(&inp[i + 1].1) {
            i += 2
        } else if inp[i].1 != quote {
            i += 1
        } else {
            break;
        }
    }
    i
}
fn escape_text(c: &mut Case) -> Res {
    const POOL: &[char] = &['"', '\\', 't', 'n', 'a', '你', '\'', '\u{1d11e}', '/', '\n'];
    let quote = *c.src.pick(&['"', '\'', '你']);
    let prefix = *c.src.pick(&['\\', '/', '\u{1d11e}']);
    let mut set = [*c.src.pick(POOL), *c.src.pick(POOL), *c.src.pick(POOL)];
    if c.src.chance(2, 3) {
        set[0] = quote;
        set[1] = prefix;
    }
    let mut body: String = (0..c.src.range(0, 12)).map(|_| if c.src.chance(1, 3) { *c.src.pick(&[quote, prefix]) } else { *c.src.pick(POOL) }).collect();
    if c.src.chance(1, 3000) {
        body = str::repeat(&body, 66_000 / body.len().max(1));
    }
    let lead: String = (0..c.src.range(0, 2)).map(|_| *c.src.pick(POOL)).collect();
    let inp = lead.clone() + &body;
    let off = lead.len();
    c.dump(|| format!("escape_strval!({quote:?}, {prefix:?}, {set:?}) on {} at {off}", brief(&inp)));
    c.nontrivial = body.contains(prefix);
    let items: Vec<(usize, char)> = body.char_indices().collect();
    let n = escape_model(&items, quote, prefix, &set);
    let len = items.get(n).map_or(body.len(), |v| v.0);
    macro_rules! go {
        ($q:literal, $p:literal) => {{
            let got = probe!(CharsCtx, &inp[..], off, neure::escape_strval!($q, $p, set));
            let mut full = String::from($q);
            full += &body;
            let mut q = [0; 4];
            let qs: &str = $q.encode_utf8(&mut q);
            let p = neure::escape_strval!($q, $p, set).enclose(qs, qs);
            let mut ctx = CharsCtx::new(&full);
            let inner: Option<String> = ctx.ctor::<_, &str>(&p).ok().map(String::from);
            (got, full.clone(), inner, ctx.offset(), qs.len())
        }};
    }
    let (got, full, inner, pos, ql) = match (quote, prefix) {
        ('"', '\\') => go!('"', '\\'),
        ('"', '/') => go!('"', '/'),
        ('"', _) => go!('"', '\u{1d11e}'),
        ('\'', '\\') => go!('\'', '\\'),
        ('\'', '/') => go!('\'', '/'),
        ('\'', _) => go!('\'', '\u{1d11e}'),
        (_, '\\') => go!('你', '\\'),
        (_, '/') => go!('你', '/'),
        _ => go!('你', '\u{1d11e}'),
    };
    c.comparisons += 5;
    ensure_eq!(got, (Some((off, len)), off + len, Some((off, len)), off + len), "escape_strval");
    // enclosed in its quotes it yields the text between them
    let want = body[len..].starts_with(quote).then(|| &body[..len]);
    ensure_eq!(inner.as_deref(), want, "enclosed escape_strval on {}", brief(&full));
    let end = if want.is_some() { len + 2 * ql } else { 0 };
    ensure!(pos == end, "position {} after enclosed escape_strval, expected {}", pos, end);
    Ok(())
}
fn escape_bytes(c: &mut Case) -> Res {
    const POOL: &[u8] = b"\"\\tna'/\xff\x00\n";
    let quote = *c.src.pick(b"\"'\xff");
    let prefix = *c.src.pick(b"\\/\x00");
    let mut set = [*c.src.pick(POOL), *c.src.pick(POOL)];
    if c.src.chance(2, 3) {
        set = [quote, prefix];
    }
    let mut inp: Vec<u8> = (0..c.src.range(0, 12)).map(|_| if c.src.chance(1, 3) { *c.src.pick(&[quote, prefix]) } else { *c.src.pick(POOL) }).collect();
    if c.src.chance(1, 3000) {
        inp = <[u8]>::repeat(&inp, 66_000 / inp.len().max(1));
    }
    let off = c.src.range(0, inp.len().min(3));
    c.dump(|| format!("escape_strval!({quote}, {prefix}, {set:?}) on {} at {off}", brief(&inp)));
    let items: Vec<(usize, u8)> = inp[off..].iter().copied().enumerate().collect();
    c.nontrivial = items.iter().any(|v| v.1 == prefix);
    let len = escape_model(&items, quote, prefix, &set);
    macro_rules! go {
        ($q:literal, $p:literal) => {
            probe!(BytesCtx, &inp[..], off, neure::escape_strval!($q, $p, set))
        };
    }
    let got = match (quote, prefix) {
        (b'"', b'\\') => go!(b'"', b'\\'),
        (b'"', b'/') => go!(b'"', b'/'),
        (b'"', _) => go!(b'"', b'\x00'),
        (b'\'', b'\\') => go!(b'\'', b'\\'),
        (b'\'', b'/') => go!(b'\'', b'/'),
        (b'\'', _) => go!(b'\'', b'\x00'),
        (_, b'\\') => go!(b'\xff', b'\\'),
        (_, b'/') => go!(b'\xff', b'/'),
        _ => go!(b'\xff', b'\x00'),
    };
    c.comparisons += 4;
    ensure_eq!(got, (Some((off, len)), off + len, Some((off, len)), off + len), "escape_strval");
    Ok(())
}

fn main() {
    vcore::main(vec![Check {
        id: "C20",
        rule: "the input goes on behind the starting position (single elements always count; escaped strings must hold the escape prefix)".into(),
        assumptions: vec!["the regex crate decides what the notation means".into(), "every macro form of the table with every quantifier: the table is fixed at compile time".into()],
        subs: vec![
            sub("text", 1_200_000, 12, |c| form_text(c, false)),
            sub("bytes", 600_000, 12, |c| form_bytes(c, false)),
            sub("vast_text", 6000, 10, |c| form_text(c, true)),
            sub("vast_bytes", 3000, 10, |c| form_bytes(c, true)),
            sub("unit_text", 150_000, 12, unit_text),
            sub("unit_bytes", 100_000, 12, unit_bytes),
            sub("escape_text", 250_000, 12, escape_text),
            sub("escape_bytes", 250_000, 12, escape_bytes),
        ],
    }]);
}
