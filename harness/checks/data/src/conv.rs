//! C13: provided conversions against the standard library, alone and inside patterns.
use crate::cursor::bytes;
use neure::ctor::CtorOps;
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, MatchExt};
use neure::err::Error;
use neure::map::{self, FallibleMap, WithDefaultHelper};
use neure::regex;
use std::borrow::Cow;
use std::fmt::Debug;
use vcore::{Case, Check, Res, Src, ensure, ensure_eq, sub};

/// equality that tells NaNs and zeros apart
trait Same: Debug {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! same {
    ($($t:ty),*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })* };
}
same!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, bool, char, String, &str, Cow<'_, str>, std::net::IpAddr,
    std::net::Ipv4Addr, std::net::SocketAddr, [u8; 4], std::num::NonZeroU16);
impl Same for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f64 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
fn cmp<O: Same>(what: &str, got: Result<O, Error>, want: Option<O>) -> Res {
    let ok = match (&got, &want) {
        (Ok(g), Some(w)) => g.same(w),
        (Err(_), None) => true,
        _ => false,
    };
    ensure!(ok, "{what}: got {got:?}, expected {want:?}");
    Ok(())
}
/// the conversion inside patterns: `pre` elements, then a piece of `k` elements, then the rest
macro_rules! in_pattern {
    ($fn:ident, $ctx:ident, $d:ty) => {
        fn $fn<'a, O: Same, M: FallibleMap<&'a $d, O> + Clone>(
            c: &mut Case,
            what: &str,
            dat: &'a $d,
            (pre, k): (usize, usize),
            (beg, end): (usize, usize),
            conv: M,
            want: impl Fn() -> Option<O>,
        ) -> Res {
            let at = |ctx: &mut $ctx<'a>| {
                ctx.set_offset(beg);
            };
            // directly
            cmp(what, conv.try_map(&dat[beg..end]), want())?;
            ensure_eq!(FallibleMap::<&'a $d, O>::out_size(&conv), std::mem::size_of::<O>(), "{what}: size of the result");
            let ok = want().is_some();
            let ends = |what: &str, ctx: &$ctx<'a>, from: usize, ok: bool| -> Res {
                ensure_eq!(ctx.offset(), if ok { end } else { from }, "{what}: position");
                Ok(())
            };
            let mut ctx = $ctx::new(dat);
            match c.src.u(5) {
                0 => {
                    at(&mut ctx);
                    let r = ctx.ctor(&regex::consume(k).try_map(conv.clone()));
                    cmp(what, r, want())?;
                    ends(what, &ctx, beg, ok)?;
                }
                1 => {
                    at(&mut ctx);
                    let r = ctx.map(&regex::consume(k), conv.clone());
                    cmp(what, r, want())?;
                    ends(what, &ctx, beg, ok)?;
                }
                2 => {
                    let p = regex::consume(k).try_map(conv.clone()).prefix(regex::consume(pre));
                    let r = ctx.ctor(&p);
                    cmp(what, r, want())?;
                    ends(what, &ctx, 0, ok)?;
                }
                3 => {
                    // the first alternative only fails by its conversion
                    let p = regex::consume(k).try_map(conv.clone()).map(Some);
                    let q = regex::consume(k).map(|_: &'a $d| None);
                    at(&mut ctx);
                    let r = ctx.ctor(&p.or(q));
                    match (r, want()) {
                        (Ok(Some(g)), Some(w)) => ensure!(g.same(&w), "{what}: got {g:?}, expected {w:?}"),
                        (Ok(None), None) => {}
                        (r, w) => return Err(format!("{what} in a choice: got {r:?}, expected {w:?}")),
                    }
                    ends(what, &ctx, beg, true)?;
                }
                _ => {
                    let p = regex::consume(pre).then(regex::consume(k).try_map(conv.clone()));
                    let r: Result<(&'a $d, O), Error> = ctx.ctor(&p);
                    let r = match r {
                        Ok((x, y)) => {
                            ensure!(x == &dat[..beg], "{what}: first part {x:?}");
                            Ok(y)
                        }
                        Err(e) => Err(e),
                    };
                    cmp(what, r, want())?;
                    ends(what, &ctx, 0, ok)?;
                }
            }
            // matching does not convert
            at(&mut ctx);
            let s = ctx.try_mat(&regex::consume(k).try_map::<_, &'a $d>(conv));
            ensure!(s.as_ref().is_ok_and(|s| (s.beg, s.beg + s.len) == (beg, end)), "{what}: matching gives {s:?}");
            ends(what, &ctx, beg, true)?;
            c.label_if(!ok, "invalid");
            c.label_if(ok, "valid");
            c.nontrivial |= end > beg;
            c.comparisons += 3;
            Ok(())
        }
    };
}
in_pattern!(in_text, CharsCtx, str);
in_pattern!(in_bytes, BytesCtx, [u8]);

const JUNK: [&str; 8] = ["", "x", "é", " ", "12", "😀", "-", "0"];
/// the ways to get hold of the same conversion
fn way<M: Default>(c: &mut Case, f: M, new: M) -> M {
    match c.src.u(4) {
        0 => M::default(),
        1 => new,
        _ => f,
    }
}
fn number(s: &mut Src) -> String {
    let radix = *s.pick(&[10u32, 10, 10, 2, 8, 16, 36, 7]);
    let sign = *s.pick(&["", "", "", "-", "+", "--", "- "]);
    let body = match s.u(8) {
        0 => String::new(),
        1 | 2 => {
            // around the limits of the integer types
            let b = *s.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127]);
            let x = (1u128 << b).wrapping_add(s.below(5) as u128).wrapping_sub(2);
            digits(x, radix)
        }
        3 => s.pick(&["٣", "１２", "1_0", "0x10", "1.5", "1e3", "inf", "NaN", "true", "false", "a", "é", ".5", "1e400", "1e-400", "0.1", "-0"]).to_string(),
        _ => digits(s.below(100_000) as u128, radix),
    };
    let zeros = "0".repeat(s.weighted(&[8, 2, 1, 1]));
    let zeros = if s.chance(1, 40) { str::repeat("0", s.range(20, 140)) } else { zeros };
    let tail = *s.pick(&["", "", "", "", "", "", "", "", "", " ", "g", "\u{0}", "\n", "\u{feff}", "u8"]);
    let head = *s.pick(&["", "", "", "", "", "", "", "", "", "", "", " ", "\n", "\u{feff}"]);
    format!("{head}{sign}{zeros}{body}{tail}")
}
fn digits(mut x: u128, radix: u32) -> String {
    let mut v = vec![];
    loop {
        v.push(std::char::from_digit((x % radix as u128) as u32, radix).unwrap());
        x /= radix as u128;
        if x == 0 {
            break;
        }
    }
    if v.len() % 2 == 0 {
        v.iter_mut().for_each(|c| *c = c.to_ascii_uppercase());
    }
    v.iter().rev().collect()
}
fn texts(c: &mut Case) -> Res {
    let (a, z) = (*c.src.pick(&JUNK), *c.src.pick(&JUNK));
    let kind = c.src.u(18);
    let piece = match kind {
        0..=12 => number(&mut c.src),
        13 => c.src.pick(&["127.0.0.1", "::1", "1.2.3", "256.1.1.1", "10.0.0.1", "fe80::", "1.2.3.4:80", "[::1]:80"]).to_string(),
        14 => c.src.pick(&["true", "false", "True", "a", "ab", "é", "", "😀"]).to_string(),
        _ => number(&mut c.src),
    };
    let dat = format!("{a}{piece}{z}");
    let (beg, end) = (a.len(), a.len() + piece.len());
    let ks = (a.chars().count(), piece.chars().count());
    let radix = c.src.range(2, 36) as u32;
    c.dump(|| format!("text kind={kind} radix={radix} piece {piece:?} in {dat:?}"));
    let d = dat.as_str();
    let p = piece.as_str();
    macro_rules! parse {
        ($($t:ty),*) => {{ $(let conv = way(c, map::from_str::<$t>(), map::FromStr::new());
            in_text(c, concat!("from_str ", stringify!($t)), d, ks, (beg, end), conv, || p.parse::<$t>().ok())?;)* }};
    }
    macro_rules! rad {
        ($($t:ty),*) => {{ $(in_text(c, concat!("from_str_radix ", stringify!($t)), d, ks, (beg, end), map::from_str_radix::<$t>(radix), || <$t>::from_str_radix(p, radix).ok())?;)* }};
    }
    match kind {
        0 => parse!(i8, u8),
        1 => parse!(i16, u16),
        2 => parse!(i32, u32),
        3 => parse!(i64, u64),
        4 => parse!(i128, u128),
        5 => parse!(isize, usize, std::num::NonZeroU16),
        6 => parse!(f32, f64),
        7 => rad!(i8, u8),
        8 => rad!(i16, u16),
        9 => rad!(i32, u32),
        10 => rad!(i64, u64),
        11 => rad!(isize, usize),
        12 => parse!(String),
        13 => parse!(std::net::IpAddr, std::net::Ipv4Addr, std::net::SocketAddr),
        14 => parse!(bool, char),
        15 => {
            let f = map::from_str::<i32>().with_default(|| -7);
            in_text(c, "from_str with a default", d, ks, (beg, end), f, || Some(p.parse::<i32>().unwrap_or(-7)))?;
            in_text(c, "default function", d, ks, (beg, end), map::with_default(|| 3u8, map::from_str_radix::<u8>(radix)),
                || Some(u8::from_str_radix(p, radix).unwrap_or(3)))?;
        }
        16 => {
            let conv = way(c, map::into::<String>(), map::IntoMapper::new());
            in_text(c, "into String", d, ks, (beg, end), conv, || Some(String::from(p)))?;
            in_text(c, "mapper", d, ks, (beg, end), map::mapper(|s: &str| s.len()), || Some(p.len()))?;
            let conv = way(c, map::into::<Cow<str>>(), map::IntoMapper::new());
            in_text(c, "into Cow", d, ks, (beg, end), conv, || Some(Cow::from(p)))?;
            in_text(c, "closure", d, ks, (beg, end), |s: &str| s.parse::<u64>().map_err(|_| Error::Uid(1)), || p.parse::<u64>().ok())?;
        }
        _ => {
            // a chain of conversions
            let lo = c.src.below(50) as i64 - 20;
            let hi = lo + c.src.below(100_000) as i64;
            let mut ctx = CharsCtx::new(d);
            ctx.set_offset(beg);
            let q = regex::consume(ks.1).try_map(map::from_str::<i64>()).try_map(map::bounded(lo, hi)).try_map(map::try_into::<u16>());
            let r: Result<u16, Error> = ctx.ctor(&q);
            let w = p.parse::<i64>().ok().filter(|x| lo <= *x && *x < hi).and_then(|x| u16::try_from(x).ok());
            let ok = w.is_some();
            cmp("chain of conversions", r, w)?;
            ensure_eq!(ctx.offset(), if ok { end } else { beg }, "position after a chain of conversions");
            c.nontrivial = end > beg;
            c.label_if(ok, "valid");
            c.label_if(!ok, "invalid");
        }
    }
    Ok(())
}
const SPECIAL: [&[u8]; 16] = [
    "\u{feff}".as_bytes(), "\u{fffe}".as_bytes(), "\u{fffd}".as_bytes(), "\u{2028}".as_bytes(), "\u{200b}".as_bytes(), "\u{10ffff}".as_bytes(),
    "e\u{301}".as_bytes(), b"\0", b"\r\n", b"\n", b" ", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xff\xfe", b"\xe2\x80",
];
fn binary(c: &mut Case) -> Res {
    let a = bytes(&mut c.src, 3);
    let z = bytes(&mut c.src, 3);
    let n = *c.src.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20]);
    let kind = c.src.u(18);
    let piece: Vec<u8> = if kind >= 14 {
        // (nearly) valid UTF-8
        let mut v = crate::cursor::text(&mut c.src, 6).into_bytes();
        if c.src.bool() && !v.is_empty() {
            let i = c.src.u(v.len());
            if c.src.bool() {
                v[i] = c.src.below(256) as u8;
            } else {
                v.truncate(i);
            }
        }
        if c.src.chance(1, 3) {
            // sequences that are easily taken for something special, at either end or in the middle
            let x = *c.src.pick(&SPECIAL);
            let i = [0, v.len(), v.len() / 2][c.src.u(3)];
            v.splice(i..i, x.iter().copied());
        }
        v
    } else if c.src.bool() {
        (0..n).map(|_| *c.src.pick(&[0u8, 1, 0x7f, 0x80, 0xfe, 0xff])).collect()
    } else {
        (0..n).map(|_| c.src.below(256) as u8).collect()
    };
    let dat: Vec<u8> = [&a[..], &piece, &z].concat();
    let (beg, end) = (a.len(), a.len() + piece.len());
    let ks = (a.len(), piece.len());
    c.dump(|| format!("bytes kind={kind} piece {piece:?} in {dat:?}"));
    let d = dat.as_slice();
    let p = piece.as_slice();
    macro_rules! num {
        ($($t:ty),*) => {{ $({
            const N: usize = std::mem::size_of::<$t>();
            let head = || -> Option<[u8; N]> { p.get(..N)?.try_into().ok() };
            let le = way(c, map::from_le_bytes::<$t>(), map::FromLeBytes::new());
            let be = way(c, map::from_be_bytes::<$t>(), map::FromBeBytes::new());
            let ne = way(c, map::from_ne_bytes::<$t>(), map::FromNeBytes::new());
            in_bytes(c, concat!("from_le_bytes ", stringify!($t)), d, ks, (beg, end), le, || head().map(<$t>::from_le_bytes))?;
            in_bytes(c, concat!("from_be_bytes ", stringify!($t)), d, ks, (beg, end), be, || head().map(<$t>::from_be_bytes))?;
            in_bytes(c, concat!("from_ne_bytes ", stringify!($t)), d, ks, (beg, end), ne, || head().map(<$t>::from_ne_bytes))?;
            ensure!(map::from_le_bytes::<$t>().size() == N && map::from_be_bytes::<$t>().size() == N && map::from_ne_bytes::<$t>().size() == N, "size of {}", stringify!($t));
        })* }};
    }
    match kind {
        0 => num!(i8, u8),
        1 => num!(i16),
        2 => num!(u16),
        3 => num!(i32),
        4 => num!(u32),
        5 => num!(i64),
        6 => num!(u64),
        7 => num!(i128),
        8 => num!(u128),
        9 => num!(isize),
        10 => num!(usize),
        11 => num!(f32),
        12 => num!(f64),
        13 => {
            let conv = way(c, map::try_into::<[u8; 4]>(), map::TryIntoMapper::new());
            in_bytes(c, "try_into [u8; 4]", d, ks, (beg, end), conv, || p.try_into().ok())?;
            in_bytes(c, "default", d, ks, (beg, end), map::from_be_bytes::<u16>().with_default(|| 77), || {
                Some(p.get(..2).map(|b| u16::from_be_bytes(b.try_into().unwrap())).unwrap_or(77))
            })?;
        }
        14 | 15 => {
            let conv = way(c, map::from_utf8::<&str>(), map::FromUtf8::new());
            in_bytes(c, "from_utf8 &str", d, ks, (beg, end), conv, || std::str::from_utf8(p).ok())?
        }
        16 => {
            let conv = way(c, map::from_utf8::<String>(), map::FromUtf8::new());
            in_bytes(c, "from_utf8 String", d, ks, (beg, end), conv, || String::from_utf8(p.to_vec()).ok())?
        }
        _ => {
            let conv = way(c, map::from_utf8_lossy::<Cow<str>>(), map::FromUtf8Lossy::new());
            in_bytes(c, "from_utf8_lossy", d, ks, (beg, end), conv, || Some(String::from_utf8_lossy(p)))?
        }
    }
    Ok(())
}
fn edge(s: &mut Src) -> i64 {
    let b = *s.pick(&[0u32, 3, 7, 8, 15, 16, 31, 32, 62]);
    let x = (1i64 << b) + s.below(5) as i64 - 2;
    if s.bool() { -x } else { x }
}
fn values(c: &mut Case) -> Res {
    let (x, y) = (edge(&mut c.src), edge(&mut c.src));
    let z = edge(&mut c.src);
    let bits = c.src.full64();
    c.dump(|| format!("{x} {y} {z} {bits:#x}"));
    macro_rules! tri {
        ($s:expr => $($t:ty),*) => {{ $(cmp(concat!("try_into ", stringify!($t)), map::try_into::<$t>().try_map($s), <$t>::try_from($s).ok())?;)* }};
    }
    tri!(x => i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
    tri!(x as i32 => i8, u8, i16, u16, u32, u64, usize);
    tri!(x as u32 => char, u8, i8, u16);
    tri!(bits => i64, u32, usize, u8);
    cmp("into i128", map::into::<i128>().try_map(x), Some(i128::from(x)))?;
    cmp("into u32", map::into::<u32>().try_map(char::from(bits as u8)), Some(u32::from(char::from(bits as u8))))?;
    cmp("into f64", map::into::<f64>().try_map(x as i32), Some(f64::from(x as i32)))?;
    cmp("into u64", map::into::<u64>().try_map(x as u8), Some(u64::from(x as u8)))?;
    let (lo, hi) = (y.min(z), y.max(z));
    let inside = |v: i64| (lo <= v && v < hi).then_some(v);
    for v in [x, lo, hi, lo - 1, hi - 1, hi + 1] {
        cmp("bounded", map::bounded(lo, hi).try_map(v), inside(v))?;
    }
    let f = f64::from_bits(bits);
    cmp("bounded f64", map::bounded(lo as f64, hi as f64).try_map(f), (f >= lo as f64 && f < hi as f64).then_some(f))?;
    cmp("fixed_size", map::fixed_size((bits % 100) as usize).try_map(x), Some(x))?;
    ensure_eq!(FallibleMap::<i64, i64>::out_size(&map::fixed_size((bits % 100) as usize)), (bits % 100) as usize, "declared size");
    cmp("select0", map::select0().try_map((x, "b")), Some(x))?;
    cmp("select1", map::select1().try_map(("b", y)), Some(y))?;
    for (a, b) in [(x, y), (x, x), (y, z)] {
        let eq = map::select_eq().try_map((a, b));
        ensure!(if a == b { eq.is_ok_and(|v| v == (a, b)) } else { eq.is_err() }, "equality selection of {a}, {b}");
        let ne = map::select_neq().try_map((a, b));
        ensure!(if a != b { ne.is_ok_and(|v| v == (a, b)) } else { ne.is_err() }, "inequality selection of {a}, {b}");
    }
    let eq = map::select_eq().try_map((f, f));
    ensure!(eq.is_ok() == (f == f), "equality selection of {f}");
    cmp("default", map::with_default(|| 5u8, map::try_into::<u8>()).try_map(x), Some(u8::try_from(x).unwrap_or(5)))?;
    ensure_eq!(FallibleMap::<i64, u8>::out_size(&map::with_default(|| 5u8, map::try_into::<u8>())), 1, "declared size with a default");
    c.comparisons += 45;
    c.nontrivial = true;
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C13",
        rule: "a case is non-trivial when the converted piece is not empty (values: always); distinct = distinct choice sequences".into(),
        assumptions: vec![
            "the conversions of the standard library of the installed toolchain are the reference".into(),
            "fixed-width numbers are read from the first bytes of the piece, as the code does; bounded is min <= v < max".into(),
        ],
        subs: vec![
            sub("text", 3_000_000, 10, texts),
            sub("bytes", 3_000_000, 10, binary),
            sub("values", 1_000_000, 10, values),
        ],
    }
}
