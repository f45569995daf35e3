//! C24: streams of records whose shape is announced by the data, against an encoder and a decoder written by hand.
use neure::ctor::DynamicCtorThenBuilderHelper;
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, MatchExt};
use neure::err::Error;
use neure::map;
use neure::neu;
use neure::prelude::*;
use neure::regex::{self, DynamicRegexBuilderHelper};
use neure::span::Span;
use vcore::{Case, Res, ensure, ensure_eq};

/// how a record announces its payload
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// one length byte
    Len8,
    /// two-byte length, little / big endian
    LenLe,
    LenBe,
    /// a decimal number and ':'
    Decimal,
    /// first byte is the closing delimiter
    Delim,
    /// 'i' digits ';' | 's' length byte payload | 'n': announced by the first byte
    Tagged,
    /// number of following pairs, each a Len8 payload
    Count,
}
const KINDS: [Kind; 7] = [Kind::Len8, Kind::LenLe, Kind::LenBe, Kind::Decimal, Kind::Delim, Kind::Tagged, Kind::Count];
type Rec = Vec<Vec<u8>>;

fn bytes(c: &mut Case, max: usize) -> Vec<u8> {
    let n = if c.src.chance(1, 12) { c.src.u(300) } else { c.src.u(max + 1) };
    (0..n).map(|_| *c.src.pick(&[b'a', b'7', b';', b':', 0, 255, b's', b'i', b'n', 2, b'0'])).collect()
}
fn record(c: &mut Case, k: Kind) -> Rec {
    match k {
        Kind::Len8 => {
            let mut v = bytes(c, 6);
            v.truncate(255);
            vec![v]
        }
        Kind::LenLe | Kind::LenBe | Kind::Decimal => vec![bytes(c, 6)],
        Kind::Delim => {
            let d = *c.src.pick(&[b';', b'a', 0, 255]);
            let v = bytes(c, 6).into_iter().filter(|x| *x != d).collect();
            vec![vec![d], v]
        }
        Kind::Tagged => match c.src.u(3) {
            0 => vec![b"i".to_vec(), format!("{}", c.src.full64() >> c.src.u(64)).into_bytes()],
            1 => {
                let mut v = bytes(c, 5);
                v.truncate(255);
                vec![b"s".to_vec(), v]
            }
            _ => vec![b"n".to_vec(), vec![]],
        },
        Kind::Count => {
            let n = c.src.u(4);
            (0..n)
                .map(|_| {
                    let mut v = bytes(c, 4);
                    v.truncate(255);
                    v
                })
                .collect()
        }
    }
}
fn encode(k: Kind, r: &Rec, out: &mut Vec<u8>) {
    let n = r.last().map(|x| x.len()).unwrap_or(0);
    match k {
        Kind::Len8 => out.push(n as u8),
        Kind::LenLe => out.extend((n as u16).to_le_bytes()),
        Kind::LenBe => out.extend((n as u16).to_be_bytes()),
        Kind::Decimal => out.extend(format!("{n}:").bytes()),
        Kind::Delim => {
            out.push(r[0][0]);
            out.extend(&r[1]);
            out.push(r[0][0]);
            return;
        }
        Kind::Tagged => {
            out.push(r[0][0]);
            match r[0][0] {
                b'i' => {
                    out.extend(&r[1]);
                    out.push(b';');
                }
                b's' => {
                    out.push(n as u8);
                    out.extend(&r[1]);
                }
                _ => {}
            }
            return;
        }
        Kind::Count => {
            out.push(r.len() as u8);
            for x in r {
                out.push(x.len() as u8);
                out.extend(x);
            }
            return;
        }
    }
    out.extend(&r[0]);
}
/// reference decoder: the record at the front and its length
fn decode(k: Kind, b: &[u8]) -> Option<(Rec, usize)> {
    let take = |at: usize, n: usize| b.get(at..at.checked_add(n)?).map(|x| x.to_vec());
    let digits = |at: usize| b[at.min(b.len())..].iter().take_while(|x| x.is_ascii_digit()).count();
    match k {
        Kind::Len8 => {
            let n = *b.first()? as usize;
            Some((vec![take(1, n)?], 1 + n))
        }
        Kind::LenLe | Kind::LenBe => {
            let x = [*b.first()?, *b.get(1)?];
            let n = if k == Kind::LenLe { u16::from_le_bytes(x) } else { u16::from_be_bytes(x) } as usize;
            Some((vec![take(2, n)?], 2 + n))
        }
        Kind::Decimal => {
            let d = digits(0);
            let n: usize = std::str::from_utf8(&b[..d]).ok()?.parse().ok()?;
            if b.get(d) != Some(&b':') {
                return None;
            }
            Some((vec![take(d + 1, n)?], d + 1 + n))
        }
        Kind::Delim => {
            let d = *b.first()?;
            let n = b[1..].iter().position(|x| *x == d)?;
            Some((vec![vec![d], take(1, n)?], n + 2))
        }
        Kind::Tagged => match *b.first()? {
            b'i' => {
                let d = digits(1);
                if d == 0 || b.get(1 + d) != Some(&b';') {
                    return None;
                }
                Some((vec![b"i".to_vec(), take(1, d)?], d + 2))
            }
            b's' => {
                let n = *b.get(1)? as usize;
                Some((vec![b"s".to_vec(), take(2, n)?], 2 + n))
            }
            b'n' => Some((vec![b"n".to_vec(), vec![]], 1)),
            _ => None,
        },
        Kind::Count => {
            let n = *b.first()? as usize;
            let (mut at, mut r) = (1, vec![]);
            for _ in 0..n {
                let l = *b.get(at)? as usize;
                r.push(take(at + 1, l)?);
                at += 1 + l;
            }
            Some((r, at))
        }
    }
}
type B<'a> = BytesCtx<'a>;
fn nth(s: &[u8]) -> usize {
    s[0] as usize
}
/// the library's decoder for one record; `form`: which builder
fn read<'a>(k: Kind, form: usize, ctx: &mut B<'a>) -> Result<Rec, Error> {
    let byte = || regex::consume(1);
    let pay = |n: usize| regex::consume(n);
    let len8 = || CtorOps::map(regex::consume(1), |b: &'a [u8]| nth(b));
    match k {
        Kind::Len8 => {
            let (_, v): (usize, &[u8]) = ctx.ctor(&len8().into_ctor_then_builder(|_: &mut B<'a>, n: &usize| Ok(regex::consume(*n))))?;
            Ok(vec![v.to_vec()])
        }
        Kind::LenLe => {
            let p = regex::consume(2).try_map(map::from_le_bytes::<u16>());
            let v: &[u8] = ctx.ctor(&p.into_ctor_then_builder(|_: &mut B<'a>, n: &u16| Ok(regex::consume(*n as usize)))._1())?;
            Ok(vec![v.to_vec()])
        }
        Kind::LenBe => {
            let p = regex::consume(2).try_map(map::from_be_bytes::<u16>());
            let p = p.into_ctor_then_builder(|_: &mut B<'a>, n: &u16| Ok(regex::consume(*n as usize)));
            let (n, v): (u16, &[u8]) = ctx.ctor(&p)?;
            assert_eq!(n as usize, v.len());
            Ok(vec![v.to_vec()])
        }
        Kind::Decimal => {
            let num = neu::ascii_digit::<u8>().many1().try_map(map::from_utf8::<String>()).try_map(map::from_str::<usize>());
            let p = num.suffix(regex::literal(b":" as &[u8]));
            let p = p.into_ctor_then_builder(|c: &mut B<'a>, n: &usize| {
                // the builder sees the position behind the announcing part
                if c.len() - c.offset() < *n && *n % 3 == 0 { Err(Error::Uid(1)) } else { Ok(regex::consume(*n)) }
            });
            let (_, v): (usize, &[u8]) = ctx.ctor(&p)?;
            Ok(vec![v.to_vec()])
        }
        Kind::Delim => {
            if form == 0 {
                let p = byte().into_ctor_then_builder(|_: &mut B<'a>, d: &&'a [u8]| {
                    let d = d[0];
                    Ok(neu::not(neu::equal(d)).many0().then(neu::equal(d).once()))
                });
                let (d, (v, e)): (&[u8], (&[u8], &[u8])) = ctx.ctor(&p)?;
                assert_eq!(d, e);
                Ok(vec![d.to_vec(), v.to_vec()])
            } else {
                // as a pattern: the span covers what was built
                let at = ctx.offset();
                let p = byte().into_regex_builder(|c: &mut B<'a>, s: &Span| {
                    let d = c.orig_sub(s.beg, s.len)?[0];
                    Ok(neu::not(neu::equal(d)).many0().then(neu::equal(d).once()))
                });
                let s = ctx.try_mat(&p)?;
                assert_eq!(s.beg, at + 1);
                let d = ctx.orig_sub(at, 1)?;
                assert_eq!(ctx.orig_sub(s.beg + s.len - 1, 1)?, d);
                Ok(vec![d.to_vec(), ctx.orig_sub(s.beg, s.len - 1)?.to_vec()])
            }
        }
        Kind::Tagged => {
            let p = byte().into_ctor_then_builder(|_: &mut B<'a>, t: &&'a [u8]| {
                Ok(match t[0] {
                    b'i' => regex::Adapter::<B<'a>, _>::dyn_box(neu::ascii_digit::<u8>().many1().then(regex::literal(b";" as &[u8]))),
                    b's' => regex::Adapter::dyn_box(byte().into_regex_builder(|c: &mut B<'a>, s: &Span| {
                        let n = c.orig_sub(s.beg, s.len)?[0];
                        Ok(regex::consume(n as usize))
                    })),
                    b'n' => regex::Adapter::dyn_box(regex::empty()),
                    _ => return Err(Error::Uid(2)),
                })
            });
            let (t, v): (&[u8], &[u8]) = ctx.ctor(&p)?;
            let v = if t == b"i" { &v[..v.len() - 1] } else { v };
            Ok(vec![t.to_vec(), v.to_vec()])
        }
        Kind::Count => {
            let item = || CtorOps::map(regex::consume(1), |b: &'a [u8]| nth(b))
                .into_ctor_then_builder(move |_: &mut B<'a>, n: &usize| Ok(pay(*n)))._1();
            let p = len8().into_ctor_then_builder(|_: &mut B<'a>, n: &usize| Ok(item().repeat(*n..=*n)));
            let (n, v): (usize, Vec<&[u8]>) = ctx.ctor(&p)?;
            assert_eq!(n, v.len());
            Ok(v.into_iter().map(|x| x.to_vec()).collect())
        }
    }
}
pub fn binary(c: &mut Case) -> Res {
    let k = *c.src.pick(&KINDS);
    let form = c.src.u(2);
    let n = c.src.u(5);
    let recs: Vec<Rec> = (0..n).map(|_| record(c, k)).collect();
    let mut enc = vec![];
    recs.iter().for_each(|r| encode(k, r, &mut enc));
    let whole = enc.clone();
    // corruption
    let how = c.src.weighted(&[4, 2, 3, 1, 1]);
    if !enc.is_empty() {
        let i = c.src.u(enc.len());
        match how {
            1 => enc.truncate(i),
            2 => enc[i] = *c.src.pick(&[0, 1, 2, 3, 255, b':', b';', b'9', b'i', b's', b'n']),
            3 => {
                enc.remove(i);
            }
            4 => enc.insert(i, *c.src.pick(&[0, 1, 255, b':', b'9'])),
            _ => {}
        }
    }
    c.dump(|| format!("{k:?} form {form} {recs:?} as {enc:?}"));
    let intact = enc == whole;
    // one context for the whole stream
    let mut ctx = BytesCtx::new(&enc);
    let (mut at, mut got) = (0, vec![]);
    loop {
        let want = decode(k, &enc[at..]);
        let r = read(k, form, &mut ctx);
        c.comparisons += 1;
        match want {
            Some((w, len)) => {
                ensure!(r.is_ok(), "{k:?} record at {at} of {enc:?} rejected: {r:?}");
                ensure_eq!(r.unwrap(), w, "{k:?} record at {at} of {enc:?}");
                at += len;
                ensure_eq!(ctx.offset(), at, "position after a {k:?} record of {enc:?}");
                got.push(w);
            }
            None => {
                ensure!(r.is_err(), "{k:?} record at {at} of {enc:?} read as {r:?}");
                ensure_eq!(ctx.offset(), at, "position after a rejected {k:?} record of {enc:?}");
                break;
            }
        }
        if got.len() > 40 {
            break;
        }
    }
    // the intact encoding gives the records back, and the end of the stream is where it stops
    if intact {
        ensure_eq!(got, recs, "{k:?} stream {enc:?}");
        ensure_eq!(at, enc.len(), "end of {k:?} stream {enc:?}");
    }
    c.label(if intact { "intact" } else { "corrupted" });
    c.nontrivial = got.iter().any(|r| r.iter().any(|x| !x.is_empty()));
    Ok(())
}
/// text: `<n>` announces n characters; a here-document announces its end; a heading its underline
pub fn text(c: &mut Case) -> Res {
    let kind = c.src.u(5);
    let pool = ["a", "é", "日", "😀", "-", "\n", "7", "<", ">", "END", "E", "="];
    let body_of = |c: &mut Case, max: usize| -> String { (0..c.src.u(max + 1)).map(|_| *c.src.pick(&pool)).collect() };
    let mut doc = String::new();
    let n = c.src.u(4);
    for _ in 0..n {
        let body = body_of(c, 6);
        match kind {
            0 => doc += &format!("<{}>{body}", body.chars().count()),
            1 => {
                let word = *c.src.pick(&["END", "é", "E"]);
                doc += &format!("{word}\n{}{word}", body.replace(word, ""));
            }
            2 => {
                let b = body.replace(['<', '>'], "");
                let parts: Vec<&str> = b.split('E').collect();
                doc += &format!("<{}>{}", parts.len(), parts.iter().map(|p| format!("{p};")).collect::<String>());
            }
            3 => {
                let k = c.src.u(5);
                doc += &format!("<{k}>{}", "é".repeat(k));
            }
            _ => {
                let h = body.replace(['\n', '='], "");
                doc += &format!("{h}\n{}\n", "=".repeat(h.chars().count()));
            }
        }
    }
    if c.src.chance(1, 2) && !doc.is_empty() {
        let mut v: Vec<char> = doc.chars().collect();
        let i = c.src.u(v.len());
        match c.src.u(4) {
            0 => v.truncate(i),
            3 => {
                // a number that no input can live up to
                let big = *c.src.pick(&["18446744073709551615", "9223372036854775808", "1000000000000", "6148914691236517206", "99999999999999999999"]);
                let k = v.iter().position(|x| *x == '<').map_or(i, |k| k + 1);
                v.splice(k..k, big.chars());
            }
            1 => v[i] = *c.src.pick(&['1', '9', 'é', '\n', '=', '>', 'E']),
            _ => {
                v.remove(i);
            }
        }
        doc = v.into_iter().collect();
    }
    c.dump(|| format!("kind {kind} {doc:?}"));
    type C<'a> = CharsCtx<'a>;
    /// reference: (head, body, bytes)
    fn want(kind: usize, s: &str) -> Option<(String, String, usize)> {
        let chars = |s: &str, n: usize| -> Option<usize> {
            let mut it = s.char_indices().map(|x| x.0).chain([s.len()]);
            it.nth(n)
        };
        match kind {
            0 => {
                let r = s.strip_prefix('<')?;
                let d = r.bytes().take_while(u8::is_ascii_digit).count();
                let n: usize = r[..d].parse().ok()?;
                let b = r[d..].strip_prefix('>')?;
                let l = chars(b, n)?;
                Some((r[..d].into(), b[..l].into(), d + 2 + l))
            }
            1 => {
                let l = s.find('\n')?;
                let word = &s[..l];
                if word.is_empty() || word.contains(['<', '>']) {
                    return None;
                }
                let b = s[l + 1..].find(word)?;
                Some((word.into(), s[l + 1..l + 1 + b].into(), l + 1 + b + word.len()))
            }
            2 | 3 => {
                let r = s.strip_prefix('<')?;
                let d = r.bytes().take_while(u8::is_ascii_digit).count();
                let n: usize = r[..d].parse().ok()?;
                let b = r[d..].strip_prefix('>')?;
                if kind == 3 {
                    let k = b.chars().take_while(|x| *x == 'é').take(n).count();
                    return (k == n).then(|| (r[..d].into(), b[..2 * k].into(), d + 2 + 2 * k));
                }
                let ends: Vec<usize> = b.match_indices(';').map(|x| x.0 + 1).collect();
                let l = if n == 0 { 0 } else { *ends.get(n - 1)? };
                Some((r[..d].into(), b[..l].into(), d + 2 + l))
            }
            _ => {
                let l = s.find('\n')?;
                let n = s[..l].chars().count();
                let r = &s[l + 1..];
                let k = r.bytes().take_while(|b| *b == b'=').count();
                if k != n || !r[k..].starts_with('\n') {
                    return None;
                }
                Some((s[..l].into(), r[..k].into(), l + 1 + k + 1))
            }
        }
    }
    fn got<'a>(kind: usize, ctx: &mut C<'a>) -> Result<(String, String), Error> {
        match kind {
            0 => {
                let p = neu::ascii_digit::<char>().many1().enclose("<", ">");
                let p = p.into_ctor_then_builder(|_: &mut C<'a>, s: &&'a str| {
                    Ok(regex::consume(str::parse::<usize>(s).map_err(|_| Error::Uid(1))?))
                });
                let (a, b): (&str, &str) = ctx.ctor(&p)?;
                Ok((a.into(), b.into()))
            }
            1 => {
                let p = neu::not(neu::or(neu::equal('\n'), neu::or(neu::equal('<'), neu::equal('>')))).many1().suffix("\n");
                let p = p.into_ctor_then_builder(|_: &mut C<'a>, w: &&'a str| {
                    let w = *w;
                    Ok(neu::always().many0().set_cond(neu::regex_cond(regex::not(w))).suffix(w))
                });
                let (a, b): (&str, &str) = ctx.ctor(&p)?;
                Ok((a.into(), b.into()))
            }
            2 => {
                let p = neu::ascii_digit::<char>().many1().enclose("<", ">");
                let p = p.into_ctor_then_builder(|_: &mut C<'a>, s: &&'a str| {
                    let n = str::parse::<usize>(s).map_err(|_| Error::Uid(1))?;
                    let item = neu::not(neu::equal(';')).many0().suffix(";");
                    Ok(item.repeat(n..=n))
                });
                let (a, b): (&str, Vec<&str>) = ctx.ctor(&p)?;
                Ok((a.into(), b.iter().map(|x| format!("{x};")).collect()))
            }
            3 => {
                let p = neu::ascii_digit::<char>().many1().enclose("<", ">");
                let p = p.into_ctor_then_builder(|_: &mut C<'a>, s: &&'a str| {
                    let n = str::parse::<usize>(s).map_err(|_| Error::Uid(1))?;
                    Ok(neu::equal('é').times(n))
                });
                let (a, b): (&str, &str) = ctx.ctor(&p)?;
                Ok((a.into(), b.into()))
            }
            _ => {
                let p = neu::not(neu::equal('\n')).many0().suffix("\n");
                let p = p.into_ctor_then_builder(|_: &mut C<'a>, w: &&'a str| {
                    let n = w.chars().count();
                    Ok(neu::equal('=').times(n..=n).suffix("\n"))
                });
                let (a, b): (&str, &str) = ctx.ctor(&p)?;
                Ok((a.into(), b.into()))
            }
        }
    }
    let mut ctx = CharsCtx::new(&doc);
    let (mut at, mut n) = (0, 0);
    for _ in 0..20 {
        let w = want(kind, &doc[at..]);
        let g = got(kind, &mut ctx);
        c.comparisons += 1;
        match w {
            Some((a, b, len)) => {
                ensure_eq!(g, Ok((a, b)), "record at {at} of {doc:?}");
                at += len;
                ensure_eq!(ctx.offset(), at, "position after a record of {doc:?}");
                n += 1;
            }
            None => {
                ensure!(g.is_err(), "record at {at} of {doc:?} read as {g:?}");
                ensure_eq!(ctx.offset(), at, "position after a rejected record of {doc:?}");
                break;
            }
        }
    }
    c.nontrivial = n > 0;
    Ok(())
}
