//! C17: recursive grammars.
use neure::ctor::{self, Ctor, CtorIntoHelper, Extract};
use neure::err::Error;
use neure::neu::{self, NeuIntoRegexOps, NeuOp};
use neure::prelude::{BytesCtx, CharsCtx, Context, CtorOps, MatchExt};
use neure::regex::{self, RecParser, RecParserSync, RecursiveParser, RecursiveParserSync, rec_parser, rec_parser_sync};
use vcore::{Case, Check, Res, Src, ensure, ensure_eq, sub};
use vpat::setup::*;

// ------------------------------------------------------------------ JSON
#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    /// the text between the quotes, escapes untouched
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}
/// variations of the grammar
#[derive(Clone, Copy, Debug)]
struct Opts {
    /// every member is followed by a separator (otherwise the last one may go without)
    strict: bool,
    /// members a container has at least
    min: usize,
}
trait Txt: Copy {
    fn raw(self) -> Vec<u8>;
}
impl Txt for &str {
    fn raw(self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
impl Txt for &[u8] {
    fn raw(self) -> Vec<u8> {
        self.to_vec()
    }
}
macro_rules! json {
    ($name:ident, $ctx:ident, $t:ty, $orig:ty, $q:literal, $bs:literal, $minus:literal, $dot:literal, $d0:literal, $d9:literal,
     $o:ty, $esc:expr, $u:literal, $plain:expr, $e:expr, $sign:expr) => {
        fn $name<'a, R>(r: R, o: Opts) -> impl Ctor<$ctx<'a>, J, Extract<$orig>> + Send + Sync
        where
            R: Ctor<$ctx<'a>, J, Extract<$orig>> + Clone + Send + Sync,
        {
            type V<'a> = $orig;
            let lit = |s: &'static str| regex::literal(AsRef::<$o>::as_ref(s));
            let ws = || <$t>::is_ascii_whitespace.many0();
            let digit = || neu::range($d0..=$d9).many1();
            let exp = $e.then($sign.opt()).then(digit()).pat();
            let num = $minus
                .opt()
                .then(digit())
                .then(lit($dot).then(digit()).pat().or(regex::empty()))
                .then(exp.or(regex::empty()))
                .pat()
                .map(|v: V<'a>| J::Num(String::from_utf8(v.raw()).unwrap()));
            let hex = || <$t>::is_ascii_hexdigit.count::<4>();
            let escape = || lit($bs).then($esc.once()).pat().or(lit($bs).then(lit($u)).then(hex()).pat());
            let chars = || $plain.many1().or(escape()).repeat(0..).pat();
            let string = move || chars().enclose(lit($q), lit($q));
            let val = num
                .or(string().map(|v: V<'a>| J::Str(v.raw())))
                .or(lit("true").map(|_: V<'a>| J::Bool(true)).or(lit("false").map(|_: V<'a>| J::Bool(false))))
                .or(lit("null").map(|_: V<'a>| J::Null))
                .or(r);
            // shared between the two kinds of container
            let val = CtorIntoHelper::<$ctx<'a>>::into_arc(val.prefix(ws()).suffix(ws()));
            let key = string().map(|v: V<'a>| v.raw()).suffix(ws()).prefix(ws());
            let pair = key.sep_once(lit(":"), val.clone());
            let obj = pair.sep(lit(",")).with_skip(!o.strict).at_least(o.min).prefix(ws()).enclose(lit("{"), lit("}")).map(J::Obj);
            let arr = val.clone().sep(lit(",")).with_skip(!o.strict).at_least(o.min).prefix(ws()).enclose(lit("["), lit("]")).map(J::Arr);
            let arr = ctor::Adapter::<$ctx<'a>, _>::r#box(arr);
            obj.or(arr)
        }
    };
}
json!(
    text_json, CharsCtx, char, &'a str, "\"", "\\", '-', ".", '0', '9', str,
    ['"', '\\', '/', 'b', 'f', 'n', 'r', 't'], "u",
    neu::not(neu::or('"', neu::or('\\', neu::range('\0'..' ')))), 'e'.or('E').once(), '+'.or('-')
);
json!(
    bytes_json, BytesCtx, u8, &'a [u8], "\"", "\\", b'-', ".", b'0', b'9', [u8],
    [b'"', b'\\', b'/', b'b', b'f', b'n', b'r', b't'], "u",
    neu::not(neu::or(b'"', neu::or(b'\\', neu::range(0..b' ')))), b'e'.or(b'E').once(), b'+'.or(b'-')
);
/// reference recursive-descent parser
struct Rd<'x> {
    s: &'x [u8],
    o: Opts,
}
impl Rd<'_> {
    fn at(&self, i: usize, c: u8) -> Option<usize> {
        (self.s.get(i) == Some(&c)).then_some(i + 1)
    }
    fn ws(&self, mut i: usize) -> usize {
        while self.s.get(i).is_some_and(|c| matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0c)) {
            i += 1;
        }
        i
    }
    fn digits(&self, i: usize) -> Option<usize> {
        let mut j = i;
        while self.s.get(j).is_some_and(|c| (b'0'..=b'9').contains(c)) {
            j += 1;
        }
        (j > i).then_some(j)
    }
    fn num(&self, i: usize) -> Option<(J, usize)> {
        let mut j = self.digits(self.at(i, b'-').unwrap_or(i))?;
        if let Some(k) = self.at(j, b'.').and_then(|k| self.digits(k)) {
            j = k;
        }
        if let Some(k) = self.at(j, b'e').or(self.at(j, b'E')) {
            let k = self.at(k, b'+').or(self.at(k, b'-')).unwrap_or(k);
            if let Some(k) = self.digits(k) {
                j = k;
            }
        }
        Some((J::Num(String::from_utf8(self.s[i..j].to_vec()).unwrap()), j))
    }
    fn string(&self, i: usize) -> Option<(Vec<u8>, usize)> {
        let i = self.at(i, b'"')?;
        let mut j = i;
        loop {
            match *self.s.get(j)? {
                b'"' => return Some((self.s[i..j].to_vec(), j + 1)),
                b'\\' => match *self.s.get(j + 1)? {
                    b'u' => {
                        let h = self.s.get(j + 2..j + 6)?;
                        if !h.iter().all(|c| c.is_ascii_hexdigit()) {
                            return None;
                        }
                        j += 6
                    }
                    c if b"\"\\/bfnrt".contains(&c) => j += 2,
                    _ => return None,
                },
                c if c < b' ' => return None,
                _ => j += 1,
            }
        }
    }
    fn word(&self, i: usize, w: &str, v: J) -> Option<(J, usize)> {
        self.s[i..].starts_with(w.as_bytes()).then(|| (v, i + w.len()))
    }
    fn val(&self, i: usize) -> Option<(J, usize)> {
        let i = self.ws(i);
        let (v, i) = self
            .num(i)
            .or_else(|| self.string(i).map(|(s, i)| (J::Str(s), i)))
            .or_else(|| self.word(i, "true", J::Bool(true)))
            .or_else(|| self.word(i, "false", J::Bool(false)))
            .or_else(|| self.word(i, "null", J::Null))
            .or_else(|| self.top(i))?;
        Some((v, self.ws(i)))
    }
    fn pair(&self, i: usize) -> Option<((Vec<u8>, J), usize)> {
        let (k, i) = self.string(self.ws(i))?;
        let i = self.at(self.ws(i), b':')?;
        let (v, i) = self.val(i)?;
        Some(((k, v), i))
    }
    fn list<T>(&self, i: usize, f: impl Fn(usize) -> Option<(T, usize)>) -> (Vec<T>, usize) {
        let mut v = vec![];
        let mut end = i;
        let mut from = i;
        while let Some((x, e)) = f(from) {
            let Some(n) = self.at(e, b',') else {
                if !self.o.strict {
                    v.push(x);
                    end = e;
                }
                break;
            };
            v.push(x);
            end = n;
            from = n;
        }
        (v, end)
    }
    fn top(&self, i: usize) -> Option<(J, usize)> {
        if let Some(b) = self.at(i, b'{') {
            let (v, e) = self.list(self.ws(b), |i| self.pair(i));
            if let (Some(e), true) = (self.at(e, b'}'), v.len() >= self.o.min) {
                return Some((J::Obj(v), e));
            }
        }
        let b = self.at(i, b'[')?;
        let (v, e) = self.list(self.ws(b), |i| self.val(i));
        if v.len() < self.o.min {
            return None;
        }
        Some((J::Arr(v), self.at(e, b']')?))
    }
}
fn gen_str(s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..s.weighted(&[3, 3, 3, 2, 1, 1]) {
        match s.u(12) {
            0 => v.extend(*s.pick(&[b"\\\"", b"\\\\", b"\\n", b"\\/", b"\\t"])),
            1 => v.extend(format!("\\u{:04x}", s.below(65536)).bytes()),
            2 => v.extend(s.pick(&["é", "中", "😀", "\u{7f}", "\u{80}"]).bytes()),
            3 => v.push(*s.pick(b"[]{},:")),
            4 => v.push(b' '),
            _ => v.push(*s.pick(b"abcxyz019_-+.eE")),
        }
    }
    v
}
fn gen_j(s: &mut Src, d: usize, budget: &mut i32) -> J {
    *budget -= 1;
    if d == 0 || *budget <= 0 || s.chance(2, 5) {
        return match s.u(6) {
            0 => J::Null,
            1 => J::Bool(s.bool()),
            2 | 3 => {
                let mut n = String::new();
                if s.bool() {
                    n.push('-');
                }
                let top = if s.bool() { 10 } else { 1_000_000 };
                n += &s.below(top).to_string();
                if s.bool() {
                    n += &format!(".{}", s.below(1000));
                }
                if s.chance(1, 3) {
                    n += s.pick(&["e5", "E+05", "e-0", "E12"]);
                }
                J::Num(n)
            }
            _ => J::Str(gen_str(s)),
        };
    }
    gen_top(s, d, budget)
}
fn gen_top(s: &mut Src, d: usize, budget: &mut i32) -> J {
    // mostly bushy, sometimes a deep spine
    let n = s.weighted(&[2, 4, 4, 3, 1, 1]);
    let d = d.saturating_sub(1);
    if s.bool() {
        J::Arr((0..n).map(|_| gen_j(s, d, budget)).collect())
    } else {
        J::Obj((0..n).map(|_| (gen_str(s), gen_j(s, d, budget))).collect())
    }
}
fn print(s: &mut Src, j: &J, o: Opts, sp: bool, out: &mut Vec<u8>) {
    fn ws(s: &mut Src, sp: bool, out: &mut Vec<u8>) {
        if sp {
            for _ in 0..s.weighted(&[4, 2, 1]) {
                out.push(*s.pick(b" \t\n\r\x0c"));
            }
        }
    }
    fn quote(v: &[u8], out: &mut Vec<u8>) {
        out.push(b'"');
        out.extend(v);
        out.push(b'"');
    }
    match j {
        J::Null => out.extend(b"null"),
        J::Bool(b) => out.extend(b.to_string().bytes()),
        J::Num(n) => out.extend(n.bytes()),
        J::Str(v) => quote(v, out),
        J::Arr(v) => {
            out.push(b'[');
            ws(s, sp, out);
            for (i, x) in v.iter().enumerate() {
                ws(s, sp, out);
                print(s, x, o, sp, out);
                ws(s, sp, out);
                if i + 1 < v.len() || o.strict || s.chance(1, 6) {
                    out.push(b',');
                }
            }
            out.push(b']');
        }
        J::Obj(v) => {
            out.push(b'{');
            ws(s, sp, out);
            for (i, (k, x)) in v.iter().enumerate() {
                ws(s, sp, out);
                quote(k, out);
                ws(s, sp, out);
                out.push(b':');
                ws(s, sp, out);
                print(s, x, o, sp, out);
                ws(s, sp, out);
                if i + 1 < v.len() || o.strict || s.chance(1, 6) {
                    out.push(b',');
                }
            }
            out.push(b'}');
        }
    }
}
fn corrupt(s: &mut Src, v: &mut Vec<u8>) {
    const POOL: [&[u8]; 22] = [
        b"[", b"]", b"{", b"}", b",", b":", b"\"", b"\\", b" ", b"0", b"-", b".", b"e", b"t", b"null", b"\\u12", b"\n", b"\x01",
        b"a", "é".as_bytes(), b",,", b"[]",
    ];
    for _ in 0..s.weighted(&[0, 5, 2, 1]) {
        if v.is_empty() {
            return;
        }
        let i = s.u(v.len());
        match s.u(7) {
            0 => {
                v.remove(i);
            }
            1 => {
                let p = *s.pick(&POOL);
                v.splice(i..i, p.iter().copied());
            }
            2 => {
                let p = *s.pick(&POOL);
                v.splice(i..i + 1, p.iter().copied());
            }
            3 => v.truncate(i),
            4 => {
                let j = (i + s.range(1, 6)).min(v.len());
                let seg = v[i..j].to_vec();
                v.splice(j..j, seg);
            }
            5 => {
                let j = s.u(v.len());
                v.swap(i, j);
            }
            _ => {
                let j = (i + s.range(1, 8)).min(v.len());
                v.drain(i..j);
            }
        }
    }
}
const HELPERS: [&str; 5] = ["rec_parser", "rec_parser_sync", "RecParser::build", "RecParserSync::build_with", "RecParserSync::build"];
/// wraps the non-Send handle so that one grammar function serves every helper
#[derive(Clone)]
struct One<T>(T);
unsafe impl<T> Send for One<T> {}
unsafe impl<T> Sync for One<T> {}
impl<C, T: regex::Regex<C>> regex::Regex<C> for One<T> {
    fn try_parse(&self, ctx: &mut C) -> Result<neure::span::Span, Error> {
        vcore::tick();
        self.0.try_parse(ctx)
    }
}
impl<C, O, H, T: Ctor<C, O, H>> Ctor<C, O, H> for One<T> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
        vcore::tick();
        self.0.construct(ctx, h)
    }
}
/// parse with helper `k`: value and position, and whether plain matching agrees
macro_rules! parse_with {
    ($k:expr, $ctx:ident, $inp:expr, $at:expr, |$r:ident| $g:expr) => {{
        macro_rules! go {
            ($f:expr) => {{
                let p = $f(|r| {
                    let $r = One(r);
                    $g
                });
                // twice through the same parser, and once by matching only
                let mut c = $ctx::new($inp);
                c.set_offset($at);
                let v = c.ctor(&p).ok();
                let e = c.offset();
                c.set_offset($at);
                let again = c.ctor(&p).ok();
                let e2 = c.offset();
                c.set_offset($at);
                let m = c.try_mat(&p).ok().map(|s| (s.beg, s.len));
                (v, e, again, e2, m)
            }};
        }
        match $k {
            0 => go!(rec_parser),
            1 => go!(rec_parser_sync),
            2 => go!(RecParser::build),
            3 => go!(RecParserSync::build_with),
            _ => go!(<RecParserSync as RecursiveParserSync<'_, $ctx<'_>>>::build),
        }
    }};
}
use neure::ctx::Match;

type Got<V> = (Option<V>, usize, Option<V>, usize, Option<(usize, usize)>);
fn judge<V: PartialEq + std::fmt::Debug>(what: &str, got: Got<V>, want: &Option<(V, usize)>, at: usize, text: &[u8], what_match: bool) -> Res {
    let (v, e, again, e2, m) = got;
    let on = || format!("{what} on {:?} from {at}", String::from_utf8_lossy(text));
    ensure_eq!(v.as_ref(), want.as_ref().map(|w| &w.0), "parsed tree, {}", on());
    ensure_eq!(e, want.as_ref().map(|w| w.1).unwrap_or(at), "position, {}", on());
    ensure!(again == v && e2 == e, "a second parse differs: {again:?} at {e2} instead of {v:?} at {e}, {}", on());
    // (conversions that fail have no say in matching)
    if what_match {
        ensure_eq!(m, want.as_ref().map(|w| (at, w.1 - at)), "match, {}", on());
    }
    Ok(())
}
fn json(c: &mut Case) -> Res {
    let s = &mut c.src;
    let o = Opts { strict: s.chance(1, 3), min: if s.chance(1, 4) { s.range(1, 2) } else { 0 } };
    let deep = s.chance(1, 6);
    let mut budget = s.range(3, 40) as i32;
    let d = s.range(1, 7);
    let mut tree = gen_top(s, d, &mut budget);
    if deep {
        for _ in 0..s.range(10, 150) {
            tree = if s.bool() { J::Arr(vec![tree]) } else { J::Obj(vec![(b"k".to_vec(), tree)]) };
        }
    }
    let sp = s.bool();
    let pre = if s.chance(1, 4) { s.range(1, 3) } else { 0 };
    let mut doc = vec![b'#'; pre];
    print(s, &tree, o, sp, &mut doc);
    let end = doc.len();
    if s.chance(1, 4) {
        doc.extend(*s.pick(&[b"]", b"}", b" ", b",", b"["]));
    }
    let broken = s.chance(3, 5);
    if broken {
        let mut t = doc.split_off(pre);
        corrupt(s, &mut t);
        doc.extend(t);
    }
    let helpers = [s.u(5), s.u(5)];
    let text = s.bool();
    c.dump(|| {
        format!("{} pre={pre} {o:?} helpers={helpers:?} text={text}", String::from_utf8_lossy(&doc).escape_debug())
    });
    let want = Rd { s: &doc, o }.top(pre);
    if !broken {
        ensure!(o.min > 0 || want.as_ref() == Some(&(tree.clone(), end)), "harness: the reference parser does not accept {:?}", want);
    }
    for k in helpers {
        vcore::ticks_reset(200_000 + 2000 * doc.len() as u64);
        judge(HELPERS[k], parse_with!(k, BytesCtx, &doc, pre, |r| bytes_json(r, o)), &want, pre, &doc, true)?;
        c.comparisons += 4;
        if let (true, Ok(t)) = (text, std::str::from_utf8(&doc)) {
            judge(HELPERS[k], parse_with!(k, CharsCtx, t, pre, |r| text_json(r, o)), &want, pre, &doc, true)?;
            c.comparisons += 4;
        }
    }
    c.label(if want.is_some() { "accepted" } else { "rejected" });
    c.label_if(broken, "corrupted");
    c.label_if(deep, "deep");
    c.nontrivial = broken || budget < 30;
    Ok(())
}

// ------------------------------------------------------------------ arithmetic
#[derive(Clone, Debug, PartialEq)]
enum X {
    N(u64),
    Neg(Box<X>),
    Bin(Box<X>, char, Box<X>),
}
type Tail = Vec<(char, X)>;
fn fold((first, rest): (X, Tail)) -> X {
    rest.into_iter().fold(first, |a, (o, b)| X::Bin(Box::new(a), o, Box::new(b)))
}
fn one(s: &str) -> char {
    s.chars().next().unwrap()
}
fn expr<'a, R>(r: R) -> impl Ctor<CharsCtx<'a>, X, Extract<&'a str>> + Send + Sync
where
    R: Ctor<CharsCtx<'a>, X, Extract<&'a str>> + Clone + Send + Sync,
{
    let num = char::is_ascii_digit.many1().try_map(|v: &str| v.parse::<u64>().map(X::N).map_err(|_| Error::FromStr));
    let paren = r.clone().enclose("(", ")");
    let neg = paren.clone_or(r);
    let factor = CtorIntoHelper::<CharsCtx<'a>>::into_arc(num.or(neg));
    let op = |a: char, b: char| a.or(b).once().map(|v: &str| one(v));
    let term = factor.clone().then(op('*', '/').then(factor).repeat(0..)).map(fold);
    let term = CtorIntoHelper::<CharsCtx<'a>>::into_arc(term);
    term.clone().then(op('+', '-').then(term).repeat(0..)).map(fold)
}
trait CloneOr<'a>: Sized {
    fn clone_or<R>(self, r: R) -> impl Ctor<CharsCtx<'a>, X, Extract<&'a str>> + Send + Sync
    where
        R: Ctor<CharsCtx<'a>, X, Extract<&'a str>> + Clone + Send + Sync;
}
impl<'a, P> CloneOr<'a> for P
where
    P: Ctor<CharsCtx<'a>, X, Extract<&'a str>> + Send + Sync,
{
    /// a parenthesis, or a minus in front of one
    fn clone_or<R>(self, r: R) -> impl Ctor<CharsCtx<'a>, X, Extract<&'a str>> + Send + Sync
    where
        R: Ctor<CharsCtx<'a>, X, Extract<&'a str>> + Clone + Send + Sync,
    {
        self.or(r.enclose("(", ")").prefix("-").map(|x: X| X::Neg(Box::new(x))))
    }
}
struct Xp<'x>(&'x [u8]);
impl Xp<'_> {
    fn at(&self, i: usize, c: u8) -> Option<usize> {
        (self.0.get(i) == Some(&c)).then_some(i + 1)
    }
    fn paren(&self, i: usize) -> Option<(X, usize)> {
        let (x, i) = self.expr(self.at(i, b'(')?)?;
        Some((x, self.at(i, b')')?))
    }
    fn factor(&self, i: usize) -> Option<(X, usize)> {
        let mut j = i;
        while self.0.get(j).is_some_and(|c| c.is_ascii_digit()) {
            j += 1;
        }
        if j > i {
            if let Ok(n) = std::str::from_utf8(&self.0[i..j]).unwrap().parse() {
                return Some((X::N(n), j));
            }
        }
        if let Some(r) = self.paren(i) {
            return Some(r);
        }
        let (x, e) = self.paren(self.at(i, b'-')?)?;
        Some((X::Neg(Box::new(x)), e))
    }
    fn chain(&self, i: usize, ops: &[u8], f: impl Fn(usize) -> Option<(X, usize)>) -> Option<(X, usize)> {
        let (mut x, mut e) = f(i)?;
        while let Some(o) = self.0.get(e).filter(|o| ops.contains(o)) {
            let Some((y, n)) = f(e + 1) else { break };
            x = X::Bin(Box::new(x), *o as char, Box::new(y));
            e = n;
        }
        Some((x, e))
    }
    fn expr(&self, i: usize) -> Option<(X, usize)> {
        self.chain(i, b"+-", |i| self.chain(i, b"*/", |i| self.factor(i)))
    }
}
fn gen_x(s: &mut Src, d: usize) -> X {
    if d == 0 || s.chance(1, 4) {
        return X::N(if s.chance(1, 8) { s.full64() } else { s.below(100) });
    }
    match s.u(5) {
        0 => X::Neg(Box::new(gen_x(s, d - 1))),
        _ => {
            let o = *s.pick(&['+', '-', '*', '/']);
            X::Bin(Box::new(gen_x(s, d - 1)), o, Box::new(gen_x(s, d - 1)))
        }
    }
}
fn print_x(x: &X, prec: u8, out: &mut String) {
    match x {
        X::N(n) => *out += &n.to_string(),
        X::Neg(x) => {
            *out += "-(";
            print_x(x, 0, out);
            out.push(')');
        }
        X::Bin(a, o, b) => {
            let p = if matches!(o, '+' | '-') { 0 } else { 1 };
            let open = p < prec;
            if open {
                out.push('(');
            }
            print_x(a, p, out);
            out.push(*o);
            print_x(b, p + 1, out);
            if open {
                out.push(')');
            }
        }
    }
}
fn arith(c: &mut Case) -> Res {
    let s = &mut c.src;
    let d = s.range(1, 5);
    let mut x = gen_x(s, d);
    if s.chance(1, 8) {
        for _ in 0..s.range(5, 30) {
            x = if s.bool() { X::Neg(Box::new(x)) } else { X::Bin(Box::new(X::N(1)), '-', Box::new(X::Bin(Box::new(X::N(2)), '+', Box::new(x)))) };
        }
    }
    let mut doc = String::new();
    print_x(&x, 0, &mut doc);
    let broken = s.chance(1, 2);
    let mut v = doc.clone().into_bytes();
    if broken {
        for _ in 0..s.range(1, 3) {
            let i = s.u(v.len() + 1);
            match s.u(4) {
                0 if i < v.len() => {
                    v.remove(i);
                }
                1 => v.truncate(i),
                _ => v.insert(i, *s.pick(b"()+-*/09 a")),
            }
        }
    }
    let doc = String::from_utf8(v).unwrap();
    let helpers = [s.u(5), s.u(5)];
    c.dump(|| format!("{doc} helpers={helpers:?}"));
    // a number that does not fit: construction backs up, matching does not
    let big = doc.split(|c: char| !c.is_ascii_digit()).any(|d| !d.is_empty() && d.parse::<u64>().is_err());
    let want = Xp(doc.as_bytes()).expr(0);
    if !broken {
        ensure!(want.as_ref() == Some(&(x, doc.len())), "harness: the reference parser reads {want:?}");
    }
    for k in helpers {
        vcore::ticks_reset(50_000_000);
        judge(HELPERS[k], parse_with!(k, CharsCtx, doc.as_str(), 0, |r| expr(r)), &want, 0, doc.as_bytes(), !big)?;
        c.comparisons += 4;
    }
    c.label(if want.is_some() { "accepted" } else { "rejected" });
    c.label_if(broken, "corrupted");
    c.nontrivial = doc.contains('(');
    Ok(())
}

// ------------------------------------------------------------------ elements
#[derive(Clone, Debug, PartialEq)]
enum Xml {
    Element(String, Vec<Xml>),
    Single(String),
}
fn xml<'a, R>(r: R) -> impl Ctor<CharsCtx<'a>, Vec<Xml>, Extract<&'a str>> + Send + Sync
where
    R: Ctor<CharsCtx<'a>, Vec<Xml>, Extract<&'a str>> + Clone + Send + Sync,
{
    let name = || neu::alphabetic().many0().map(|v: &str| v.to_string());
    let open = name().enclose("<", ">");
    let close = name().enclose("</", ">");
    let single = name().enclose("<", "/>").map(Xml::Single);
    let m = |((l, c), r): ((String, Vec<Xml>), String)| if l != r { Err(Error::Uid(0)) } else { Ok(Xml::Element(l, c)) };
    open.then(r).then(close).try_map(m).or(single).repeat(1..)
}
struct Xd<'x>(&'x str, bool);
impl Xd<'_> {
    fn tag(&self, i: usize, a: &str, b: &str) -> Option<(String, usize)> {
        let s = self.0[i..].strip_prefix(a)?;
        let n: String = s.chars().take_while(|c| c.is_alphabetic()).collect();
        s[n.len()..].starts_with(b).then(|| (n.clone(), i + a.len() + n.len() + b.len()))
    }
    fn item(&self, i: usize) -> Option<(Xml, usize)> {
        let whole = || {
            let (l, e) = self.tag(i, "<", ">")?;
            let (v, e) = self.items(e)?;
            let (r, e) = self.tag(e, "</", ">")?;
            (l == r || !self.1).then_some((Xml::Element(l, v), e))
        };
        whole().or_else(|| self.tag(i, "<", "/>").map(|(n, e)| (Xml::Single(n), e)))
    }
    fn items(&self, mut i: usize) -> Option<(Vec<Xml>, usize)> {
        let mut v = vec![];
        while let Some((x, e)) = self.item(i) {
            v.push(x);
            i = e;
        }
        (!v.is_empty()).then_some((v, i))
    }
}
fn gen_xml(s: &mut Src, d: usize) -> Vec<Xml> {
    let name = |s: &mut Src| s.pick(&["a", "b", "ab", "é", "中x"]).to_string();
    (0..s.range(1, 3))
        .map(|_| if d == 0 || s.bool() { Xml::Single(name(s)) } else { Xml::Element(name(s), gen_xml(s, d - 1)) })
        .collect()
}
fn print_xml(v: &[Xml], out: &mut String) {
    for x in v {
        match x {
            Xml::Single(n) => *out += &format!("<{n}/>"),
            Xml::Element(n, v) => {
                *out += &format!("<{n}>");
                print_xml(v, out);
                *out += &format!("</{n}>");
            }
        }
    }
}
fn elements(c: &mut Case) -> Res {
    let s = &mut c.src;
    let d = s.range(1, 5);
    let tree = gen_xml(s, d);
    let mut doc = String::new();
    print_xml(&tree, &mut doc);
    let broken = s.chance(1, 2);
    if broken {
        let mut v: Vec<char> = doc.chars().collect();
        for _ in 0..s.range(1, 3) {
            let i = s.u(v.len() + 1);
            match s.u(4) {
                0 if i < v.len() => {
                    v.remove(i);
                }
                1 if i < v.len() => v[i] = *s.pick(&['a', 'b', '<', '/', '>', 'é']),
                2 => v.truncate(i),
                _ => v.insert(i, *s.pick(&['a', 'b', '<', '/', '>', '0'])),
            }
        }
        doc = v.into_iter().collect();
    }
    let helpers = [s.u(5), s.u(5)];
    c.dump(|| format!("{doc} helpers={helpers:?}"));
    let want = Xd(&doc, true).items(0);
    // mismatched names only matter to construction
    let same = Xd(&doc, false).items(0).map(|x| x.1) == want.as_ref().map(|x| x.1);
    if !broken {
        ensure!(want.as_ref() == Some(&(tree, doc.len())), "harness: the reference parser reads {want:?}");
    }
    for k in helpers {
        vcore::ticks_reset(50_000_000);
        judge(HELPERS[k], parse_with!(k, CharsCtx, doc.as_str(), 0, |r| xml(r)), &want, 0, doc.as_bytes(), same)?;
        c.comparisons += 4;
    }
    c.label(if want.is_some() { "accepted" } else { "rejected" });
    c.label_if(broken, "corrupted");
    c.nontrivial = doc.contains("</");
    Ok(())
}

/// random grammars that refer to themselves, against the reference interpreter
fn grammar(c: &mut Case) -> Res {
    let o = Opt { kinds: ALL, inputs: 4, skip: 2, rec: true, depth: 4, ..BASE };
    agree(o)(c)
}
pub fn check() -> Check {
    Check {
        id: "C17",
        rule: "grammar: input consumed; json: document corrupted or more than a few nodes; arith, elements: the document nests".into(),
        assumptions: vec![
            "references to the grammar sit behind something that consumes input (no left recursion)".into(),
            "nesting depth up to about 150 levels (the parser recurses on the native stack)".into(),
        ],
        subs: vec![
            sub("json", 100_000, 10, json),
            sub("arith", 60_000, 10, arith),
            sub("elements", 60_000, 10, elements),
            sub("grammar", 200_000, 10, grammar),
            sub("long", 4000, 8, |c| crate::reuse::long(c, true)),
        ],
    }
}
