//! C04: element tests against set membership, over every character and every byte.
use neure::neu::{self, CRange, Neu, NeuOp};
use neure::prelude::*;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::ops::Bound;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use vcore::{Case, Check, Res, Src, ensure, sub};

mod staged;

type N<T> = Box<dyn Neu<T>>;

#[derive(Clone, Debug)]
enum X {
    /// literal element, in one of several forms
    Lit(u8, u32),
    /// array / slice / vector
    Set(u8, Vec<u32>),
    /// form, start, end
    Range(u8, Bd, Bd),
    Class(u8, usize),
    Digit(u8, u32),
    Always(u8),
    Never(u8),
    Fun(u8, u32, u32),
    Not(u8, Box<X>),
    And(u8, Box<X>, Box<X>),
    Or(u8, Box<X>, Box<X>),
    Wrap(u8, Box<X>),
}
#[derive(Clone, Copy, Debug)]
enum Bd {
    In(u32),
    Ex(u32),
    Un,
}

trait El: Copy + PartialEq + PartialOrd + Debug + Send + Sync + 'static {
    const TEXT: bool;
    fn of(c: u32) -> Self;
    fn code(self) -> u32;
    fn lit(self) -> N<Self>;
    fn digit(form: u8, radix: u32) -> N<Self>;
    fn classes() -> &'static [(&'static str, fn(u8) -> N<Self>, fn(Self) -> bool)];
    fn once(x: N<Self>, e: Self) -> Option<usize>;
    fn fnitem(&self) -> bool;
    fn universe() -> Box<dyn Iterator<Item = Self>>;
    fn len(self) -> usize;
    fn from_crange(form: u8, a: Self, b: Self) -> N<Self>;
}
fn b<T, U: Neu<T> + 'static>(u: U) -> N<T> {
    Box::new(u)
}
/// a unit as itself, negated twice by the operator, in a cell, in a mutex, cloned
macro_rules! forms {
    ($form:expr, $e:expr) => {
        match $form % 7 {
            0 => b($e),
            1 => b(NeuOp::not(!$e)),
            2 => b(Cell::new($e)),
            3 => b(Mutex::new($e)),
            4 => b(RefCell::new($e)),
            5 => b(Arc::new($e)),
            _ => b($e.clone()),
        }
    };
}
macro_rules! table {
    ($t:ty; $($name:literal, $u:expr, |$x:ident| $m:expr;)*) => {
        &[$(($name, (|f: u8| -> N<$t> { forms!(f, $u) }) as fn(u8) -> N<$t>, (|$x: $t| -> bool { $m }) as fn($t) -> bool),)*]
    };
}
macro_rules! cranges {
    ($form:expr, $a:expr, $b:expr) => {{
        let (a, z) = ($a, $b);
        match $form % 4 {
            0 => b(neu::range(core::range::Range::from(a..z))),
            1 => b(!neu::range(core::range::RangeFrom::from(a..))),
            2 => b(neu::range(core::range::RangeInclusive::from(a..=z))),
            _ => b(neu::range(core::range::RangeToInclusive { last: z })),
        }
    }};
}
impl El for char {
    const TEXT: bool = true;
    fn of(c: u32) -> Self {
        char::from_u32(c).unwrap_or('\u{fffd}')
    }
    fn code(self) -> u32 {
        self as u32
    }
    fn lit(self) -> N<Self> {
        b(self)
    }
    fn digit(f: u8, radix: u32) -> N<Self> {
        forms!(f, neu::digit(radix))
    }
    fn classes() -> &'static [(&'static str, fn(u8) -> N<Self>, fn(Self) -> bool)] {
        table!(char;
            "alphabetic", neu::alphabetic(), |c| c.is_alphabetic();
            "alphanumeric", neu::alphanumeric(), |c| c.is_alphanumeric();
            "ascii", neu::ascii::<char>(), |c| c.is_ascii();
            "ascii_alphabetic", neu::ascii_alphabetic::<char>(), |c| c.is_ascii_alphabetic();
            "ascii_alphanumeric", neu::ascii_alphanumeric::<char>(), |c| c.is_ascii_alphanumeric();
            "ascii_control", neu::ascii_control::<char>(), |c| c.is_ascii_control();
            "ascii_digit", neu::ascii_digit::<char>(), |c| c.is_ascii_digit();
            "ascii_graphic", neu::ascii_graphic::<char>(), |c| c.is_ascii_graphic();
            "ascii_hexdigit", neu::ascii_hexdigit::<char>(), |c| c.is_ascii_hexdigit();
            "ascii_lowercase", neu::ascii_lowercase::<char>(), |c| c.is_ascii_lowercase();
            "ascii_punctuation", neu::ascii_punctuation::<char>(), |c| c.is_ascii_punctuation();
            "ascii_uppercase", neu::ascii_uppercase::<char>(), |c| c.is_ascii_uppercase();
            "ascii_whitespace", neu::ascii_whitespace::<char>(), |c| c.is_ascii_whitespace();
            "control", neu::control(), |c| c.is_control();
            "lowercase", neu::lowercase(), |c| c.is_lowercase();
            "numeric", neu::numeric(), |c| c.is_numeric();
            "uppercase", neu::uppercase(), |c| c.is_uppercase();
            "whitespace", neu::whitespace(), |c| c.is_whitespace();
            "wild", neu::wild(), |c| c != '\n';
            "word", neu::word::<char>(), |c| c.is_ascii_alphanumeric() || c == '_';
        )
    }
    fn once(x: N<Self>, e: Self) -> Option<usize> {
        let mut s = String::new();
        s.push(e);
        CharsCtx::new(&s).try_mat(&x.once()).ok().map(|s| s.beg + s.len)
    }
    fn fnitem(&self) -> bool {
        *self as u32 % 3 == 1
    }
    fn universe() -> Box<dyn Iterator<Item = Self>> {
        Box::new('\0'..=char::MAX)
    }
    fn len(self) -> usize {
        self.len_utf8()
    }
    fn from_crange(form: u8, a: Self, z: Self) -> N<Self> {
        cranges!(form, a, z)
    }
}
impl El for u8 {
    const TEXT: bool = false;
    fn of(c: u32) -> Self {
        c as u8
    }
    fn code(self) -> u32 {
        self as u32
    }
    fn lit(self) -> N<Self> {
        b(self)
    }
    fn digit(_: u8, _: u32) -> N<Self> {
        unreachable!()
    }
    fn classes() -> &'static [(&'static str, fn(u8) -> N<Self>, fn(Self) -> bool)] {
        table!(u8;
            "ascii", neu::ascii::<u8>(), |c| c.is_ascii();
            "ascii_alphabetic", neu::ascii_alphabetic::<u8>(), |c| c.is_ascii_alphabetic();
            "ascii_alphanumeric", neu::ascii_alphanumeric::<u8>(), |c| c.is_ascii_alphanumeric();
            "ascii_control", neu::ascii_control::<u8>(), |c| c.is_ascii_control();
            "ascii_digit", neu::ascii_digit::<u8>(), |c| c.is_ascii_digit();
            "ascii_graphic", neu::ascii_graphic::<u8>(), |c| c.is_ascii_graphic();
            "ascii_hexdigit", neu::ascii_hexdigit::<u8>(), |c| c.is_ascii_hexdigit();
            "ascii_lowercase", neu::ascii_lowercase::<u8>(), |c| c.is_ascii_lowercase();
            "ascii_punctuation", neu::ascii_punctuation::<u8>(), |c| c.is_ascii_punctuation();
            "ascii_uppercase", neu::ascii_uppercase::<u8>(), |c| c.is_ascii_uppercase();
            "ascii_whitespace", neu::ascii_whitespace::<u8>(), |c| c.is_ascii_whitespace();
            "word", neu::word::<u8>(), |c| c.is_ascii_alphanumeric() || c == b'_';
        )
    }
    fn once(x: N<Self>, e: Self) -> Option<usize> {
        let s = [e];
        BytesCtx::new(&s).try_mat(&x.once()).ok().map(|s| s.beg + s.len)
    }
    fn fnitem(&self) -> bool {
        *self as u32 % 3 == 1
    }
    fn universe() -> Box<dyn Iterator<Item = Self>> {
        Box::new(0..=255)
    }
    fn len(self) -> usize {
        1
    }
    fn from_crange(form: u8, a: Self, z: Self) -> N<Self> {
        cranges!(form, a, z)
    }
}
/// forms that borrow their elements; the neure value is made on every use
struct Borrowed<T>(u8, Vec<T>, Bound<T>, Bound<T>);
impl<T: El> Neu<T> for Borrowed<T> {
    fn is_match(&self, x: &T) -> bool {
        match (self.0, &self.2, &self.3) {
            (0, ..) => self.1.as_slice().is_match(x),
            (1, Bound::Included(a), Bound::Excluded(z)) => (a..z).is_match(x),
            (1, Bound::Included(a), Bound::Unbounded) => (a..).is_match(x),
            (1, Bound::Included(a), Bound::Included(z)) => (a..=z).is_match(x),
            (1, Bound::Unbounded, Bound::Excluded(z)) => (..z).is_match(x),
            (1, Bound::Unbounded, Bound::Included(z)) => (..=z).is_match(x),
            (_, a, z) => {
                let r: (Bound<&T>, Bound<&T>) = (a.as_ref(), z.as_ref());
                Neu::is_match(&r, x)
            }
        }
    }
    fn min_length(&self) -> usize {
        match (self.0, &self.2, &self.3) {
            (0, ..) => self.1.as_slice().min_length(),
            (1, Bound::Included(a), Bound::Excluded(z)) => Neu::<T>::min_length(&(a..z)),
            (1, Bound::Included(a), Bound::Included(z)) => Neu::<T>::min_length(&(a..=z)),
            (_, a, z) => {
                let r: (Bound<&T>, Bound<&T>) = (a.as_ref(), z.as_ref());
                Neu::<T>::min_length(&r)
            }
        }
    }
}
fn fun<T: El>(m: u32, r: u32) -> impl Fn(&T) -> bool + Copy + 'static {
    move |x: &T| x.code() % m == r
}
fn build<T: El>(x: &X) -> N<T> {
    match x {
        X::Lit(f, c) => {
            let e = T::of(*c);
            match f % 6 {
                0 => e.lit(),
                1 => b(neu::equal(e)),
                2 => b([e]),
                3 => b(Cell::new(neu::equal(e))),
                4 => b(Mutex::new(neu::equal(e))),
                _ => b(NeuOp::not(!neu::equal(e))),
            }
        }
        X::Set(f, v) => {
            let v: Vec<T> = v.iter().map(|c| T::of(*c)).collect();
            match (f % 4, v.len()) {
                (0, 0) => b([] as [T; 0]),
                (0, 1) => b([v[0]]),
                (0, 2) => b([v[0], v[1]]),
                (0, 3) => b([v[0], v[1], v[2]]),
                (0, 4) => b([v[0], v[1], v[2], v[3]]),
                (0, 5) => b([v[0], v[1], v[2], v[3], v[4]]),
                (1, _) => b(Borrowed(0, v, Bound::Unbounded, Bound::Unbounded)),
                (2, _) => b(Rc::new(v)),
                _ => b(v),
            }
        }
        X::Range(f, lo, hi) => {
            let bd = |x: &Bd| match x {
                Bd::In(c) => Bound::Included(T::of(*c)),
                Bd::Ex(c) => Bound::Excluded(T::of(*c)),
                Bd::Un => Bound::Unbounded,
            };
            let (l, h) = (bd(lo), bd(hi));
            match f % 6 {
                0 => b((l, h)),
                1 => b(Borrowed(1, vec![], l, h)),
                2 => b(CRange::new(l, h)),
                3 => b(NeuOp::not(!neu::range((l, h)))),
                4 => match (l, h) {
                    (Bound::Included(a), Bound::Excluded(z)) => b(a..z),
                    (Bound::Included(a), Bound::Included(z)) => b(a..=z),
                    (Bound::Included(a), Bound::Unbounded) => b(a..),
                    (Bound::Unbounded, Bound::Excluded(z)) => b(..z),
                    (Bound::Unbounded, Bound::Included(z)) => b(..=z),
                    (Bound::Unbounded, Bound::Unbounded) => b(..),
                    (l, h) => b(CRange::clone_from((l, h))),
                },
                _ => match (l, h) {
                    (Bound::Included(a), Bound::Excluded(z)) if *f >= 128 => T::from_crange(0, a, z),
                    (Bound::Included(a), Bound::Included(z)) if *f >= 128 => T::from_crange(2, a, z),
                    (Bound::Included(a), Bound::Unbounded) if *f >= 128 => b(NeuOp::not(T::from_crange(1, a, a))),
                    (Bound::Unbounded, Bound::Included(z)) if *f >= 128 => T::from_crange(3, z, z),
                    (Bound::Included(a), Bound::Excluded(z)) => b(neu::range(a..z)),
                    (Bound::Included(a), Bound::Included(z)) => b(neu::range(a..=z)),
                    (Bound::Included(a), Bound::Unbounded) => b(neu::range(a..)),
                    (Bound::Unbounded, Bound::Excluded(z)) => b(neu::range(..z)),
                    (Bound::Unbounded, Bound::Included(z)) => b(neu::range(..=z)),
                    (Bound::Unbounded, Bound::Unbounded) => b(neu::range::<T>(..)),
                    (l, h) => b(Borrowed(2, vec![], l, h)),
                },
            }
        }
        X::Class(f, i) => T::classes()[*i % T::classes().len()].1(*f),
        X::Digit(f, r) => {
            if T::TEXT {
                T::digit(*f, *r)
            } else {
                b(neu::never::<T>())
            }
        }
        X::Always(f) => match f % 3 {
            0 => b(neu::always::<T>()),
            1 => b(!neu::never::<T>()),
            _ => b(neu::always::<T>().clone()),
        },
        X::Never(f) => match f % 3 {
            0 => b(neu::never::<T>()),
            1 => b(!neu::always::<T>()),
            _ => b(neu::never::<T>().clone()),
        },
        X::Fun(f, m, r) => match f % 3 {
            0 => b(fun::<T>(*m, *r)),
            1 if (*m, *r) == (3, 1) => b(T::fnitem),
            _ => b(Cell::new(fun::<T>(*m, *r))),
        },
        X::Not(f, x) => {
            let u = build::<T>(x);
            match f % 4 {
                0 => b(NeuOp::not(u)),
                1 => b(neu::not(u)),
                2 => {
                    let mut n: neu::Not<N<T>, T> = neu::not(b(neu::always::<T>()) as N<T>);
                    n.set_unit(u);
                    b(n)
                }
                _ => {
                    let mut n: neu::Not<N<T>, T> = neu::not(b(neu::always::<T>()) as N<T>);
                    *n.unit_mut() = u;
                    b(n)
                }
            }
        }
        X::And(f, l, r) => {
            let (l, r) = (build::<T>(l), build::<T>(r));
            match f % 4 {
                0 => b(l.and(r)),
                1 => b(neu::and(l, r)),
                2 => b(NeuOp::not(!l.and(r))),
                _ => {
                    let mut n: neu::And<N<T>, N<T>, T> = neu::and(b(neu::never::<T>()) as N<T>, b(neu::never::<T>()) as N<T>);
                    n.set_left(l).set_right(r);
                    b(n)
                }
            }
        }
        X::Or(f, l, r) => {
            let (l, r) = (build::<T>(l), build::<T>(r));
            match f % 4 {
                0 => b(l.or(r)),
                1 => b(neu::or(l, r)),
                2 => b(NeuOp::not(!l.or(r))),
                _ => {
                    let mut n: neu::Or<N<T>, N<T>, T> = neu::or(b(neu::never::<T>()) as N<T>, b(neu::never::<T>()) as N<T>);
                    n.set_left(l).set_right(r);
                    b(n)
                }
            }
        }
        X::Wrap(f, x) => {
            let u = build::<T>(x);
            match f % 6 {
                0 => b(RefCell::new(u)),
                1 => b(Rc::new(u)),
                2 => b(Arc::new(u)),
                3 => {
                    let r: Rc<dyn Neu<T>> = Rc::new(u);
                    b(r)
                }
                4 => {
                    let r: Arc<dyn Neu<T>> = Arc::new(u);
                    b(r)
                }
                _ => b(u),
            }
        }
    }
}
fn member<T: El>(x: &X, e: T) -> bool {
    let c = e.code();
    match x {
        X::Lit(_, l) => T::of(*l).code() == c,
        X::Set(_, v) => v.iter().any(|l| T::of(*l).code() == c),
        X::Range(_, l, h) => {
            let a = match l {
                Bd::In(l) => c >= T::of(*l).code(),
                Bd::Ex(l) => c > T::of(*l).code(),
                Bd::Un => true,
            };
            let z = match h {
                Bd::In(h) => c <= T::of(*h).code(),
                Bd::Ex(h) => c < T::of(*h).code(),
                Bd::Un => true,
            };
            a && z
        }
        X::Class(_, i) => T::classes()[*i % T::classes().len()].2(e),
        X::Digit(_, r) => T::TEXT && char::from_u32(c).unwrap().is_digit(*r),
        X::Always(_) => true,
        X::Never(_) => false,
        X::Fun(_, m, r) => c % m == *r,
        X::Not(_, x) => !member(x, e),
        X::And(_, l, r) => member(l, e) & member(r, e),
        X::Or(_, l, r) => member(l, e) | member(r, e),
        X::Wrap(_, x) => member(x, e),
    }
}
const EDGES: [u32; 40] = [
    0, 9, 0xa, 0xb, 0xc, 0xd, 0x1f, 0x20, b'/' as u32, b'0' as u32, b'9' as u32, b':' as u32, b'@' as u32, b'A' as u32, b'F' as u32,
    b'Z' as u32, b'[' as u32, b'_' as u32, b'`' as u32, b'a' as u32, b'f' as u32, b'z' as u32, b'{' as u32, 0x7e, 0x7f, 0x80, 0x85,
    0xa0, 0xff, 0x100, 0x7ff, 0x800, 0x3000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x1_0000, 0x10_fffe, 0x10_ffff,
];
fn code(s: &mut Src, text: bool) -> u32 {
    let c = match s.weighted(&[4, 3, 2]) {
        0 => s.range(0x20, 0x7e) as u32,
        1 => EDGES[s.u(EDGES.len())],
        _ => s.below(0x11_0000) as u32,
    };
    if text { char::of(c) as u32 } else { c & 0xff }
}
fn gen_x(s: &mut Src, d: usize, text: bool) -> X {
    let f = s.u(256) as u8;
    let deep = if d > 0 { 1 } else { 0 };
    match s.weighted(&[4, 4, 7, 5, if text { 2 } else { 0 }, 1, 1, 2, 4 * deep, 4 * deep, 5 * deep, 3 * deep]) {
        0 => X::Lit(f, code(s, text)),
        1 => {
            let n = s.range(0, 6);
            X::Set(f, (0..n).map(|_| code(s, text)).collect())
        }
        2 => {
            let a = code(s, text);
            let z = if s.chance(1, 4) { a.saturating_add(s.range(0, 3) as u32) } else { code(s, text) };
            let z = if text { char::of(z) as u32 } else { z & 0xff };
            let (a, z) = if a <= z || s.chance(1, 10) { (a, z) } else { (z, a) };
            let l = [Bd::In(a), Bd::Ex(a), Bd::Un][s.weighted(&[5, 2, 2])];
            let h = [Bd::In(z), Bd::Ex(z), Bd::Un][s.weighted(&[4, 4, 2])];
            X::Range(f, l, h)
        }
        3 => X::Class(f, s.u(60)),
        4 => X::Digit(f, s.range(2, 36) as u32),
        5 => X::Always(f),
        6 => X::Never(f),
        7 => {
            let m = s.range(2, 5) as u32;
            X::Fun(f, m, s.below(m as u64) as u32)
        }
        8 => X::Not(f, Box::new(gen_x(s, d - 1, text))),
        9 => X::And(f, Box::new(gen_x(s, d - 1, text)), Box::new(gen_x(s, d - 1, text))),
        10 => X::Or(f, Box::new(gen_x(s, d - 1, text)), Box::new(gen_x(s, d - 1, text))),
        _ => X::Wrap(f, Box::new(gen_x(s, d - 1, text))),
    }
}
fn consts(x: &X, out: &mut Vec<u32>) {
    let mut bd = |b: &Bd| {
        if let Bd::In(c) | Bd::Ex(c) = b {
            out.push(*c)
        }
    };
    match x {
        X::Lit(_, c) => out.push(*c),
        X::Set(_, v) => out.extend(v),
        X::Range(_, a, z) => {
            bd(a);
            bd(z)
        }
        X::Not(_, x) | X::Wrap(_, x) => consts(x, out),
        X::And(_, l, r) | X::Or(_, l, r) => {
            consts(l, out);
            consts(r, out)
        }
        _ => {}
    }
}
fn one<T: El>(c: &mut Case, x: &X, u: &N<T>, e: T) -> Result<bool, String> {
    let m = member(x, e);
    c.comparisons += 1;
    ensure!(u.is_match(&e) == m, "{e:?}: accepted {}, member {m}", !m);
    Ok(m)
}
fn exhaustive<T: El>(c: &mut Case) -> Res {
    let x = gen_x(&mut c.src, 3, T::TEXT);
    c.dump(|| format!("{} {x:?}", if T::TEXT { "text" } else { "bytes" }));
    let u = build::<T>(&x);
    let (mut y, mut n) = (0, 0);
    for e in T::universe() {
        if one(c, &x, &u, e)? { y += 1 } else { n += 1 }
    }
    c.nontrivial = y > 0 && n > 0;
    c.label(if T::TEXT { "text" } else { "bytes" });
    Ok(())
}
fn points<T: El>(c: &mut Case) -> Res {
    let x = gen_x(&mut c.src, 4, T::TEXT);
    let mut p = vec![];
    consts(&x, &mut p);
    let k = p.len();
    for i in 0..k {
        p.push(p[i].wrapping_sub(1));
        p.push(p[i] + 1);
    }
    for _ in 0..24 {
        p.push(code(&mut c.src, T::TEXT));
    }
    c.dump(|| format!("{} {x:?}", if T::TEXT { "text" } else { "bytes" }));
    let u = build::<T>(&x);
    let (mut y, mut n) = (0, 0);
    let pick = c.src.u(p.len());
    for (i, q) in p.iter().enumerate() {
        if T::TEXT && char::from_u32(*q).is_none() || !T::TEXT && *q > 255 {
            continue;
        }
        let e = T::of(*q);
        let m = one(c, &x, &u, e)?;
        if m { y += 1 } else { n += 1 }
        if i == pick {
            // the same test used as a pattern on an input of this element alone
            let got = T::once(build::<T>(&x), e);
            ensure!(got == m.then_some(e.len()), "matched once on {e:?}: {got:?}, member {m}");
        }
    }
    c.nontrivial = y > 0 && n > 0;
    c.label(if T::TEXT { "text" } else { "bytes" });
    Ok(())
}
fn classes<T: El>(c: &mut Case) -> Res {
    for (i, (name, mk, set)) in T::classes().iter().enumerate() {
        let u = mk(i as u8);
        for e in T::universe() {
            c.comparisons += 1;
            ensure!(u.is_match(&e) == set(e), "{name} on {e:?}: accepted {}", !set(e));
        }
    }
    if T::TEXT {
        for r in 2..=36 {
            let u = neu::digit(r);
            for e in char::universe() {
                c.comparisons += 1;
                ensure!(u.is_match(&e) == e.is_digit(r), "digit({r}) on {e:?}");
            }
        }
    }
    Ok(())
}
fn main() {
    vcore::main(vec![Check {
        id: "C04",
        rule: "a case (one generated element test) is non-trivial when it accepts some and rejects some of the elements tried; distinct = distinct choice sequences".into(),
        assumptions: vec![
            "named classes mean the char / u8 method of the standard library they are documented to reference; word is [A-Za-z0-9_], wild is everything but the newline".into(),
            "closures given by the user are pure".into(),
        ],
        subs: vec![
            sub("classes", 1, 1, |c: &mut Case| {
                c.dump(|| "every named class on every character and byte".into());
                classes::<char>(c)?;
                classes::<u8>(c)?;
                c.nontrivial = true;
                Ok(())
            }),
            sub("chars", 1200, 20, exhaustive::<char>),
            sub("bytes", 120_000, 20, exhaustive::<u8>),
            sub("points_chars", 600_000, 20, points::<char>),
            sub("points_bytes", 200_000, 20, points::<u8>),
            sub("staged_chars", 300_000, 20, staged::chars),
            sub("staged_bytes", 200_000, 20, staged::bytes),
        ],
    }])
}
