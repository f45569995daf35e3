//! Pattern language of the generators: one variant per public combinator of neure.
use std::fmt;

/// One element (a char's code point, or a byte).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct E(pub u32);
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match char::from_u32(self.0) {
            Some(c) if (0x21..0x7f).contains(&self.0) => write!(f, "{c}"),
            _ => write!(f, "x{:x}", self.0),
        }
    }
}
pub fn show(v: &[E]) -> String {
    if v.len() > 1200 {
        // a long run of a short segment: say it that way
        for k in 1..=3 {
            let run = |i: usize| (i + k..v.len()).take_while(|j| v[*j] == v[*j - k]).count() + k;
            if let Some((i, n)) = (0..40).map(|i| (i, run(i) / k)).find(|x| x.1 > 100) {
                return format!("{} + {} times {} + {}", show(&v[..i]), n, show(&v[i..i + k]), show(&v[i + n * k..]));
            }
        }
    }
    let mut s = String::from("\"");
    for e in v {
        match char::from_u32(e.0) {
            Some(c) if (0x20..0x7f).contains(&e.0) => s.push(c),
            _ => s.push_str(&format!("{{{:x}}}", e.0)),
        }
    }
    s.push('"');
    s
}

#[derive(Clone, Debug, PartialEq)]
pub enum U {
    Eq(E),
    Set(Vec<E>),
    /// inclusive bounds as offered by every range form
    Range(RangeForm, E, E),
    Class(Class),
    Not(Box<U>),
    And(Box<U>, Box<U>),
    Or(Box<U>, Box<U>),
    Always,
    Never,
    /// closure: code % m == r
    Fun(u32, u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RangeForm {
    Half,      // lo..hi
    Incl,      // lo..=hi
    From,      // lo..
    To,        // ..hi
    ToIncl,    // ..=hi
    Full,      // ..
    BoundExIn, // (Excluded lo, Included hi)
    BoundInEx,
    CRange, // range(lo..=hi)
}
pub const RANGE_FORMS: [RangeForm; 9] = [
    RangeForm::Half,
    RangeForm::Incl,
    RangeForm::From,
    RangeForm::To,
    RangeForm::ToIncl,
    RangeForm::Full,
    RangeForm::BoundExIn,
    RangeForm::BoundInEx,
    RangeForm::CRange,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Alphabetic,
    Alphanumeric,
    Control,
    Digit10,
    Lowercase,
    Numeric,
    Uppercase,
    WhiteSpace,
    Wild,
    Word,
    Ascii,
    AAlpha,
    AAlnum,
    AControl,
    ADigit,
    AGraphic,
    AHex,
    ALower,
    APunct,
    AUpper,
    AWs,
}
/// classes available for chars; the ones from `Word` on are available for bytes too
pub const CLASSES: [Class; 21] = [
    Class::Alphabetic,
    Class::Alphanumeric,
    Class::Control,
    Class::Digit10,
    Class::Lowercase,
    Class::Numeric,
    Class::Uppercase,
    Class::WhiteSpace,
    Class::Wild,
    Class::Word,
    Class::Ascii,
    Class::AAlpha,
    Class::AAlnum,
    Class::AControl,
    Class::ADigit,
    Class::AGraphic,
    Class::AHex,
    Class::ALower,
    Class::APunct,
    Class::AUpper,
    Class::AWs,
];
pub const BYTE_CLASSES_FROM: usize = 9;

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    None,
    Const(bool),
    /// relative offset < k
    RelBelow(usize),
    /// (ctx.offset() + relative offset) % m == r
    AbsMod(usize, usize),
    /// element code % m == r
    Code(u32, u32),
    /// the element after this one equals e (looked up through the context)
    Next(E),
    /// regex_cond(pattern)
    Rx(Box<P>),
    /// Err when the element equals e, else true
    ErrIf(E),
    /// Err at the relative offset k and beyond, else true
    ErrFrom(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bd {
    pub lo: usize,
    pub hi: Option<usize>,
    pub form: u8,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AK {
    Not,
    Peek,
    With(bool),
    OpNot,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MK {
    Array,
    Slice,
    Vector,
    PairArray,
    PairSlice,
    PairVector,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Clo {
    /// takes exactly n elements or fails
    Take(usize),
    /// takes one element equal to e, or moves on and fails without restoring
    Dirty(E),
    /// succeeds without consuming
    Nothing,
    /// always fails
    Fail,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BT {
    Const(bool),
    AbsMod(usize, usize),
    NextIs(E),
    ErrIf(E),
    ErrMod(usize, usize),
    /// reports an error where nothing is left
    ErrEnd,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Dyn {
    pub alts: Vec<P>,
    /// 0: alternative number len % n; 1: the same text again
    pub rule: u8,
    /// builder function fails when len % m == m-1 (0: never)
    pub err_mod: usize,
    /// the builder function moves the cursor before failing
    pub dirty: bool,
    /// the builder function moves the cursor: 1 back to where the announcing part began (matching only), 2 one element ahead
    pub mv: u8,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct MapR {
    pub tag: u32,
    /// fails when vhash % m == 0 (0: never)
    pub fail: u64,
}
pub type B = Box<P>;
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Once(U, Cond),
    OptU(U, Cond),
    Many0(U, Cond),
    Many1(U, Cond),
    /// index in BETWEENS
    Between(usize, U, Cond),
    Times(Bd, U, Cond),
    ThenU(U, U, Cond),
    Lit(Vec<E>),
    /// the whole grammar again (recursion helpers)
    Hole,
    Start,
    End,
    Empty,
    Fail,
    Unit,
    Consume(usize),
    ConsumeAll,
    Clo(Clo),
    Assert(AK, B),
    Pat(B),
    AsCtor(B),
    DynRe(B, Dyn),
    Opt(B),
    Or(B, B),
    Ltm(B, B),
    Then(B, B),
    IfThen(B, B, B),
    Prefix(B, B),
    Suffix(B, B),
    Enclose(B, B, B),
    SepOnce(B, B, B),
    Sep(B, B, bool, usize),
    Sep2(B, B, bool, usize),
    SepCol(B, B, bool, usize),
    Repeat(B, Bd),
    Repeat2(B, usize),
    Collect(B, usize),
    Branch(BT, B, B),
    Many(MK, bool, Vec<P>),
    /// _0, _1, _eq of Then / IfThen / SepOnce / DynCtor
    Sel(u8, B),
    Map(B, MapR),
    DynCtor(B, Dyn),
    /// 0 skip_ws 1 skip_ascii_ws 2 skip_ws_leading 3 skip_ascii_ws_leading
    SkipWs(u8, B),
}
pub const BETWEENS: [(usize, usize); 16] = [
    (0, 0),
    (0, 1),
    (0, 2),
    (0, 3),
    (1, 1),
    (1, 2),
    (1, 3),
    (2, 2),
    (2, 3),
    (2, 4),
    (3, 3),
    (3, 5),
    (0, usize::MAX),
    (1, usize::MAX),
    (2, usize::MAX),
    (3, 1),
];
pub const REP2: [(usize, usize); 10] =
    [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (0, 3), (1, 3), (2, 4), (3, 3)];

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Sp(usize, usize),
    Tx(Vec<u8>),
    Pair(Box<Val>, Box<Val>),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    Arr(Vec<Option<Val>>),
    Tag(u32, Box<Val>),
}
impl PartialEq<Option<Val>> for Val {
    fn eq(&self, o: &Option<Val>) -> bool {
        o.as_ref().is_some_and(|v| v == self)
    }
}
impl Val {
    pub fn hash(&self) -> u64 {
        use vcore::mix;
        match self {
            Val::Unit => 7,
            Val::Sp(a, b) => mix((*a as u64) << 20 ^ *b as u64),
            Val::Tx(t) => t.iter().fold(11, |h, b| mix(h ^ *b as u64)),
            Val::Pair(a, b) => mix(a.hash() ^ mix(b.hash())),
            Val::Opt(None) => 13,
            Val::Opt(Some(v)) => mix(v.hash() ^ 17),
            Val::List(v) => v.iter().fold(19, |h, b| mix(h ^ b.hash())),
            Val::Arr(v) => v.iter().fold(23, |h, b| mix(h ^ b.as_ref().map(|v| v.hash()).unwrap_or(3))),
            Val::Tag(t, v) => mix(v.hash() ^ mix(*t as u64 + 29)),
        }
    }
    /// number of leaves
    pub fn size(&self) -> usize {
        match self {
            Val::Unit | Val::Sp(..) | Val::Tx(_) => 1,
            Val::Pair(a, b) => a.size() + b.size(),
            Val::Opt(v) => v.as_ref().map(|v| v.size()).unwrap_or(0),
            Val::List(v) => v.iter().map(|v| v.size()).sum(),
            Val::Arr(v) => v.iter().flatten().map(|v| v.size()).sum(),
            Val::Tag(_, v) => v.size(),
        }
    }
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a Val>) {
        match self {
            Val::Unit | Val::Sp(..) | Val::Tx(_) => out.push(self),
            Val::Pair(a, b) => {
                a.leaves(out);
                b.leaves(out)
            }
            Val::Opt(v) => {
                if let Some(v) = v {
                    v.leaves(out)
                }
            }
            Val::List(v) => v.iter().for_each(|v| v.leaves(out)),
            Val::Arr(v) => v.iter().flatten().for_each(|v| v.leaves(out)),
            Val::Tag(_, v) => v.leaves(out),
        }
    }
}

/// What the handler does with a leaf span.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct HCfg {
    pub text: bool,
    /// fails when hash(beg,len) % m == 0 (0: never)
    pub fail: u64,
}
pub fn handler_fails(fail: u64, beg: usize, len: usize) -> bool {
    fail != 0 && vcore::mix((beg as u64) << 16 ^ len as u64 ^ 0xabcd) % fail == 0
}

/// Skip rule of a policy context.
#[derive(Clone, Debug, PartialEq)]
pub enum Skip {
    /// any number of elements of the set
    Many(Vec<E>),
    AtMostOne(E),
    /// exactly one e, fails otherwise
    Required(E),
    Empty,
    /// skips e's, then fails (without restoring) when the next element is the second one
    Dirty(E, E),
}
impl Skip {
    pub fn idempotent(&self) -> bool {
        matches!(self, Skip::Many(_) | Skip::Empty)
    }
    pub fn infallible(&self) -> bool {
        matches!(self, Skip::Many(_) | Skip::Empty | Skip::AtMostOne(_))
    }
}
impl P {
    pub fn kids(&self) -> Vec<&P> {
        use P::*;
        fn ck(c: &Cond) -> Vec<&P> {
            if let Cond::Rx(p) = c { vec![p] } else { vec![] }
        }
        match self {
            Once(_, c) | OptU(_, c) | Many0(_, c) | Many1(_, c) | Between(_, _, c) | Times(_, _, c) | ThenU(_, _, c) => {
                ck(c)
            }
            Lit(_) | Hole | Start | End | Empty | Fail | Unit | Consume(_) | ConsumeAll | Clo(_) => vec![],
            Assert(_, p) | Pat(p) | AsCtor(p) | Opt(p) | Repeat(p, _) | Repeat2(p, _) | Collect(p, _) | Sel(_, p)
            | Map(p, _) | SkipWs(_, p) => vec![p],
            DynRe(p, d) | DynCtor(p, d) => {
                let mut v: Vec<&P> = vec![p];
                v.extend(d.alts.iter());
                v
            }
            Or(a, b) | Ltm(a, b) | Then(a, b) | Prefix(a, b) | Suffix(a, b) | Sep(a, b, ..) | Sep2(a, b, ..)
            | SepCol(a, b, ..) | Branch(_, a, b) => vec![a, b],
            IfThen(a, b, c) | Enclose(a, b, c) | SepOnce(a, b, c) => vec![a, b, c],
            Many(_, _, v) => v.iter().collect(),
        }
    }
    pub fn any(&self, f: &dyn Fn(&P) -> bool) -> bool {
        f(self) || self.kids().into_iter().any(|k| k.any(f))
    }
    pub fn nodes(&self) -> usize {
        1 + self.kids().into_iter().map(|k| k.nodes()).sum::<usize>()
    }
    /// may succeed without consuming (over-approximation)
    pub fn nullable(&self) -> bool {
        use P::*;
        match self {
            Once(..) | Many1(..) | ThenU(..) => false,
            OptU(..) | Many0(..) => true,
            Between(i, ..) => BETWEENS[*i].0 == 0,
            Times(b, ..) => b.lo == 0,
            Lit(v) => v.is_empty(),
            Hole | Start | End | Empty | Unit | ConsumeAll => true,
            Fail => false,
            Consume(n) => *n == 0,
            P::Clo(c) => match c {
                self::Clo::Take(n) => *n == 0,
                self::Clo::Dirty(_) | self::Clo::Fail => false,
                self::Clo::Nothing => true,
            },
            Assert(..) | Opt(_) => true,
            Pat(p) | AsCtor(p) | Map(p, _) | Sel(_, p) | SkipWs(_, p) => p.nullable(),
            DynRe(p, d) if d.mv == 1 => p.nullable() || d.alts.iter().any(|a| a.nullable()),
            DynRe(p, d) | DynCtor(p, d) => p.nullable() && (d.rule == 1 || d.alts.iter().any(|a| a.nullable())),
            Or(a, b) | Ltm(a, b) | Branch(_, a, b) => a.nullable() || b.nullable(),
            Then(a, b) | Prefix(a, b) | Suffix(a, b) => a.nullable() && b.nullable(),
            IfThen(a, ..) => a.nullable(),
            Enclose(a, b, c) | SepOnce(a, b, c) => a.nullable() && b.nullable() && c.nullable(),
            Sep(a, _, _, m) | SepCol(a, _, _, m) => *m == 0 || a.nullable(),
            Sep2(a, _, _, i) => REP2[*i].0 == 0 || a.nullable(),
            Repeat(a, b) => b.lo == 0 || a.nullable(),
            Repeat2(a, i) => REP2[*i].0 == 0 || a.nullable(),
            Collect(a, m) => *m == 0 || a.nullable(),
            Many(_, _, v) => v.iter().any(|p| p.nullable()),
        }
    }
    /// matching direction is not implemented by neure for this pattern
    pub fn ctor_only(&self) -> bool {
        self.any(&|p| matches!(p, P::DynCtor(..)))
    }
    pub fn needs_alloc(&self) -> bool {
        self.any(&|p| {
            matches!(
                p,
                P::Sep(..) | P::Repeat(..) | P::Many(MK::Vector, ..) | P::Many(MK::PairVector, ..)
            )
        })
    }
}
