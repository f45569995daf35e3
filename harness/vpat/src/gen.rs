//! Random generation of patterns, inputs and skip rules.
use crate::ast::*;
use crate::model::{Inp, M, unit};
use vcore::Src;

/// Kinds of pattern nodes, used to direct the generator.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Once,
    OptU,
    Many0,
    Many1,
    Between,
    Times,
    ThenU,
    Lit,
    Start,
    End,
    Empty,
    Fail,
    Unit,
    Consume,
    ConsumeAll,
    Closure,
    Assert,
    Pat,
    AsCtor,
    DynRe,
    Opt,
    Or,
    Ltm,
    Then,
    IfThen,
    Prefix,
    Suffix,
    Enclose,
    SepOnce,
    Sep,
    Sep2,
    SepCol,
    Repeat,
    Repeat2,
    Collect,
    Branch,
    ManyAny,
    ManyLtm,
    Sel,
    Map,
    DynCtor,
    SkipWs,
}
use K::*;
const LEAVES: [(K, u32); 16] = [
    (Once, 10),
    (OptU, 3),
    (Many0, 4),
    (Many1, 6),
    (Between, 4),
    (Times, 4),
    (ThenU, 3),
    (Lit, 12),
    (Start, 1),
    (End, 1),
    (Empty, 1),
    (Fail, 1),
    (Unit, 1),
    (Consume, 3),
    (ConsumeAll, 1),
    (Closure, 4),
];
const INNER: [(K, u32); 26] = [
    (Assert, 3),
    (Pat, 2),
    (AsCtor, 2),
    (DynRe, 2),
    (Opt, 5),
    (Or, 7),
    (Ltm, 5),
    (Then, 9),
    (IfThen, 4),
    (Prefix, 4),
    (Suffix, 4),
    (Enclose, 4),
    (SepOnce, 4),
    (Sep, 5),
    (Sep2, 4),
    (SepCol, 4),
    (Repeat, 5),
    (Repeat2, 4),
    (Collect, 4),
    (Branch, 3),
    (ManyAny, 5),
    (ManyLtm, 4),
    (Sel, 4),
    (Map, 3),
    (DynCtor, 2),
    (SkipWs, 2),
];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub text: bool,
    /// patterns whose construction needs the alloc feature
    pub alloc: bool,
    /// fallible conversions
    pub map_fail: bool,
    /// patterns without a matching mode
    pub dyn_ctor: bool,
    /// anything that looks at the absolute position
    pub abs: bool,
    /// user closures that fail after moving
    pub dirty: bool,
    /// builders of dynamic patterns may move the cursor
    pub dyn_moves: bool,
    pub conds: bool,
    pub branch: bool,
    pub depth: usize,
}
impl Cfg {
    pub fn new(text: bool) -> Self {
        Cfg {
            text,
            alloc: true,
            map_fail: false,
            dyn_ctor: false,
            abs: true,
            dirty: true,
            dyn_moves: true,
            conds: true,
            branch: true,
            depth: 3,
        }
    }
}
pub struct G<'s> {
    pub s: &'s mut Src,
    pub c: Cfg,
    pub alpha: Vec<E>,
    hole: Option<P>,
    /// plant references to the whole grammar
    pub rec: bool,
    /// what P::Hole stands for, when sampling
    pub root: Option<P>,
    rdepth: usize,
    budget: i32,
    /// long repetitions were generated
    long: bool,
    /// inputs of tens of thousands of elements
    pub vast: bool,
}
/// sizes around the capacities of small buffers and narrow counters
const HUGE: [usize; 6] = [usize::MAX, usize::MAX / 2, usize::MAX / 3 + 1, usize::MAX / 4 + 1, isize::MAX as usize / 16, 1 << 32];
/// around the widths of small counters
const VAST: [usize; 6] = [65_534, 65_535, 65_536, 65_537, 70_000, 131_073];
const BIG: [usize; 17] = [6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 257];
fn cp(c: char) -> E {
    E(c as u32)
}
const TEXT_POOL: [char; 40] = [
    'a', 'b', 'c', 'x', 'A', 'Z', '0', '1', '9', '_', '-', ',', ';', ' ', '\t', '\n', '\u{0}', '\u{7f}', '\u{80}',
    'é', 'ß', 'Ω', '\u{85}', '\u{2003}', '\u{3000}', '中', '\u{ffff}', '😀', '\u{10ffff}', '٣',
    '\r', '\u{b}', '\u{feff}', '\u{2028}', '\u{301}', 'ǅ', 'ı', '²', '\u{a0}', '\u{fffd}',
];
const BYTE_POOL: [u8; 25] = [
    b'a', b'b', b'c', b'x', b'A', b'Z', b'0', b'1', b'_', b'-', b',', b' ', b'\t', b'\n', 0, 0x7f, 0x80, 0xc3, 0xfe, 0xff, b'\r', 0xb, 0x81, 0xbf, 0xef,
];
const ASCII_POOL: [u8; 17] = [b'a', b'b', b'c', b'x', b'A', b'0', b'1', b'_', b'-', b',', b' ', b'\t', b'\n', 0x7f, b'\r', 0xb, 0];

pub fn alphabet(s: &mut Src, text: bool, ascii: bool) -> Vec<E> {
    let n = s.range(3, 7);
    (0..n)
        .map(|i| {
            if i == 0 {
                return cp('a');
            }
            if ascii {
                E(*s.pick(&ASCII_POOL) as u32)
            } else if text {
                if s.chance(1, 12) {
                    loop {
                        // any character at all
                        let x = s.below(0x11_0000) as u32;
                        if char::from_u32(x).is_some() {
                            break E(x);
                        } else {
                            break E(0xfffd);
                        }
                    }
                } else {
                    cp(*s.pick(&TEXT_POOL))
                }
            } else if s.chance(1, 8) {
                E(s.below(256) as u32)
            } else {
                E(*s.pick(&BYTE_POOL) as u32)
            }
        })
        .collect()
}

impl<'s> G<'s> {
    pub fn new(s: &'s mut Src, c: Cfg, alpha: Vec<E>) -> Self {
        G { s, c, alpha, hole: None, rec: false, root: None, rdepth: 0, budget: 24, long: false, vast: false }
    }
    pub fn el(&mut self) -> E {
        let i = self.s.u(self.alpha.len());
        self.alpha[i]
    }
    pub fn els(&mut self, lo: usize, hi: usize) -> Vec<E> {
        let n = self.s.range(lo, hi);
        (0..n).map(|_| self.el()).collect()
    }
    pub fn range_u(&mut self) -> U {
        let (mut a, mut b) = (self.el(), self.el());
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        U::Range(*self.s.pick(&RANGE_FORMS), a, b)
    }
    pub fn unit(&mut self, d: usize) -> U {
        let k = self.s.weighted(&[8, 8, 5, 4, 2, 1, 1, if d > 0 { 4 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 { 3 } else { 0 }]);
        match k {
            0 => U::Eq(self.el()),
            1 => U::Set(self.els(1, 4)),
            2 => self.range_u(),
            3 => U::Class(*self.s.pick(if self.c.text { &CLASSES[..] } else { &CLASSES[BYTE_CLASSES_FROM..] })),
            4 => {
                let m = self.s.range(2, 5) as u32;
                U::Fun(m, self.s.below(m as u64) as u32)
            }
            5 => U::Always,
            6 => U::Never,
            7 => U::Not(Box::new(self.unit(d - 1))),
            8 => U::And(Box::new(self.unit(d - 1)), Box::new(self.unit(d - 1))),
            _ => U::Or(Box::new(self.unit(d - 1)), Box::new(self.unit(d - 1))),
        }
    }
    fn u(&mut self) -> U {
        self.unit(1)
    }
    pub fn cond(&mut self, always: bool) -> Cond {
        if !self.c.conds || !(always || self.s.chance(1, 6)) {
            return Cond::None;
        }
        match self.s.weighted(&[1, 3, 2, 3, 4, 3, 2]) {
            0 => Cond::Const(self.s.bool()),
            1 => Cond::RelBelow(self.s.range(0, 6)),
            2 => {
                if !self.c.abs {
                    return Cond::Code(2, 1);
                }
                let m = self.s.range(2, 4);
                Cond::AbsMod(m, self.s.u(m))
            }
            3 => {
                let m = self.s.range(2, 3) as u32;
                Cond::Code(m, self.s.below(m as u64) as u32)
            }
            4 => Cond::Next(self.el()),
            5 => {
                let h = self.hole.take();
                let a = self.c.dyn_ctor;
                self.c.dyn_ctor = false;
                let p = self.pat(1);
                self.c.dyn_ctor = a;
                self.hole = h;
                Cond::Rx(Box::new(p))
            }
            _ if self.s.chance(1, 3) => Cond::ErrFrom(self.s.range(0, 4)),
            _ => Cond::ErrIf(self.el()),
        }
    }
    fn min(&mut self) -> usize {
        if self.s.chance(1, 200) {
            return *self.s.pick(&HUGE);
        }
        if self.s.chance(1, 50) {
            self.long = true;
            return *self.s.pick(&BIG);
        }
        self.s.weighted(&[4, 3, 2, 1])
    }
    /// a number of elements to consume
    fn many(&mut self) -> usize {
        if self.s.chance(1, 100) {
            return *self.s.pick(&HUGE);
        }
        if self.vast && self.s.chance(1, 3) {
            return *self.s.pick(&VAST);
        }
        if self.s.chance(1, 40) {
            self.long = true;
            return *self.s.pick(&BIG);
        }
        self.s.weighted(&[1, 3, 3, 1, 1])
    }
    pub fn bd(&mut self) -> Bd {
        if self.s.chance(1, 200) {
            // counts no input can reach
            let h = *self.s.pick(&HUGE);
            let (lo, hi) = [(h, None), (h, Some(h)), (0, Some(h)), (1, Some(h)), (h / 3 + 1, Some(h))][self.s.u(5)];
            return Bd { lo, hi, form: self.s.u(160) as u8 };
        }
        if self.vast && self.s.chance(1, 3) {
            let x = *self.s.pick(&VAST);
            let (lo, hi) = [(x, None), (0, Some(x)), (1, Some(x)), (x, Some(x)), (x - 1, Some(x + 1))][self.s.u(5)];
            return Bd { lo, hi, form: self.s.u(160) as u8 };
        }
        if self.s.chance(1, 40) {
            self.long = true;
            let x = *self.s.pick(&BIG);
            let lo = [x, 0, 1, x / 2][self.s.u(4)];
            let hi = if lo == x && self.s.bool() { None } else { Some([x, x + 1][self.s.u(2)]) };
            return Bd { lo, hi, form: self.s.u(160) as u8 };
        }
        let lo = self.s.weighted(&[3, 3, 3, 1]);
        let hi = if self.s.chance(1, 3) { None } else { Some(lo + self.s.weighted(&[3, 3, 2, 1])) };
        Bd { lo, hi, form: self.s.u(160) as u8 }
    }
    fn leaf(&mut self) -> P {
        let w: Vec<u32> = LEAVES
            .iter()
            .map(|(k, w)| if *k == Start && !self.c.abs { 0 } else { *w })
            .collect();
        let k = LEAVES[self.s.weighted(&w)].0;
        self.node(k, 0, false)
    }
    /// any pattern; `ctor`: at a position that is constructed (not merely matched)
    pub fn any(&mut self, d: usize, ctor: bool) -> P {
        if d == 0 || self.budget <= 0 || self.s.chance(2, 5) {
            return self.leaf();
        }
        let w: Vec<u32> = INNER
            .iter()
            .map(|(k, w)| match k {
                DynCtor if !(self.c.dyn_ctor && ctor) => 0,
                Sep | Repeat if !self.c.alloc => 0,
                Branch if !self.c.branch => 0,
                SkipWs if false => 0,
                _ => *w,
            })
            .collect();
        let k = INNER[self.s.weighted(&w)].0;
        self.node(k, d, ctor)
    }
    pub fn pat(&mut self, d: usize) -> P {
        self.any(d, false)
    }
    /// child in a constructed position
    fn ch(&mut self, d: usize, ctor: bool) -> Box<P> {
        self.budget -= 1;
        if self.rec && self.s.chance(1, 3) {
            return Box::new(self.guarded());
        }
        if self.hole.is_some() && self.s.chance(1, 2) {
            let h = self.hole.as_ref().unwrap();
            if ctor || !h.ctor_only() {
                return Box::new(self.hole.take().unwrap());
            }
        }
        Box::new(self.any(d.saturating_sub(1), ctor))
    }
    fn ch_nn(&mut self, d: usize, ctor: bool) -> Box<P> {
        let p = self.ch(d, ctor);
        if !p.nullable() {
            return p;
        }
        let u = self.u();
        let e = Box::new(P::Once(u, Cond::None));
        Box::new(match self.s.u(3) {
            0 => P::Prefix(p, e),
            1 => P::Suffix(p, e),
            _ => P::Then(e, p),
        })
    }
    /// the whole grammar again, behind something that consumes input
    fn guarded(&mut self) -> P {
        let lit = |g: &mut Self| {
            if g.s.chance(1, 4) {
                let u = g.u();
                Box::new(P::Once(u, Cond::None))
            } else {
                Box::new(P::Lit(g.els(1, 2)))
            }
        };
        let h = Box::new(P::Hole);
        match self.s.u(8) {
            0 | 1 => P::Enclose(h, lit(self), lit(self)),
            2 => P::Then(lit(self), h),
            3 => P::Prefix(h, lit(self)),
            4 => P::SepOnce(lit(self), lit(self), h),
            5 => P::IfThen(lit(self), lit(self), h),
            6 => {
                let (o, s, c) = (lit(self), lit(self), lit(self));
                let min = self.s.u(2);
                if self.c.alloc {
                    P::Enclose(Box::new(P::Sep(h, s, self.s.bool(), min)), o, c)
                } else {
                    P::Enclose(h, o, c)
                }
            }
            _ => P::Then(Box::new(P::Then(lit(self), h.clone())), Box::new(P::Then(lit(self), h))),
        }
    }
    pub fn dy(&mut self, d: usize, ctor: bool) -> Dyn {
        let n = self.s.range(1, 3);
        let rule = self.s.weighted(&[3, 1]) as u8;
        let alts = (0..n).map(|_| *self.ch(d, ctor)).collect();
        let err_mod = if self.s.chance(1, 3) { self.s.range(2, 4) } else { 0 };
        let dirty = self.c.dirty && self.s.bool();
        let mv = if self.c.dyn_moves && self.s.chance(1, 4) { if ctor { 2 } else { self.s.range(1, 2) as u8 } } else { 0 };
        Dyn { alts, rule, err_mod, dirty, mv }
    }
    pub fn node(&mut self, k: K, d: usize, ctor: bool) -> P {
        match k {
            Once => P::Once(self.u(), self.cond(false)),
            OptU => P::OptU(self.u(), self.cond(false)),
            Many0 => P::Many0(self.u(), self.cond(false)),
            Many1 => P::Many1(self.u(), self.cond(false)),
            Between => {
                // 3..=1 (an impossible count) only rarely
                let i = if self.s.chance(1, 30) { 15 } else { self.s.u(15) };
                P::Between(i, self.u(), self.cond(false))
            }
            Times => P::Times(self.bd(), self.u(), self.cond(false)),
            ThenU => P::ThenU(self.u(), self.u(), self.cond(false)),
            Lit => {
                let n = match self.s.weighted(&[40, 240, 200, 120, 25, if self.vast { 0 } else { 5 }]) {
                    4 => self.s.range(4, 20),
                    5 => {
                        self.long = true;
                        *self.s.pick(&BIG)
                    }
                    n => n,
                };
                P::Lit((0..n).map(|_| self.el()).collect())
            }
            Start => P::Start,
            End => P::End,
            Empty => P::Empty,
            Fail => P::Fail,
            Unit => P::Unit,
            Consume => P::Consume(self.many()),
            ConsumeAll => P::ConsumeAll,
            Closure => P::Clo(match self.s.weighted(&[3, if self.c.dirty { 3 } else { 0 }, 1, 1]) {
                0 => crate::ast::Clo::Take(self.s.range(0, 3)),
                1 => crate::ast::Clo::Dirty(self.el()),
                2 => crate::ast::Clo::Nothing,
                _ => crate::ast::Clo::Fail,
            }),
            Assert => {
                let k = [AK::Not, AK::Peek, AK::With(false), AK::With(true), AK::OpNot][self.s.u(5)];
                P::Assert(k, self.ch(d, false))
            }
            Pat => P::Pat(self.ch(d, false)),
            AsCtor => P::AsCtor(self.ch(d, false)),
            DynRe => P::DynRe(self.ch(d, false), self.dy(d, false)),
            Opt => P::Opt(self.ch(d, ctor)),
            Or => P::Or(self.ch(d, ctor), self.ch(d, ctor)),
            Ltm => P::Ltm(self.ch(d, ctor), self.ch(d, ctor)),
            Then => P::Then(self.ch(d, ctor), self.ch(d, ctor)),
            IfThen => P::IfThen(self.ch(d, ctor), self.ch(d, false), self.ch(d, ctor)),
            Prefix => P::Prefix(self.ch(d, ctor), self.ch(d, false)),
            Suffix => P::Suffix(self.ch(d, ctor), self.ch(d, false)),
            Enclose => P::Enclose(self.ch(d, ctor), self.ch(d, false), self.ch(d, false)),
            SepOnce => P::SepOnce(self.ch(d, ctor), self.ch(d, false), self.ch(d, ctor)),
            Sep | SepCol | Sep2 => {
                let bounded = k == Sep2;
                let (p, s) = match self.s.weighted(&[3, 1, if bounded { 1 } else { 0 }]) {
                    0 => (self.ch_nn(d, ctor), self.ch(d, false)),
                    1 => (self.ch(d, ctor), self.ch_nn(d, false)),
                    _ => (self.ch(d, ctor), self.ch(d, false)),
                };
                let skip = !self.s.chance(2, 5);
                match k {
                    Sep2 => P::Sep2(p, s, skip, self.s.u(REP2.len())),
                    Sep => P::Sep(p, s, skip, self.min()),
                    _ => P::SepCol(p, s, skip, self.min()),
                }
            }
            Repeat => {
                let b = self.bd();
                let p = if b.hi.is_some_and(|h| h < 1000) && self.s.chance(1, 4) { self.ch(d, ctor) } else { self.ch_nn(d, ctor) };
                P::Repeat(p, b)
            }
            Repeat2 => {
                let p = if self.s.chance(1, 4) { self.ch(d, ctor) } else { self.ch_nn(d, ctor) };
                P::Repeat2(p, self.s.u(REP2.len()))
            }
            Collect => P::Collect(self.ch_nn(d, ctor), self.min()),
            Branch => {
                let t = match self.s.weighted(&[2, if self.c.abs { 4 } else { 0 }, 6, 4, 1]) {
                    0 => BT::Const(self.s.bool()),
                    1 => {
                        let m = self.s.range(2, 3);
                        let r = self.s.u(m);
                        if self.s.chance(1, 4) { BT::ErrMod(m, r) } else { BT::AbsMod(m, r) }
                    }
                    2 => BT::NextIs(self.el()),
                    3 => BT::ErrIf(self.el()),
                    _ => BT::ErrEnd,
                };
                P::Branch(t, self.ch(d, ctor), self.ch(d, ctor))
            }
            ManyAny | ManyLtm => {
                let mut mks = vec![MK::Array, MK::Slice, MK::PairArray, MK::PairSlice];
                if self.c.alloc {
                    mks.push(MK::Vector);
                    mks.push(MK::PairVector);
                }
                let mk = *self.s.pick(&mks);
                let n = self.s.range(1, 4);
                P::Many(mk, k == ManyLtm, (0..n).map(|_| *self.ch(d, ctor)).collect())
            }
            Sel => {
                let w = self.s.u(3) as u8;
                let ks: &[K] =
                    if self.c.dyn_ctor && ctor { &[Then, SepOnce, IfThen, DynCtor] } else { &[Then, SepOnce, IfThen] };
                let k = *self.s.pick(ks);
                let mut q = self.node(k, d, ctor);
                if w == 2 && self.s.bool() {
                    // make equality likely: the same part twice
                    match &mut q {
                        P::Then(a, b) | P::SepOnce(a, _, b) | P::IfThen(a, _, b) => *b = a.clone(),
                        _ => {}
                    }
                }
                P::Sel(w, Box::new(q))
            }
            Map => {
                let fail = if self.c.map_fail { [2u64, 3, 4, 0][self.s.u(4)] } else { 0 };
                P::Map(self.ch(d, ctor), MapR { tag: self.s.u(5) as u32, fail })
            }
            DynCtor => P::DynCtor(self.ch(d, ctor), self.dy(d, ctor)),
            SkipWs => {
                let k = self.s.u(4) as u8;
                P::SkipWs(if self.c.text { k } else { k | 1 }, self.ch(d, ctor))
            }
        }
    }
    /// pattern of one of the given kinds, possibly inside 0-2 layers of other combinators
    pub fn focused(&mut self, kinds: &[(K, u32)], ctor: bool) -> P {
        let w: Vec<u32> = kinds.iter().map(|x| x.1).collect();
        let k = kinds[self.s.weighted(&w)].0;
        let d = self.s.range(1, self.c.depth);
        self.budget = 18;
        let mut p = self.node(k, d, ctor);
        let layers = self.s.weighted(&[5, 4, 2]);
        for _ in 0..layers {
            self.hole = Some(p.clone());
            self.budget = 8;
            let w: Vec<u32> = INNER
                .iter()
                .map(|(k, w)| match k {
                    DynCtor if !(self.c.dyn_ctor && ctor) => 0,
                    Sep | Repeat if !self.c.alloc => 0,
                    Branch if !self.c.branch => 0,
                    _ => *w,
                })
                .collect();
            let k = INNER[self.s.weighted(&w)].0;
            let d = self.s.range(1, 2);
            let q = self.node(k, d, ctor);
            if self.hole.take().is_none() {
                p = q;
            }
        }
        p
    }
    pub fn skip(&mut self, infallible: bool) -> Skip {
        let w = if infallible { [6, 2, 1, 0, 0] } else { [4, 2, 1, 2, 3] };
        match self.s.weighted(&w) {
            0 => Skip::Many(self.els(1, 2)),
            1 => Skip::AtMostOne(self.el()),
            2 => Skip::Empty,
            3 => Skip::Required(self.el()),
            _ => Skip::Dirty(self.el(), self.el()),
        }
    }
    // ------------------------------------------------------------------ inputs
    pub fn push_unit(&mut self, u: &U, out: &mut Vec<E>) {
        self.from_unit(u, out)
    }
    fn from_unit(&mut self, u: &U, out: &mut Vec<E>) {
        let c: Vec<E> = self.alpha.iter().copied().filter(|e| unit(u, *e, self.c.text)).collect();
        if !c.is_empty() && !self.s.chance(1, 10) {
            let i = self.s.u(c.len());
            out.push(c[i]);
            return;
        }
        for x in ['a', 'B', '5', '_', ' ', ',', '\n', '\u{1}', '~'] {
            if unit(u, cp(x), self.c.text) {
                out.push(cp(x));
                return;
            }
        }
        if let U::Range(_, a, b) = u {
            out.push(if self.s.bool() { *a } else { *b });
            return;
        }
        let e = self.el();
        out.push(e);
    }
    fn count(&mut self, lo: usize, hi: Option<usize>) -> usize {
        match hi {
            Some(h) => {
                let h = h.min(1 << 20);
                let lo = lo.min(1 << 20);
                let o = [lo, h, h + 1, lo.saturating_sub(1), (lo + h) / 2, lo + 1];
                o[self.s.u(6)].min(if self.long { 400 } else { 5 })
            }
            None => {
                let lo = if lo > 1 << 20 { 4 } else { lo };
                [lo, lo + 1, lo + 2, lo.saturating_sub(1)][self.s.weighted(&[3, 3, 2, 1])]
            }
        }
    }
    fn sk(&mut self, skip: Option<&Skip>, out: &mut Vec<E>) {
        match skip {
            None | Some(Skip::Empty) => {}
            Some(Skip::Many(v)) => {
                if self.s.chance(1, 3) {
                    for _ in 0..self.s.range(1, 2) {
                        let i = self.s.u(v.len());
                        out.push(v[i]);
                    }
                }
            }
            Some(Skip::AtMostOne(e)) => {
                if self.s.chance(1, 3) {
                    out.push(*e);
                }
            }
            Some(Skip::Required(e)) => out.push(*e),
            Some(Skip::Dirty(e, f)) => {
                if self.s.chance(1, 3) {
                    out.push(*e);
                }
                if self.s.chance(1, 10) {
                    out.push(*f);
                }
            }
        }
    }
    /// a string the pattern is likely to match
    pub fn sample(&mut self, p: &P, skip: Option<&Skip>, out: &mut Vec<E>) {
        if out.len() > if self.long { 600 } else { 40 } {
            return;
        }
        let composite = matches!(
            p,
            P::Then(..)
                | P::IfThen(..)
                | P::Prefix(..)
                | P::Suffix(..)
                | P::Enclose(..)
                | P::SepOnce(..)
                | P::Sep(..)
                | P::Sep2(..)
                | P::SepCol(..)
                | P::Repeat(..)
                | P::Repeat2(..)
                | P::Collect(..)
        );
        if !composite || self.s.chance(1, 4) {
            self.sk(skip, out);
        }
        match p {
            P::Once(u, _) => self.from_unit(u, out),
            P::OptU(u, _) => {
                for _ in 0..self.s.u(3) {
                    self.from_unit(u, out);
                }
            }
            P::Many0(u, _) | P::Many1(u, _) => {
                for _ in 0..self.s.u(4) {
                    self.from_unit(u, out);
                }
            }
            P::Between(i, u, _) => {
                let (m, n) = BETWEENS[*i];
                for _ in 0..self.count(m, (n != usize::MAX).then_some(n)) {
                    self.from_unit(u, out);
                }
            }
            P::Times(b, u, _) => {
                for _ in 0..self.count(b.lo, b.hi) {
                    self.from_unit(u, out);
                }
            }
            P::ThenU(a, b, _) => {
                self.from_unit(a, out);
                self.from_unit(b, out);
            }
            P::Lit(v) => {
                let n = if self.s.chance(1, 12) { self.s.u(v.len() + 1) } else { v.len() };
                out.extend_from_slice(&v[..n]);
                if n > 3 && self.s.chance(1, 6) {
                    let (i, e) = (out.len() - 1 - self.s.u(n), self.el());
                    out[i] = e;
                }
            }
            P::Hole => {
                if let (Some(r), true) = (self.root.clone(), self.rdepth < 5) {
                    self.rdepth += 1;
                    self.sample(&r, skip, out);
                    self.rdepth -= 1;
                }
            }
            P::Start | P::End | P::Empty | P::Fail | P::Unit => {}
            P::Consume(n) | P::Clo(crate::ast::Clo::Take(n)) => {
                let k = match *n {
                    n if n > 1 << 20 || out.len() > 1 << 18 => 6,
                    // one short now and then
                    n if n > 5 && self.s.chance(1, 4) => n - 1,
                    n => n,
                };
                for _ in 0..k {
                    let e = self.el();
                    out.push(e);
                }
            }
            P::ConsumeAll => {
                let v = self.els(0, 2);
                out.extend(v);
            }
            P::Clo(crate::ast::Clo::Dirty(e)) => out.push(*e),
            P::Clo(_) => {}
            P::Assert(k, p) => {
                if !matches!(k, AK::Not | AK::OpNot | AK::With(false)) && self.s.chance(2, 3) || self.s.chance(1, 8) {
                    self.sample(p, skip, out);
                }
            }
            P::Pat(p) | P::AsCtor(p) | P::Map(p, _) | P::Sel(_, p) => self.sample(p, skip, out),
            P::DynRe(p, d) | P::DynCtor(p, d) => {
                let b = out.len();
                self.sample(p, skip, out);
                let i = Inp::new(self.c.text, out[b..].to_vec());
                if let Some(q) = M::dyn_pick_re(d, i.len(), &out[b..]) {
                    match d.mv {
                        // mostly a text the built pattern may accept as well
                        1 => if self.s.chance(1, 4) {
                            out.truncate(b);
                        } else {
                            return;
                        },
                        2 => out.push(self.el()),
                        _ => {}
                    }
                    self.sample(&q, skip, out);
                }
            }
            P::Opt(p) => {
                if !self.s.chance(1, 4) {
                    self.sample(p, skip, out);
                }
            }
            P::Or(a, b) | P::Ltm(a, b) | P::Branch(_, a, b) => {
                let q = if self.s.bool() { a } else { b };
                self.sample(q, skip, out);
            }
            P::Then(a, b) => {
                self.sample(a, skip, out);
                self.sample(b, skip, out);
            }
            P::IfThen(a, t, b) => {
                self.sample(a, skip, out);
                if !self.s.chance(1, 3) {
                    self.sample(t, skip, out);
                    if !self.s.chance(1, 5) {
                        self.sample(b, skip, out);
                    }
                }
            }
            P::Prefix(p, q) => {
                self.sample(q, skip, out);
                self.sample(p, skip, out);
            }
            P::Suffix(p, q) => {
                self.sample(p, skip, out);
                self.sample(q, skip, out);
            }
            P::Enclose(p, l, r) => {
                self.sample(l, skip, out);
                self.sample(p, skip, out);
                self.sample(r, skip, out);
            }
            P::SepOnce(l, s, r) => {
                self.sample(l, skip, out);
                self.sample(s, skip, out);
                self.sample(r, skip, out);
            }
            P::Sep(p, s, _, m) | P::SepCol(p, s, _, m) => {
                let n = self.count(*m, None);
                self.list(p, s, n, skip, out);
            }
            P::Sep2(p, s, _, i) => {
                let n = self.count(REP2[*i].0, Some(REP2[*i].1));
                self.list(p, s, n, skip, out);
            }
            P::Repeat(p, b) => {
                for _ in 0..self.count(b.lo, b.hi) {
                    self.sample(p, skip, out);
                }
            }
            P::Repeat2(p, i) => {
                for _ in 0..self.count(REP2[*i].0, Some(REP2[*i].1)) {
                    self.sample(p, skip, out);
                }
            }
            P::Collect(p, m) => {
                for _ in 0..self.count(*m, None) {
                    self.sample(p, skip, out);
                }
            }
            P::Many(_, _, v) => {
                let i = self.s.u(v.len());
                self.sample(&v[i], skip, out);
            }
            P::SkipWs(k, p) => {
                if *k >= 2 && self.s.bool() {
                    out.push(cp(' '));
                }
                self.sample(p, skip, out);
                if *k < 2 && self.s.bool() {
                    out.push(cp(' '));
                }
            }
        }
    }
    fn list(&mut self, p: &P, s: &P, n: usize, skip: Option<&Skip>, out: &mut Vec<E>) {
        for i in 0..n {
            self.sample(p, skip, out);
            if i + 1 < n || self.s.chance(1, 2) {
                self.sample(s, skip, out);
            }
        }
    }
    pub fn mutate(&mut self, v: &mut Vec<E>) {
        for _ in 0..self.s.weighted(&[5, 4, 1]) {
            let n = v.len();
            match self.s.u(4) {
                0 => {
                    let i = self.s.u(n + 1);
                    let e = self.el();
                    v.insert(i, e)
                }
                1 if n > 0 => {
                    let i = self.s.u(n);
                    v.remove(i);
                }
                2 if n > 0 => {
                    let i = self.s.u(n);
                    v[i] = self.el();
                }
                3 if n > 0 => {
                    let i = self.s.u(n);
                    v.truncate(i);
                }
                _ => {}
            }
        }
    }
    /// input and the element index the pattern should be tried at
    pub fn input(&mut self, p: &P, skip: Option<&Skip>) -> (Vec<E>, usize) {
        let pre = if self.s.chance(1, 2) { 0 } else { self.s.range(1, 3) };
        let mut v: Vec<E> = (0..pre).map(|_| self.el()).collect();
        let mut body = vec![];
        self.sample(p, skip, &mut body);
        if self.s.chance(2, 5) {
            self.mutate(&mut body);
        }
        // an input made as long as a number in the pattern asks for is left alone now and then
        let whole = body.len() > 1000 && self.s.chance(2, 3);
        if !body.is_empty() && !whole && (self.vast || self.s.chance(1, 48)) {
            // a long run of a short segment
            let i = self.s.u(body.len());
            let j = (i + self.s.range(1, 3)).min(body.len());
            let seg = body[i..j].to_vec();
            let n = match self.vast {
                false => *self.s.pick(&BIG),
                true if self.s.bool() => *self.s.pick(&VAST),
                true => self.s.range(1000, 70_000),
            };
            body.splice(i..i, seg.iter().copied().cycle().take(n * seg.len()));
            self.long = true;
        }
        v.extend(body);
        if self.s.chance(1, 2) {
            let t = self.els(0, 3);
            v.extend(t);
        }
        v.truncate(if self.vast { 200_000 } else if self.long { 800 } else { 60 });
        let at = if self.s.chance(1, 6) { self.s.u(v.len() + 1) } else { pre };
        let at = at.min(v.len());
        (v, at)
    }
}
