//! Reference semantics of the pattern language, written from neure's documentation:
//! a plain recursive interpreter over an array of elements.
use crate::ast::*;
use std::cell::Cell;

/// Input of a run: elements with their byte offsets.
#[derive(Clone, Debug)]
pub struct Inp {
    pub e: Vec<E>,
    /// byte offset of element i; one more entry for the end
    pub off: Vec<usize>,
    pub bytes: Vec<u8>,
    pub text: bool,
}
impl Inp {
    pub fn new(text: bool, e: Vec<E>) -> Self {
        let mut bytes = vec![];
        let mut off = vec![];
        for x in &e {
            off.push(bytes.len());
            if text {
                let mut b = [0; 4];
                bytes.extend_from_slice(char::from_u32(x.0).unwrap().encode_utf8(&mut b).as_bytes());
            } else {
                bytes.push(x.0 as u8);
            }
        }
        off.push(bytes.len());
        Inp { e, off, bytes, text }
    }
    pub fn str(&self) -> &str {
        std::str::from_utf8(&self.bytes).unwrap()
    }
    pub fn len(&self) -> usize {
        self.bytes.len()
    }
    pub fn is_empty(&self) -> bool {
        self.bytes.is_empty()
    }
    pub fn index_of(&self, off: usize) -> Option<usize> {
        self.off.binary_search(&off).ok()
    }
}

pub fn class(c: Class, e: E, text: bool) -> bool {
    if !text {
        let b = e.0 as u8;
        return match c {
            Class::Word => b.is_ascii_alphanumeric() || b == b'_',
            Class::Ascii => b < 0x80,
            Class::AAlpha => b.is_ascii_alphabetic(),
            Class::AAlnum => b.is_ascii_alphanumeric(),
            Class::AControl => b.is_ascii_control(),
            Class::ADigit => b.is_ascii_digit(),
            Class::AGraphic => b.is_ascii_graphic(),
            Class::AHex => b.is_ascii_hexdigit(),
            Class::ALower => b.is_ascii_lowercase(),
            Class::APunct => b.is_ascii_punctuation(),
            Class::AUpper => b.is_ascii_uppercase(),
            Class::AWs => b.is_ascii_whitespace(),
            _ => unreachable!(),
        };
    }
    let h = char::from_u32(e.0).unwrap();
    match c {
        Class::Alphabetic => h.is_alphabetic(),
        Class::Alphanumeric => h.is_alphanumeric(),
        Class::Control => h.is_control(),
        Class::Digit10 => h.is_digit(10),
        Class::Lowercase => h.is_lowercase(),
        Class::Numeric => h.is_numeric(),
        Class::Uppercase => h.is_uppercase(),
        Class::WhiteSpace => h.is_whitespace(),
        Class::Wild => h != '\n',
        Class::Word => h.is_ascii_alphanumeric() || h == '_',
        Class::Ascii => h.is_ascii(),
        Class::AAlpha => h.is_ascii_alphabetic(),
        Class::AAlnum => h.is_ascii_alphanumeric(),
        Class::AControl => h.is_ascii_control(),
        Class::ADigit => h.is_ascii_digit(),
        Class::AGraphic => h.is_ascii_graphic(),
        Class::AHex => h.is_ascii_hexdigit(),
        Class::ALower => h.is_ascii_lowercase(),
        Class::APunct => h.is_ascii_punctuation(),
        Class::AUpper => h.is_ascii_uppercase(),
        Class::AWs => h.is_ascii_whitespace(),
    }
}
pub fn unit(u: &U, e: E, text: bool) -> bool {
    match u {
        U::Eq(x) => *x == e,
        U::Set(v) => v.contains(&e),
        U::Range(f, a, b) => match f {
            RangeForm::Half => *a <= e && e < *b,
            RangeForm::Incl | RangeForm::CRange => *a <= e && e <= *b,
            RangeForm::From => *a <= e,
            RangeForm::To => e < *b,
            RangeForm::ToIncl => e <= *b,
            RangeForm::Full => true,
            RangeForm::BoundExIn => *a < e && e <= *b,
            RangeForm::BoundInEx => *a <= e && e < *b,
        },
        U::Class(c) => class(*c, e, text),
        U::Not(u) => !unit(u, e, text),
        U::And(a, b) => unit(a, e, text) && unit(b, e, text),
        U::Or(a, b) => unit(a, e, text) || unit(b, e, text),
        U::Always => true,
        U::Never => false,
        U::Fun(m, r) => e.0 % m == *r,
    }
}

/// span in element indices
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct S {
    pub b: usize,
    pub e: usize,
}
/// the error may be one of the library's own
pub const LIB: u32 = 1;

pub struct M<'i> {
    pub inp: &'i Inp,
    pub base: usize,
    /// what P::Hole stands for
    pub root: Option<&'i P>,
    pub skip: Option<&'i Skip>,
    pub h: HCfg,
    pub steps: Cell<u64>,
    pub max: u64,
    /// (beg,len) of every handler invocation
    pub log: Option<std::cell::RefCell<Vec<(usize, usize)>>>,
    pub handler_failed: Cell<bool>,
    /// errors the last failure may be reported with: LIB, and bit n for the user's error n
    pub why: Cell<u32>,
    pub backtracked: Cell<bool>,
    /// furthest end of a successful sub-match
    pub far: Cell<usize>,
    /// furthest element index looked at (the length: the end was looked at)
    pub seen: Cell<usize>,
    /// element positions strictly inside a token: inserting skippable elements there may matter
    pub inside: Option<std::cell::RefCell<Vec<bool>>>,
}
type R<T> = Option<T>;

impl<'i> M<'i> {
    pub fn new(inp: &'i Inp, skip: Option<&'i Skip>, h: HCfg) -> Self {
        M {
            inp,
            base: 0,
            root: None,
            skip,
            h,
            steps: Cell::new(0),
            max: 60_000,
            log: None,
            handler_failed: Cell::new(false),
            why: Cell::new(0),
            backtracked: Cell::new(false),
            far: Cell::new(0),
            seen: Cell::new(0),
            inside: None,
        }
    }
    fn lib<T>(&self) -> R<T> {
        self.why.set(LIB);
        None
    }
    fn user<T>(&self, n: u32) -> R<T> {
        self.why.set(1 << n);
        None
    }
    /// `r`, whose failure is reported as one of these too
    fn or_why<T>(&self, more: u32, r: R<T>) -> R<T> {
        if r.is_none() {
            self.why.set(self.why.get() | more);
        }
        r
    }
    /// what is reported for too few is left open
    fn counted<T>(&self, ok: bool, x: T) -> R<T> {
        if ok {
            return Some(x);
        }
        self.why.set(!0);
        None
    }
    fn step(&self) -> bool {
        self.steps.set(self.steps.get() + 1);
        self.steps.get() <= self.max
    }
    /// a unit that looks at up to `k` of the `left` remaining elements in one go
    fn cost(&self, k: usize, left: usize) -> bool {
        self.steps.set(self.steps.get() + (k.min(left) / 8) as u64);
        self.steps.get() <= self.max
    }
    pub fn heavy(&self) -> bool {
        self.steps.get() > self.max
    }
    fn see(&self, i: usize) {
        self.seen.set(self.seen.get().max(i.min(self.n())));
    }
    fn n(&self) -> usize {
        self.inp.e.len()
    }
    fn rel(&self, i: usize) -> usize {
        self.inp.off[i] - self.inp.off[self.base]
    }
    fn blen(&self, s: S) -> usize {
        self.inp.off[s.e] - self.inp.off[s.b]
    }
    fn skip_at(&self, o: usize) -> R<usize> {
        let r = self.skip_to(o).or_else(|| self.user(1));
        if self.skip.is_some() {
            self.see(r.unwrap_or(o) + 1);
        }
        r
    }
    fn skip_to(&self, mut o: usize) -> R<usize> {
        let e = &self.inp.e;
        match self.skip {
            None | Some(Skip::Empty) => Some(o),
            Some(Skip::Many(s)) => {
                while o < e.len() && s.contains(&e[o]) {
                    o += 1;
                }
                Some(o)
            }
            Some(Skip::AtMostOne(x)) => Some(if e.get(o) == Some(x) { o + 1 } else { o }),
            Some(Skip::Required(x)) => (e.get(o) == Some(x)).then_some(o + 1),
            Some(Skip::Dirty(x, y)) => {
                while o < e.len() && e[o] == *x {
                    o += 1;
                }
                self.see(o + 1);
                (e.get(o) != Some(y)).then_some(o)
            }
        }
    }
    /// try_mat: skip rule, then the pattern
    pub fn t(&self, p: &P, o: usize) -> R<S> {
        let o = self.skip_at(o)?;
        let s = self.r(p, o)?;
        self.far.set(self.far.get().max(s.e));
        Some(s)
    }
    fn cond(&self, c: &Cond, o: usize, i: usize) -> Result<bool, ()> {
        let e = self.inp.e[i];
        self.see(i + 1);
        Ok(match c {
            Cond::None => true,
            Cond::Const(b) => *b,
            Cond::RelBelow(k) => self.inp.off[i] - self.inp.off[o] < *k,
            Cond::AbsMod(m, r) => self.rel(i) % m == *r,
            Cond::Code(m, r) => e.0 % m == *r,
            Cond::Next(x) => self.inp.e.get(i + 1) == Some(x),
            Cond::Rx(p) => {
                let m = M {
                    inp: self.inp,
                    base: i,
                    root: self.root,
                    skip: self.skip,
                    h: self.h,
                    steps: Cell::new(self.steps.get()),
                    max: self.max,
                    log: None,
                    handler_failed: Cell::new(false),
                    why: Cell::new(0),
                    backtracked: Cell::new(false),
                    far: Cell::new(0),
                    seen: Cell::new(self.seen.get()),
                    inside: None,
                };
                let r = m.t(p, i).is_some();
                self.steps.set(m.steps.get());
                self.see(m.seen.get());
                r
            }
            Cond::ErrFrom(k) if self.inp.off[i] - self.inp.off[o] >= *k => return Err(()),
            Cond::ErrFrom(_) => true,
            Cond::ErrIf(x) => {
                if *x == e {
                    return Err(());
                }
                true
            }
        })
    }
    /// greedy run of at most `max` accepted elements
    fn run(&self, u: &U, c: &Cond, o: usize, max: usize) -> Result<usize, ()> {
        let mut k = 0;
        while k < max {
            self.see(o + k);
            if o + k >= self.n() {
                break;
            }
            self.step();
            if !(unit(u, self.inp.e[o + k], self.inp.text) && self.cond(c, o, o + k)?) {
                break;
            }
            k += 1;
        }
        Ok(k)
    }
    fn units(&self, u: &U, c: &Cond, o: usize, lo: usize, hi: usize) -> R<S> {
        let Ok(k) = self.run(u, c, o, hi) else {
            // where there are too few elements anyway the condition need not be asked
            let few = (0..lo).any(|k| self.inp.e.get(o + k).is_none_or(|e| !unit(u, *e, self.inp.text)));
            return self.or_why(if few { LIB } else { 0 }, self.user(3));
        };
        if k >= lo { Some(S { b: o, e: o + k }) } else { self.lib() }
    }
    fn branch(&self, t: &BT, o: usize) -> Result<bool, ()> {
        self.see(o);
        Ok(match t {
            BT::Const(b) => *b,
            BT::AbsMod(m, r) => self.rel(o) % m == *r,
            BT::NextIs(e) => self.inp.e.get(o) == Some(e),
            BT::ErrIf(e) if self.inp.e.get(o) == Some(e) => return Err(()),
            BT::ErrMod(m, r) if self.rel(o) % m == *r => return Err(()),
            BT::ErrEnd if self.inp.e.get(o).is_none() => return Err(()),
            BT::ErrIf(_) | BT::ErrMod(..) | BT::ErrEnd => true,
        })
    }
    pub fn dyn_pick_re(d: &Dyn, len: usize, text: &[E]) -> Option<P> {
        if d.err_mod > 0 && len % d.err_mod == d.err_mod - 1 {
            return None;
        }
        Some(if d.rule == 1 { P::Lit(text.to_vec()) } else { d.alts[len % d.alts.len()].clone() })
    }
    /// where the builder function leaves the cursor
    fn moved(&self, d: &Dyn, s: S) -> usize {
        match d.mv {
            0 => s.e,
            1 => s.b,
            _ => {
                self.see(s.e);
                (s.e + 1).min(self.inp.e.len())
            }
        }
    }
    pub fn dyn_pick_val(d: &Dyn, v: &Val, text: bool) -> Option<P> {
        let len = v.size();
        if d.err_mod > 0 && len % d.err_mod == d.err_mod - 1 {
            return None;
        }
        if d.rule == 1 {
            let mut l = vec![];
            v.leaves(&mut l);
            if let Some(Val::Tx(t)) = l.first() {
                let e = if text {
                    std::str::from_utf8(t).unwrap_or("").chars().map(|c| E(c as u32)).collect()
                } else {
                    t.iter().map(|b| E(*b as u32)).collect()
                };
                return Some(P::Lit(e));
            }
        }
        Some(d.alts[len % d.alts.len()].clone())
    }
    fn seq(&self, o: usize, ps: &[&P]) -> R<S> {
        let mut pos = o;
        let mut b = None;
        for p in ps {
            let s = self.t(p, pos)?;
            b.get_or_insert(s.b);
            pos = s.e;
        }
        Some(S { b: b.unwrap(), e: pos })
    }
    fn in_bd(b: &Bd, n: usize) -> bool {
        n >= b.lo && b.hi.is_none_or(|h| n <= h)
    }
    /// marks lo..hi as inside a token
    fn mark(&self, lo: usize, hi: usize) {
        if let Some(m) = &self.inside {
            for x in &mut m.borrow_mut()[lo..hi.max(lo)] {
                *x = true;
            }
        }
    }
    fn mark_leaf(&self, p: &P, o: usize, r: &R<S>) {
        let ws = |u: &U| match self.skip {
            Some(Skip::Many(v)) => v.iter().any(|e| unit(u, *e, self.inp.text)),
            _ => true,
        };
        let n = self.n();
        match (p, r) {
            (P::Many0(u, _) | P::Many1(u, _) | P::OptU(u, _) | P::Between(_, u, _) | P::Times(_, u, _), r) => {
                if ws(u) {
                    // the run may go on over skippable elements
                    self.mark(o + 1, n + 1);
                } else if let Some(s) = r {
                    self.mark(o + 1, s.e);
                }
            }
            (P::ThenU(_, b, _), r) => {
                if ws(b) || r.is_some() {
                    self.mark(o + 1, (o + 2).min(n + 1));
                }
            }
            (P::Lit(v), r) => {
                if v.iter().any(|e| matches!(self.skip, Some(Skip::Many(w)) if w.contains(e))) {
                    self.mark(o + 1, n + 1);
                } else if r.is_some() {
                    self.mark(o + 1, o + v.len());
                }
            }
            (P::Consume(_) | P::Clo(Clo::Take(_)), Some(s)) => self.mark(o + 1, s.e),
            (P::Consume(_) | P::ConsumeAll | P::Clo(_), _) => self.mark(o + 1, n + 1),
            _ => {}
        }
    }
    /// try_parse of the pattern itself
    pub fn r(&self, p: &P, o: usize) -> R<S> {
        let r = self.r0(p, o);
        if self.inside.is_some() {
            self.mark_leaf(p, o, &r);
        }
        r
    }
    fn r0(&self, p: &P, o: usize) -> R<S> {
        if !self.step() {
            return None;
        }
        let n = self.n();
        let one = |k: usize| Some(S { b: o, e: o + k });
        match p {
            P::Lit(v) => self.see(o + v.len().saturating_sub(1)),
            P::End | P::ConsumeAll => self.see(n),
            P::Consume(k) | P::Clo(Clo::Take(k)) => self.see(o.saturating_add(*k).saturating_sub(1)),
            P::Clo(Clo::Dirty(_)) => self.see(o + 1),
            _ => {}
        }
        match p {
            P::Once(u, c) => self.units(u, c, o, 1, 1),
            P::OptU(u, c) => self.units(u, c, o, 0, 1),
            P::Many0(u, c) => self.units(u, c, o, 0, usize::MAX),
            P::Many1(u, c) => self.units(u, c, o, 1, usize::MAX),
            P::Between(i, u, c) => self.units(u, c, o, BETWEENS[*i].0, BETWEENS[*i].1),
            P::Times(b, u, c) => self.units(u, c, o, b.lo, b.hi.unwrap_or(usize::MAX)),
            P::ThenU(a, b, c) => {
                self.see(o + 1);
                if o + 2 > n {
                    // the first of the two may have been asked
                    return self.or_why(1 << 3, self.lib());
                }
                let t = self.inp.text;
                self.step();
                let cond = |i: usize| self.cond(c, o, i).ok().or_else(|| self.user(3));
                if !(unit(a, self.inp.e[o], t) && unit(b, self.inp.e[o + 1], t)) {
                    return self.or_why(if self.cond(c, o, o).is_err() { 1 << 3 } else { 0 }, self.lib());
                }
                let ok = unit(a, self.inp.e[o], t) && cond(o)? && self.step() && unit(b, self.inp.e[o + 1], t) && cond(o + 1)?;
                if ok { one(2) } else { self.lib() }
            }
            P::Lit(v) => if self.cost(v.len(), n - o) && self.inp.e[o..].starts_with(v) { one(v.len()) } else { self.lib() },
            P::Hole => self.r(self.root?, o),
            P::Start => if o == self.base { one(0) } else { self.lib() },
            P::End => if o == n { one(0) } else { self.lib() },
            P::Empty | P::Unit => one(0),
            P::Fail => self.lib(),
            P::Consume(k) => if self.cost(*k, n - o) && n - o >= *k { one(*k) } else { self.lib() },
            P::ConsumeAll => one(n - o),
            P::Clo(c) => match c {
                Clo::Take(k) => if self.cost(*k, n - o) && n - o >= *k { one(*k) } else { self.user(8) },
                Clo::Dirty(e) => if self.inp.e.get(o) == Some(e) { one(1) } else { self.user(9) },
                Clo::Nothing => one(0),
                Clo::Fail => self.user(10),
            },
            P::Assert(k, p) => {
                let want = match k {
                    AK::Not | AK::OpNot => false,
                    AK::Peek => true,
                    AK::With(b) => *b,
                };
                let got = if *k == AK::OpNot { self.skip_at(o).and_then(|o| self.t(p, o)) } else { self.t(p, o) };
                if got.is_some() == want { one(0) } else { self.lib() }
            }
            P::Pat(p) | P::Map(p, _) | P::Sel(_, p) => self.t(p, o),
            P::AsCtor(p) => self.r(p, o),
            P::DynRe(p, d) => {
                let s = self.t(p, o)?;
                self.mark(s.b + 1, s.e);
                // the builder reads what was matched
                if !self.cost(s.e - s.b, self.inp.e.len()) {
                    return self.lib();
                }
                let q = Self::dyn_pick_re(d, self.blen(s), &self.inp.e[s.b..s.e]).or_else(|| self.user(4))?;
                self.t(&q, self.moved(d, s))
            }
            P::Opt(p) => self.t(p, o).or(one(0)),
            P::Or(a, b) => self.t(a, o).or_else(|| {
                self.backtracked.set(true);
                let w = self.why.get();
                self.or_why(w, self.t(b, o))
            }),
            P::Ltm(a, b) => {
                let x = self.t(a, o);
                let w = self.why.get();
                match (x, self.or_why(w, self.t(b, o))) {
                    (Some(x), Some(y)) => Some(if x.e >= y.e { x } else { y }),
                    (x, y) => x.or(y),
                }
            }
            P::Then(a, b) => self.seq(o, &[a, b]),
            P::IfThen(a, t, b) => {
                let s = self.t(a, o)?;
                match self.t(t, s.e) {
                    Some(x) => {
                        let y = self.t(b, x.e)?;
                        Some(S { b: s.b, e: y.e })
                    }
                    None => Some(s),
                }
            }
            P::Prefix(p, q) => self.seq(o, &[q, p]),
            P::Suffix(p, q) => self.seq(o, &[p, q]),
            P::Enclose(p, l, r) => self.seq(o, &[l, p, r]),
            P::SepOnce(l, s, r) => {
                let x = self.seq(o, &[l, s, r])?;
                Some(S { b: o, e: x.e })
            }
            P::Sep(p, s, skip, min) | P::SepCol(p, s, skip, min) => self.sep_r(o, p, s, *skip, *min, usize::MAX),
            P::Sep2(p, s, skip, i) => self.sep_r(o, p, s, *skip, REP2[*i].0, REP2[*i].1),
            P::Repeat(p, b) => {
                let (k, e) = self.loop_r(o, p, b.hi.unwrap_or(usize::MAX));
                self.counted(Self::in_bd(b, k), S { b: o, e })
            }
            P::Repeat2(p, i) => {
                let (k, e) = self.loop_r(o, p, REP2[*i].1);
                self.counted(k >= REP2[*i].0, S { b: o, e })
            }
            P::Collect(p, min) => {
                let (k, e) = self.loop_r(o, p, usize::MAX);
                self.counted(k >= *min, S { b: o, e })
            }
            P::Branch(t, a, b) => {
                if self.branch(t, o).ok().or_else(|| self.user(5))? {
                    self.t(a, o)
                } else {
                    self.t(b, o)
                }
            }
            P::Many(_, false, v) => {
                let mut w = LIB;
                for p in v {
                    if let Some(s) = self.t(p, o) {
                        return Some(s);
                    }
                    w |= self.why.get();
                }
                self.why.set(w);
                None
            }
            P::Many(_, true, v) => {
                let mut best: Option<S> = None;
                let mut w = LIB;
                for p in v {
                    if let Some(s) = self.t(p, o) {
                        if best.is_none_or(|b| s.e > b.e) {
                            best = Some(s);
                        }
                    } else {
                        w |= self.why.get();
                    }
                }
                self.why.set(w);
                best
            }
            P::DynCtor(..) => unreachable!("ctor only"),
            P::SkipWs(k, p) => {
                let ws = self.ws(*k);
                if *k < 2 { self.seq(o, &[p, &ws]) } else { self.seq(o, &[&ws, p]) }
            }
        }
    }
    fn ws(&self, k: u8) -> P {
        let c = if k % 2 == 0 { Class::WhiteSpace } else { Class::AWs };
        P::Many0(U::Class(c), Cond::None)
    }
    fn loop_r(&self, o: usize, p: &P, max: usize) -> (usize, usize) {
        let (mut k, mut pos) = (0, o);
        while k < max {
            let Some(s) = self.t(p, pos) else { break };
            pos = s.e;
            k += 1;
            if self.heavy() {
                break;
            }
        }
        (k, pos)
    }
    fn sep_r(&self, o: usize, p: &P, s: &P, skip: bool, min: usize, max: usize) -> R<S> {
        let (mut k, mut pos) = (0, o);
        while k < max {
            let Some(x) = self.t(p, pos) else { break };
            match self.t(s, x.e) {
                Some(y) => {
                    k += 1;
                    pos = y.e;
                }
                None => {
                    if skip {
                        k += 1;
                        pos = x.e;
                    }
                    break;
                }
            }
            if self.heavy() {
                break;
            }
        }
        self.counted(k >= min, S { b: o, e: pos })
    }
    fn leaf(&self, p: &P, o: usize) -> R<(Val, usize)> {
        // an absent pattern is an error before anything is skipped
        let s = self.or_why(if *p == P::Fail { LIB } else { 0 }, self.t(p, o))?;
        self.mark(s.b + 1, s.e);
        let (beg, len) = (self.rel(s.b), self.blen(s));
        if let Some(l) = &self.log {
            l.borrow_mut().push((beg, len));
        }
        if handler_fails(self.h.fail, beg, len) {
            self.handler_failed.set(true);
            return self.user(2);
        }
        let v = if self.h.text {
            Val::Tx(self.inp.bytes[self.inp.off[s.b]..self.inp.off[s.e]].to_vec())
        } else {
            Val::Sp(beg, len)
        };
        Some((v, s.e))
    }
    /// construct: value and end position
    pub fn k(&self, p: &P, o: usize) -> R<(Val, usize)> {
        if !self.step() {
            return None;
        }
        let pair = |a: Val, b: Val| Val::Pair(Box::new(a), Box::new(b));
        match p {
            P::Hole => self.k(self.root?, o),
            P::Pat(q) => self.leaf(q, o),
            P::Opt(p) => Some(match self.k(p, o) {
                Some((v, e)) => (Val::Opt(Some(Box::new(v))), e),
                None => (Val::Opt(None), o),
            }),
            P::Or(a, b) => self.k(a, o).or_else(|| {
                self.backtracked.set(true);
                let w = self.why.get();
                self.or_why(w, self.k(b, o))
            }),
            P::Ltm(a, b) => {
                let x = self.k(a, o);
                let w = self.why.get();
                match (x, self.or_why(w, self.k(b, o))) {
                    (Some(x), Some(y)) => Some(if x.1 >= y.1 { x } else { y }),
                    (x, y) => x.or(y),
                }
            }
            P::Then(a, b) => {
                let (x, e) = self.k(a, o)?;
                let (y, e) = self.k(b, e)?;
                Some((pair(x, y), e))
            }
            P::IfThen(..) => {
                let (x, y, e) = self.if_then(p, o)?;
                Some((pair(x, Val::Opt(y.map(Box::new))), e))
            }
            P::Prefix(p, q) => {
                let s = self.t(q, o)?;
                self.k(p, s.e)
            }
            P::Suffix(p, q) => {
                let (v, e) = self.k(p, o)?;
                Some((v, self.t(q, e)?.e))
            }
            P::Enclose(p, l, r) => {
                let s = self.t(l, o)?;
                let (v, e) = self.k(p, s.e)?;
                Some((v, self.t(r, e)?.e))
            }
            P::SepOnce(l, s, r) => {
                let (x, e) = self.k(l, o)?;
                let e = self.t(s, e)?.e;
                let (y, e) = self.k(r, e)?;
                Some((pair(x, y), e))
            }
            P::Sep(p, s, skip, min) | P::SepCol(p, s, skip, min) => {
                let (v, e) = self.sep_k(o, p, s, *skip, usize::MAX);
                self.counted(v.len() >= *min, (Val::List(v), e))
            }
            P::Sep2(p, s, skip, i) => {
                let (v, e) = self.sep_k(o, p, s, *skip, REP2[*i].1);
                self.counted(v.len() >= REP2[*i].0, (arr(v, REP2[*i].1), e))
            }
            P::Repeat(p, b) => {
                let (v, e) = self.loop_k(o, p, b.hi.unwrap_or(usize::MAX));
                self.counted(Self::in_bd(b, v.len()), (Val::List(v), e))
            }
            P::Repeat2(p, i) => {
                let (v, e) = self.loop_k(o, p, REP2[*i].1);
                self.counted(v.len() >= REP2[*i].0, (arr(v, REP2[*i].1), e))
            }
            P::Collect(p, min) => {
                let (v, e) = self.loop_k(o, p, usize::MAX);
                self.counted(v.len() >= *min, (Val::List(v), e))
            }
            P::Branch(t, a, b) => {
                if self.branch(t, o).ok().or_else(|| self.user(5))? {
                    self.k(a, o)
                } else {
                    self.k(b, o)
                }
            }
            P::Many(mk, ltm, v) => {
                let mut best: Option<(usize, Val, usize)> = None;
                let mut w = LIB;
                for (i, p) in v.iter().enumerate() {
                    if let Some((x, e)) = self.k(p, o) {
                        if best.as_ref().is_none_or(|b| e > b.2) {
                            best = Some((i, x, e));
                        }
                        if !ltm {
                            break;
                        }
                    } else {
                        w |= self.why.get();
                    }
                }
                self.why.set(w);
                let (i, x, e) = best?;
                Some(match mk {
                    MK::PairArray | MK::PairSlice | MK::PairVector => (Val::Tag(1000 + i as u32, Box::new(x)), e),
                    _ => (x, e),
                })
            }
            P::Sel(w, q) => {
                let (x, y, e): (Val, Option<Val>, usize) = match &**q {
                    P::IfThen(..) => self.if_then(q, o)?,
                    _ => match self.k(q, o)? {
                        (Val::Pair(x, y), e) => (*x, Some(*y), e),
                        _ => unreachable!(),
                    },
                };
                let is_if = matches!(**q, P::IfThen(..));
                let yv = |y: Option<Val>| if is_if { Val::Opt(y.map(Box::new)) } else { y.unwrap() };
                match w {
                    0 => Some((x, e)),
                    1 => Some((yv(y), e)),
                    _ if Some(&x) == y.as_ref() => Some((pair(x, yv(y)), e)),
                    _ => self.lib(),
                }
            }
            P::Map(p, m) => {
                let (v, e) = self.k(p, o)?;
                if m.fail != 0 && v.hash() % m.fail == 0 {
                    self.handler_failed.set(true);
                    return self.user(6);
                }
                Some((Val::Tag(m.tag, Box::new(v)), e))
            }
            P::DynCtor(p, d) => {
                let (v, e) = self.k(p, o)?;
                if !self.cost(e - o, self.inp.e.len()) {
                    return self.lib();
                }
                let q = Self::dyn_pick_val(d, &v, self.inp.text).or_else(|| self.user(7))?;
                let e = self.moved(d, S { b: e, e });
                let (w, e) = self.k(&q, e)?;
                Some((pair(v, w), e))
            }
            P::SkipWs(k, p) => {
                let ws = self.ws(*k);
                if *k < 2 {
                    let (v, e) = self.k(p, o)?;
                    Some((v, self.t(&ws, e)?.e))
                } else {
                    let s = self.t(&ws, o)?;
                    self.k(p, s.e)
                }
            }
            _ => self.leaf(p, o),
        }
    }
    fn if_then(&self, p: &P, o: usize) -> R<(Val, Option<Val>, usize)> {
        let P::IfThen(a, t, b) = p else { unreachable!() };
        let (x, e) = self.k(a, o)?;
        match self.t(t, e) {
            Some(s) => {
                let (y, e) = self.k(b, s.e)?;
                Some((x, Some(y), e))
            }
            None => Some((x, None, e)),
        }
    }
    fn loop_k(&self, o: usize, p: &P, max: usize) -> (Vec<Val>, usize) {
        let (mut v, mut pos) = (vec![], o);
        while v.len() < max {
            let Some((x, e)) = self.k(p, pos) else { break };
            pos = e;
            v.push(x);
            if self.heavy() {
                break;
            }
        }
        (v, pos)
    }
    fn sep_k(&self, o: usize, p: &P, s: &P, skip: bool, max: usize) -> (Vec<Val>, usize) {
        let (mut v, mut pos) = (vec![], o);
        while v.len() < max {
            let Some((x, e)) = self.k(p, pos) else { break };
            match self.t(s, e) {
                Some(y) => {
                    v.push(x);
                    pos = y.e;
                }
                None => {
                    if skip {
                        v.push(x);
                        pos = e;
                    }
                    break;
                }
            }
            if self.heavy() {
                break;
            }
        }
        (v, pos)
    }
    /// find / find_all / match_seq over spans (byte offsets)
    pub fn scan(&self, p: &P, o: usize, seq: bool, first: bool) -> (Vec<(usize, usize)>, usize) {
        let mut out = vec![];
        let mut pos = o;
        while pos < self.n() {
            match self.t(p, pos) {
                Some(s) if s.e > s.b => {
                    pos = s.e;
                    out.push((self.inp.off[s.b], self.blen(s)));
                    if first {
                        break;
                    }
                }
                other => {
                    if seq {
                        pos = self.n();
                    } else {
                        // an empty match (possibly after skipping) or a failure: one element further
                        pos = other.map(|s| s.e).unwrap_or(pos);
                        pos = (pos + 1).min(self.n());
                    }
                }
            }
        }
        (out, self.inp.off[pos])
    }
}
fn arr(v: Vec<Val>, n: usize) -> Val {
    let mut a: Vec<Option<Val>> = v.into_iter().map(Some).collect();
    a.resize(n, None);
    Val::Arr(a)
}
