//! Case set-up shared by the checks over composed patterns.
use crate::ast::*;
use crate::build::{Bld, Exec, Rec, Wrap, with_bld};
use crate::r#gen::{Cfg, G, K, alphabet};
use crate::model::{Inp, M};
use vcore::{Case, Res, ensure, ensure_eq, ticks_reset};

pub type Kinds = &'static [(K, u32)];
pub struct St {
    pub text: bool,
    pub skip: Option<Skip>,
    pub p: P,
    pub inps: Vec<Inp>,
    pub ats: Vec<usize>,
    pub form: u64,
    pub wrap: Wrap,
    /// wrappers around the finished pattern
    pub outer: Vec<usize>,
    /// built through recursion helper number ..
    pub rec: Option<usize>,
    pub alpha: Vec<E>,
    /// further patterns for Exec::policy
    pub more: Vec<P>,
    /// exchange parts through setters and accessors
    pub sets: bool,
    pub vast: bool,
}
#[derive(Clone)]
pub struct Opt {
    pub kinds: Kinds,
    pub inputs: usize,
    /// probability (of 8) of a skipping context
    pub skip: u64,
    /// skip rules that cannot fail only
    pub infallible: bool,
    pub map_fail: bool,
    pub dyn_ctor: bool,
    pub ctor: bool,
    pub abs: bool,
    pub dirty: bool,
    pub branch: bool,
    pub ascii: bool,
    pub depth: usize,
    pub wrap: Wrap,
    pub sets: bool,
    /// a grammar that refers to itself
    pub rec: bool,
    /// inputs of tens of thousands of elements
    pub vast: bool,
    /// ask the context itself whether the pattern comes next
    pub look: bool,
    /// a rejected construction leaves the position where it was
    pub undo: bool,
}
pub const BASE: Opt = Opt {
    kinds: &[],
    inputs: 4,
    skip: 1,
    infallible: false,
    map_fail: false,
    dyn_ctor: false,
    ctor: true,
    abs: true,
    dirty: true,
    branch: true,
    ascii: false,
    depth: 3,
    wrap: Wrap::No,
    sets: false,
    rec: false,
    vast: false,
    look: false,
    undo: false,
};
pub fn setup(c: &mut Case, o: &Opt) -> St {
    let text = !c.src.chance(2, 5);
    let alpha = alphabet(&mut c.src, text, o.ascii);
    let form = c.src.below(1 << 16) | if o.vast { crate::build::VAST } else { 0 };
    let mut cfg = Cfg::new(text);
    cfg.map_fail = o.map_fail;
    cfg.dyn_ctor = o.dyn_ctor;
    cfg.abs = o.abs;
    cfg.dirty = o.dirty;
    cfg.branch = o.branch;
    cfg.depth = o.depth;
    let mut g = G::new(&mut c.src, cfg, alpha.clone());
    let skip = if o.skip > 0 && g.s.chance(o.skip, 8) { Some(g.skip(o.infallible)) } else { None };
    g.rec = o.rec;
    g.vast = o.vast;
    let p = g.focused(o.kinds, o.ctor);
    g.rec = false;
    if o.rec {
        g.root = Some(p.clone());
    }
    let mut inps = vec![];
    let mut ats = vec![];
    for _ in 0..o.inputs {
        let (v, at) = g.input(&p, skip.as_ref());
        inps.push(Inp::new(text, v));
        ats.push(at);
    }
    let rec = if o.rec { Some(c.src.u(5)) } else { None };
    let st = St { rec, wrap: o.wrap, outer: vec![], text, skip, p, inps, ats, form, alpha, more: vec![], sets: o.sets, vast: o.vast };
    c.dump(|| describe(&st));
    c.label(if text { "text" } else { "bytes" });
    c.label_if(st.skip.is_some(), "skipping context");
    st
}
pub fn describe(st: &St) -> String {
    let mut s = format!("{} form={} pattern={:?}", if st.text { "text" } else { "bytes" }, st.form, st.p);
    if let Some(r) = st.rec {
        s += &format!(" helper={r}");
    }
    if st.wrap != Wrap::No {
        s += &format!(" wrap={:?}", st.wrap);
    }
    if st.sets {
        s += " parts exchanged";
    }
    if !st.more.is_empty() {
        s += &format!(" more={:?}", st.more);
    }
    if let Some(k) = &st.skip {
        s += &format!(" skip={k:?}");
    }
    for (i, a) in st.inps.iter().zip(&st.ats) {
        s += &format!(" | {} @{}", show(&i.e), i.off[*a]);
    }
    s
}
/// build the case's pattern and hand it to `f`
pub fn with_st<R>(st: &St, f: impl FnOnce(&dyn Exec) -> R) -> R {
    let mut b = Bld::new(st.form);
    b.wrap = st.wrap;
    b.outer = st.outer.clone();
    b.more = st.more.clone();
    b.sets = st.sets;
    let (mut f, mut r) = (Some(f), None);
    with_bld(st.text, st.skip.as_ref(), &b, st.rec, &st.p, &st.inps, &mut |e| r = Some(f.take().unwrap()(e)));
    r.unwrap()
}
pub fn limit(steps: u64) {
    ticks_reset(64 * steps + 20_000);
}
pub fn model<'i>(st: &'i St, i: usize, h: HCfg) -> M<'i> {
    let mut m = M::new(&st.inps[i], st.skip.as_ref(), h);
    m.root = st.rec.map(|_| &st.p);
    if st.vast {
        m.max = 1_500_000;
    }
    m
}
pub const SPANS: HCfg = HCfg { text: false, fail: 0 };
pub const TEXT: HCfg = HCfg { text: true, fail: 0 };
pub type Bsp = Option<(usize, usize)>;
/// model results in bytes: try_mat, ctor; None when too expensive
pub struct Want {
    pub t: Bsp,
    pub te: usize,
    pub r: Bsp,
    pub re: usize,
    pub k: Option<Val>,
    pub ke: usize,
    pub steps: u64,
    pub moved: bool,
    pub log: Vec<(usize, usize)>,
    pub failed: bool,
    /// what try_mat, try_parse, and construction may report
    pub why: [u32; 3],
}
pub fn want(st: &St, i: usize, h: HCfg) -> Option<Want> {
    let inp = &st.inps[i];
    let at = st.ats[i];
    let mut m = model(st, i, h);
    let sp = |s: crate::model::S| (inp.off[s.b], inp.off[s.e] - inp.off[s.b]);
    let (mut t, mut r) = (None, None);
    let mut why = [0; 3];
    if !st.p.ctor_only() {
        t = m.t(&st.p, at);
        why[0] = m.why.get();
        r = m.r(&st.p, at);
        why[1] = m.why.get();
    }
    m.log = Some(Default::default());
    let k = m.k(&st.p, at);
    why[2] = m.why.get();
    if m.heavy() {
        return None;
    }
    let e = |x: usize| inp.off[x];
    Some(Want {
        te: e(t.map(|s| s.e).unwrap_or(at)),
        re: e(r.map(|s| s.e).unwrap_or(at)),
        t: t.map(sp),
        r: r.map(sp),
        ke: e(k.as_ref().map(|x| x.1).unwrap_or(at)),
        k: k.map(|x| x.0),
        steps: m.steps.get(),
        moved: m.far.get() > at,
        log: m.log.take().unwrap().into_inner(),
        failed: m.handler_failed.get(),
        why,
    })
}
/// cost of a full scan; None when too expensive
pub fn scan_steps(st: &St, i: usize) -> Option<u64> {
    let m = model(st, i, SPANS);
    m.scan(&st.p, st.ats[i], false, false);
    (!m.heavy()).then(|| m.steps.get())
}
pub fn at(st: &St, i: usize) -> usize {
    st.inps[i].off[st.ats[i]]
}
/// something inside may fail with the position moved
pub fn dirty_inside(p: &P, skip: Option<&Skip>) -> bool {
    matches!(skip, Some(Skip::Dirty(..)))
        || p.any(&|p| matches!(p, P::Clo(Clo::Dirty(_))) || matches!(p, P::DynRe(_, d) | P::DynCtor(_, d) if d.dirty))
}
/// made of parts that are constructed one by one
pub fn composite(p: &P) -> bool {
    matches!(
        p,
        P::Or(..) | P::Ltm(..) | P::Then(..) | P::IfThen(..) | P::Prefix(..) | P::Suffix(..) | P::Enclose(..) | P::SepOnce(..)
            | P::Sep(..) | P::Sep2(..) | P::SepCol(..) | P::Repeat(..) | P::Repeat2(..) | P::Collect(..) | P::Branch(..)
            | P::Many(..) | P::Sel(..) | P::Map(..) | P::DynCtor(..)
    )
}
/// full agreement with the reference interpreter, in both modes
pub fn agree(o: Opt) -> impl Fn(&mut Case) -> Res {
    move |c: &mut Case| {
        let st = setup(c, &o);
        let h = HCfg { text: true, fail: if c.src.chance(1, 4) { c.src.below(3) + 2 } else { 0 } };
        c.dump(|| format!("{} | handler {h:?}", describe(&st)));
        c.label_if(h.fail != 0, "failing handler");
        let (mut hit, mut miss) = (false, false);
        let r = with_st(&st, |ex: &dyn Exec| -> Res {
            for i in 0..st.inps.len() {
                let Some(w) = want(&st, i, h) else {
                    c.label("discarded");
                    continue;
                };
                hit |= w.ke > at(&st, i) || w.te > at(&st, i);
                miss |= w.k.is_none();
                agree_one(c, &st, ex, i, &w, h)?;
                if o.undo && w.k.is_none() && !dirty_inside(&st.p, st.skip.as_ref()) && composite(&st.p) {
                    limit(w.steps);
                    let (v, e) = ex.construct(i, at(&st, i), &Rec::new(h));
                    ensure!(v.is_some() || e == at(&st, i), "rejected construction of {} at {} leaves the position at {e}", show(&st.inps[i].e), at(&st, i));
                    c.comparisons += 1;
                }
                if o.look && !st.p.ctor_only() {
                    limit(2 * w.steps);
                    let a = at(&st, i);
                    ensure_eq!(ex.assert(i, a), (w.t.is_some(), a), "look-ahead by the context (answer, position) on {} at {a}", show(&st.inps[i].e));
                    c.comparisons += 1;
                }
            }
            Ok(())
        });
        c.label_if(hit, "consumed input");
        c.label_if(miss, "rejected");
        c.nontrivial = hit;
        r
    }
}
pub fn agree_one(c: &mut Case, st: &St, ex: &dyn Exec, i: usize, w: &Want, h: HCfg) -> Res {
    let a = at(st, i);
    let ctx = || format!("input {} at {}", show(&st.inps[i].e), a);
    if !st.p.ctor_only() {
        limit(w.steps);
        let (s, e) = ex.mat(i, a);
        ensure_eq!(s, w.t, "match on {}", ctx());
        ensure!(s.is_none() || e == w.te, "match on {}: position {} expected {}", ctx(), e, w.te);
        limit(w.steps);
        let (s, e) = ex.parse(i, a);
        ensure_eq!(s, w.r, "try_parse on {}", ctx());
        ensure!(s.is_none() || e == w.re, "try_parse on {}: position {} expected {}", ctx(), e, w.re);
        c.comparisons += 2;
    }
    limit(w.steps);
    let rec = Rec::new(h);
    let (v, e) = ex.ctor(i, a, &rec);
    ensure_eq!(v, w.k, "construct on {}", ctx());
    ensure!(v.is_none() || e == w.ke, "construct on {}: position {} expected {}", ctx(), e, w.ke);
    // constructing directly
    limit(w.steps);
    let (v, e) = ex.construct(i, a, &Rec::new(h));
    ensure_eq!(v, w.k, "Ctor::construct on {}", ctx());
    ensure!(v.is_none() || e == w.ke, "Ctor::construct on {}: position {} expected {}", ctx(), e, w.ke);
    c.comparisons += 2;
    Ok(())
}


/// every kind of pattern
pub const ALL: Kinds = &[
    (K::Once, 1), (K::OptU, 1), (K::Many0, 1), (K::Many1, 1), (K::Between, 2), (K::Times, 2), (K::ThenU, 1), (K::Lit, 1),
    (K::End, 1), (K::Consume, 2), (K::ConsumeAll, 1), (K::Assert, 2), (K::Pat, 1), (K::AsCtor, 1), (K::DynRe, 3), (K::Opt, 3),
    (K::Or, 3), (K::Ltm, 3), (K::Then, 3), (K::IfThen, 3), (K::Prefix, 2), (K::Suffix, 2), (K::Enclose, 2), (K::SepOnce, 2),
    (K::Sep, 3), (K::Sep2, 3), (K::SepCol, 3), (K::Repeat, 3), (K::Repeat2, 3), (K::Collect, 3), (K::Branch, 2), (K::ManyAny, 3),
    (K::ManyLtm, 3), (K::Sel, 3), (K::Map, 2), (K::SkipWs, 2), (K::Start, 1), (K::Closure, 1),
];
