//! Checks over composed patterns: generated pattern x input, real neure against the reference
//! interpreter (vpat::model) or against itself (metamorphic).
mod builtin;
mod stream;
mod table;
use vcore::{Case, Check, Res, Sub, ensure, ensure_eq, sub};
use vpat::ast::*;
use vpat::build::{Exec, Rec, Wrap, with_exec};
use vpat::r#gen::{Cfg, G, K, alphabet};
use vpat::model::{Inp, LIB, M};
use vpat::setup::*;
use vpat::typed::{Got, ScanCfg, Scanned};

// ---------------------------------------------------------------- C01
fn c01(c: &mut Case, vast: bool) -> Res {
    let st = setup(c, &Opt { kinds: ALL, skip: 3, inputs: 5, vast, depth: if vast { 2 } else { 3 }, ..BASE });
    let mut hit = 0;
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let Some(w) = want(&st, i, SPANS) else {
                c.label("discarded");
                continue;
            };
            let inp = &st.inps[i];
            let a = at(&st, i);
            let mut span = |what: &str, s: Bsp, e: usize| -> Res {
                let Some((b, l)) = s else { return Ok(()) };
                c.comparisons += 1;
                let ctx = || format!("{what} on {} from {a}: span {b}+{l}, position {e}", show(&inp.e));
                ensure!(b >= a, "{}: starts before the attempt", ctx());
                ensure!(b + l <= inp.len(), "{}: leaves the input", ctx());
                ensure!(b + l == e, "{}: does not end at the parser position", ctx());
                ensure!(inp.index_of(b).is_some() && inp.index_of(e).is_some(), "{}: not on a character boundary", ctx());
                if l > 0 {
                    hit += 1;
                }
                Ok(())
            };
            limit(w.steps);
            let (s, e) = ex.mat(i, a);
            span("match", s, e)?;
            limit(w.steps);
            let (s, e) = ex.parse(i, a);
            span("try_parse", s, e)?;
            // spans reported to a handler while constructing stay within the consumed part
            limit(w.steps);
            let rec = Rec::new(SPANS);
            let (v, e) = ex.ctor(i, a, &rec);
            if let Some(v) = v {
                ensure!(a <= e && inp.index_of(e).is_some(), "construct on {} from {a} leaves the position at {e}", show(&inp.e));
                let mut l = vec![];
                v.leaves(&mut l);
                for x in l {
                    if let Val::Sp(b, n) = x {
                        ensure!(
                            *b >= a && b + n <= e && inp.index_of(*b).is_some() && inp.index_of(b + n).is_some(),
                            "construct on {} from {a} to {e}: part {b}+{n} is not inside the consumed text",
                            show(&inp.e)
                        );
                    }
                }
            }
            // scanning reports spans the same way
            if let Some(n) = if vast { None } else { scan_steps(&st, i) } {
                limit(n);
                let (s, e) = ex.find(i, a);
                span("find", s, e)?;
            }
            // consecutive matches without repositioning
            if vast {
                continue;
            }
            limit(8 * scan_steps(&st, i).unwrap_or(100_000) + 10_000);
            let mut prev = a;
            for (s, e) in ex.seq(i, a, 3) {
                if let Some((b, l)) = s {
                    ensure!(b >= prev && b + l == e, "repeated match on {}: span {b}+{l} from {prev}, position {e}", show(&inp.e));
                }
                prev = e;
            }
        }
        Ok(())
    })?;
    c.nontrivial = hit > 0;
    c.label_if(hit > 0, "non-empty match");
    Ok(())
}
// ---------------------------------------------------------------- C02
fn c02(c: &mut Case, vast: bool) -> Res {
    let st = setup(c, &Opt { kinds: C02K, skip: 3, map_fail: true, dyn_ctor: true, inputs: 5, vast, depth: if vast { 2 } else { 3 }, ..BASE });
    let hf = [0u64, 2, 3, 5][c.src.u(4)];
    let h = HCfg { text: c.src.bool(), fail: hf };
    let direct = !dirty_inside(&st.p, st.skip.as_ref());
    let co = st.p.ctor_only();
    let mut deep = false;
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let Some(w) = want(&st, i, h) else {
                c.label("discarded");
                continue;
            };
            let a = at(&st, i);
            let inp = &st.inps[i];
            let mut failed = false;
            let mut check = |what: &str, ok: bool, e: usize| -> Res {
                c.comparisons += 1;
                if !ok {
                    failed = true;
                    ensure!(e == a, "failed {what} on {} from {a} left the position at {e}", show(&inp.e));
                }
                Ok(())
            };
            let rec = || {
                limit(w.steps);
                Rec::new(h)
            };
            if !co {
                rec();
                let (s, e) = ex.mat(i, a);
                check("match", s.is_some(), e)?;
                let (v, e) = ex.map_h(i, a, &rec());
                check("match with handler", v.is_some(), e)?;
                rec();
                let (_, e) = ex.assert(i, a);
                check("assertion", false, e)?;
                limit(2 * w.steps);
                let [(m, e), (p, f)] = ex.yes(i, a);
                check("is_mat", m, e)?;
                check("parse", p || !direct, f)?;
                if direct {
                    rec();
                    let (s, e) = ex.parse(i, a);
                    check("try_parse", s.is_some(), e)?;
                }
            }
            let (v, e) = ex.ctor(i, a, &rec());
            check("construction", v.is_some(), e)?;
            if h.fail != 0 && direct && composite(&st.p) {
                let (v, e) = ex.construct(i, a, &rec());
                check("construct with a failing handler", v.is_some(), e)?;
            }
            // a leaf constructed directly leaves it to the entry points to undo a failing handler
            if let (true, Some(w)) = (direct, want(&st, i, HCfg { fail: 0, ..h })) {
                limit(w.steps);
                let (v, e) = ex.construct(i, a, &Rec::new(HCfg { fail: 0, ..h }));
                check("construct", v.is_some(), e)?;
            }
            c.label_if(w.failed, "conversion or handler failed");
            c.label_if(w.k.is_none() && w.failed && w.moved, "failed conversion after consuming");
            deep |= failed && w.moved && (w.k.is_none() || w.t.is_none());
        }
        Ok(())
    })?;
    c.nontrivial = deep;
    c.label_if(deep, "failed after consuming");
    Ok(())
}
const C02K: Kinds = &[
    (K::ThenU, 1), (K::Times, 1), (K::Assert, 2), (K::Pat, 1), (K::AsCtor, 2), (K::DynRe, 4), (K::DynCtor, 4), (K::Opt, 2),
    (K::Or, 3), (K::Ltm, 3), (K::Then, 4), (K::IfThen, 4), (K::Prefix, 3), (K::Suffix, 3), (K::Enclose, 3), (K::SepOnce, 3),
    (K::Sep, 4), (K::Sep2, 4), (K::SepCol, 4), (K::Repeat, 4), (K::Repeat2, 4), (K::Collect, 4), (K::Branch, 3), (K::ManyAny, 3),
    (K::ManyLtm, 4), (K::Sel, 3), (K::Map, 4), (K::SkipWs, 3), (K::Closure, 2), (K::Between, 1), (K::Lit, 1), (K::Once, 1),
];
// ---------------------------------------------------------------- C03
const C27K: Kinds = &[
    (K::Map, 3), (K::Then, 3), (K::IfThen, 2), (K::Prefix, 2), (K::Suffix, 2), (K::Enclose, 2), (K::SepOnce, 2), (K::Branch, 3), (K::Closure, 3),
    (K::DynRe, 3), (K::Or, 2), (K::Ltm, 2), (K::ManyAny, 1), (K::ManyLtm, 1), (K::Pat, 1), (K::AsCtor, 1), (K::SkipWs, 1), (K::Sel, 3), (K::Times, 1),
    (K::Once, 1), (K::Many1, 1), (K::Many0, 1), (K::OptU, 1), (K::Between, 1), (K::ThenU, 1), (K::Opt, 1), (K::Assert, 1),
];
/// C27: an error raised by user code that decides the outcome is the one reported
fn c27(c: &mut Case, wrap: bool) -> Res {
    let wrap = if wrap { Wrap::Any } else { Wrap::No };
    let st = setup(c, &Opt { kinds: C27K, skip: 2, map_fail: true, dyn_ctor: true, inputs: 5, wrap, ..BASE });
    let h = HCfg { text: c.src.bool(), fail: [0u64, 2, 3, 5][c.src.u(4)] };
    let (mut sure, mut all) = (false, 0u32);
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let Some(w) = want(&st, i, h) else {
                c.label("discarded");
                continue;
            };
            let a = at(&st, i);
            limit(4 * w.steps);
            let errs = if st.p.ctor_only() { ex.ctor_errors(i, a, h) } else { ex.errors(i, a, h) };
            let co = st.p.ctor_only();
            let failed = [(!co && w.t.is_none(), w.why[0]), (!co && w.r.is_none(), w.why[1]), (w.k.is_none(), w.why[2]), (w.k.is_none(), w.why[2])];
            for ((what, e), (failed, why)) in ["try_mat", "try_parse", "ctor_handler", "construct"].iter().zip(&errs).zip(failed) {
                let (true, Some(e)) = (failed, e) else { continue };
                let bit = match e.strip_prefix("Uid(").and_then(|e| e.strip_suffix(')')) {
                    Some(n) => 1u32 << n.parse::<u32>().map_err(|e| e.to_string())?.min(31),
                    None => LIB,
                };
                let list = || (0..12).filter(|n| why >> n & 1 == 1).map(|n| if n == 0 { "the library's own".into() } else { format!("Uid({n})") }).collect::<Vec<String>>();
                ensure!(why & bit != 0, "{what} on {} from {a} reports {e}, what failed is {:?}", show(&st.inps[i].e), list());
                c.comparisons += 1;
                sure |= why & LIB == 0;
                all |= if why & LIB == 0 { why } else { 0 };
            }
        }
        Ok(())
    })?;
    for (n, l) in [(1, "skip rule"), (2, "handler"), (3, "condition"), (4, "builder"), (5, "branch test"), (6, "conversion"), (7, "constructing builder"), (8, "function"), (9, "function"), (10, "function")] {
        c.label_if(all >> n & 1 == 1, l);
    }
    c.nontrivial = sure;
    Ok(())
}
fn c03(c: &mut Case, vast: bool) -> Res {
    let st = setup(c, &Opt { kinds: ALL, skip: 0, inputs: 5, vast, depth: if vast { 2 } else { 3 }, ..BASE });
    let (mut hit, mut miss) = (false, false);
    with_exec(st.text, None, st.form, &st.p, &st.inps, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let Some(w) = want(&st, i, SPANS) else {
                c.label("discarded");
                continue;
            };
            let a = at(&st, i);
            limit(w.steps);
            let (s, e) = ex.mat(i, a);
            limit(w.steps);
            let (v, f) = ex.ctor(i, a, &Rec::new(SPANS));
            // a selection that keeps both parts only when they are equal is a conversion that may fail
            let sel = st.p.any(&|p| matches!(p, P::Sel(2, _)));
            if sel {
                c.label("equality selection (skipped)");
                continue;
            }
            let ctx = || format!("input {} from {a}", show(&st.inps[i].e));
            c.comparisons += 1;
            ensure!(s.is_some() == v.is_some(), "{}: match gives {:?}, construction gives {:?}", ctx(), s, v);
            ensure!(s.is_none() || e == f, "{}: matching leaves the position at {e}, construction at {f}", ctx());
            limit(w.steps);
            let (s2, e2) = ex.parse(i, a);
            limit(w.steps);
            let (v2, f2) = ex.construct(i, a, &Rec::new(SPANS));
            ensure!(s2.is_some() == v2.is_some(), "{}: try_parse gives {:?}, construct gives {:?}", ctx(), s2, v2);
            ensure!(s2.is_none() || e2 == f2, "{}: try_parse leaves the position at {e2}, construct at {f2}", ctx());
            // the forms that answer yes or no
            limit(2 * w.steps);
            let [(m, g), (p, q)] = ex.yes(i, a);
            ensure!((m, m && g == e) == (s.is_some(), s.is_some()), "{}: is_mat gives {m} at {g}", ctx());
            ensure!((p, p && q == e2) == (s2.is_some(), s2.is_some()), "{}: parse gives {p} at {q}", ctx());
            // constructing only the outermost span accepts the same input as well
            limit(w.steps);
            let (m, g) = ex.map_h(i, a, &Rec::new(SPANS));
            ensure!(m.is_some() == s.is_some() && (s.is_none() || g == e), "{}: matching with a handler differs: {m:?} at {g}", ctx());
            if let (Some(Val::Sp(b, l)), Some(s)) = (m, s) {
                ensure_eq!((b, l), s, "{}: span given to the handler", ctx());
            }
            hit |= s.is_some() && e > a;
            miss |= s.is_none() && w.moved;
        }
        Ok(())
    })?;
    c.nontrivial = hit || miss;
    c.label_if(hit, "both accept");
    c.label_if(miss, "both reject after partial consumption");
    Ok(())
}
/// In a skipping context the two modes accept the same inputs and stop at the same place, apart from what the rule skips
/// behind an optional part that is absent (matching has skipped in front of it, construction has not).
fn c03_skipping(c: &mut Case) -> Res {
    let mut st = setup(c, &Opt { kinds: ALL, skip: 8, infallible: true, inputs: 5, ..BASE });
    if !matches!(st.skip, Some(Skip::Many(_))) {
        st.skip = Some(Skip::Many(vec![st.alpha[0]]));
    }
    // lengths, or what comes next, decide between alternatives here, and that depends on what was skipped
    if st.p.any(&|p| matches!(p, P::Ltm(..) | P::Many(_, true, _) | P::Sel(2, _) | P::Branch(..))) {
        c.label("longest-token or branch (left out)");
        return Ok(());
    }
    let mut hit = false;
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let Some(w) = want(&st, i, SPANS) else {
                c.label("discarded");
                continue;
            };
            let a = at(&st, i);
            limit(w.steps);
            let (s, e) = ex.mat(i, a);
            limit(w.steps);
            let (v, f) = ex.ctor(i, a, &Rec::new(SPANS));
            let ctx = || format!("input {} from {a}", show(&st.inps[i].e));
            c.comparisons += 1;
            ensure!(s.is_some() == v.is_some(), "{}: match gives {:?}, construction gives {:?}", ctx(), s, v);
            if s.is_some() {
                let (lo, hi) = (e.min(f), e.max(f));
                let Some(Skip::Many(set)) = &st.skip else { unreachable!() };
                let inp = &st.inps[i];
                let gap = (0..inp.e.len()).filter(|k| inp.off[*k] >= lo && inp.off[*k] < hi).all(|k| set.contains(&inp.e[k]));
                ensure!(gap, "{}: matching leaves the position at {e}, construction at {f}", ctx());
                hit |= e > a;
            }
        }
        Ok(())
    })?;
    c.nontrivial = hit;
    Ok(())
}
// ---------------------------------------------------------------- C05
/// The stateful prefix units: `n` elements of one set, then elements of another; used once, on a fresh value.
fn c05_prefix(c: &mut Case) -> Res {
    prefix_units(c, false)
}
fn prefix_units(c: &mut Case, sets: bool) -> Res {
    use neure::prelude::*;
    use vpat::build::{Bld, El};
    let text = c.src.bool();
    let alpha = alphabet(&mut c.src, text, false);
    let cfg = Cfg::new(text);
    let mut g = G::new(&mut c.src, cfg, alpha);
    let (p, u) = (g.unit(1), g.unit(1));
    let n = g.s.weighted(&[1, 4, 3, 2, 1, 1]);
    let n = if g.s.chance(1, 30) { [8, 16, 64, 255, 256, 257, 300][g.s.u(7)] } else { n };
    let (sync, plain) = (g.s.bool(), g.s.bool());
    let (rep, form) = (g.s.u(5), g.s.below(1 << 16));
    let mut v = vec![];
    for _ in 0..n {
        g.push_unit(&p, &mut v);
    }
    for _ in 0..g.s.u(4) {
        g.push_unit(&u, &mut v);
    }
    if g.s.chance(2, 5) {
        g.mutate(&mut v);
    }
    let inp = Inp::new(text, v);
    c.dump(|| format!("prefix={p:?} x{n} unit={u:?} on {} sync={sync} plain={plain} rep={rep}", show(&inp.e)));
    // longest run
    let mut k = 0;
    while k < inp.e.len() && vpat::model::unit(if k < n { &p } else { &u }, inp.e[k], text) {
        k += 1;
    }
    let max = [usize::MAX, usize::MAX, 1, 1, n + 1][rep];
    let min = [1, 0, 1, 0, n][rep];
    let m = k.min(max);
    let want = (m >= min).then(|| (0, inp.off[m]));
    fn run<'a, C, T: El>(ctx: &mut C, p: &U, u: &U, n: usize, sync: bool, plain: bool, rep: usize, form: u64, sets: bool) -> Option<(usize, usize)>
    where
        C: Match<'a, Item = T> + 'a,
    {
        let b = Bld::new(form);
        let (p, u) = (b.unit::<T>(p), b.unit::<T>(u));
        macro_rules! go {
            ($x:expr) => {{
                let mut x = $x;
                if sets {
                    // other parts in and the original ones back
                    let (p, u) = ((&x).prefix().clone(), (&x).unit().clone());
                    if form & 1 == 0 {
                        x.set_prefix(u.clone());
                        x.set_unit(p.clone());
                    } else {
                        *x.prefix_mut() = u.clone();
                        *x.unit_mut() = p.clone();
                    }
                    if form & 2 == 0 {
                        x.set_unit(u).set_prefix(p);
                    } else {
                        *x.unit_mut() = u;
                        *x.prefix_mut() = p;
                    }
                }
                match rep {
                    0 => ctx.try_mat(&x.many1()),
                    1 => ctx.try_mat(&x.many0()),
                    2 => ctx.try_mat(&x.once()),
                    3 => ctx.try_mat(&x.opt()),
                    _ => ctx.try_mat(&x.times(n..=n + 1)),
                }
            }};
        }
        let r = match (sync, plain && n == 1) {
            (false, true) => go!(neu::prefix(p, u)),
            (false, false) => go!(neu::prefix_cnt(p, n, u)),
            (true, true) => go!(neu::prefix_sync(p, u)),
            (true, false) => go!(neu::prefix_sync_cnt(p, n, u)),
        };
        r.ok().map(|s| (s.beg, s.len))
    }
    let got = if text {
        let s = String::from_utf8(inp.bytes.clone()).unwrap();
        let mut ctx = CharsCtx::new(&s);
        run(&mut ctx, &p, &u, n, sync, plain, rep, form, sets)
    } else {
        let mut ctx = BytesCtx::new(&inp.bytes);
        run(&mut ctx, &p, &u, n, sync, plain, rep, form, sets)
    };
    ensure_eq!(got, want, "prefix unit on {}", show(&inp.e));
    c.comparisons += 1;
    c.nontrivial = k > n && n > 0;
    Ok(())
}
// ---------------------------------------------------------------- C12 (leaf values)
fn c12(c: &mut Case, vast: bool) -> Res {
    let st = setup(c, &Opt { kinds: ALL, skip: 2, dyn_ctor: true, inputs: if vast { 1 } else { 4 }, vast, depth: if vast { 2 } else { 3 }, ..BASE });
    let mut many = false;
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            // dynamic constructors may depend on the value, so the text handler decides both runs there
            let Some(w) = want(&st, i, TEXT) else {
                c.label("discarded");
                continue;
            };
            let Some(ws) = want(&st, i, SPANS) else { continue };
            let a = at(&st, i);
            let inp = &st.inps[i];
            agree_one(c, &st, ex, i, &w, TEXT)?;
            limit(ws.steps);
            let rec = Rec::new(SPANS);
            let (v, _) = ex.ctor(i, a, &rec);
            ensure_eq!(v, ws.k, "spans constructed on {} from {a}", show(&inp.e));
            // every span the handler was given, in order (includes attempts that failed later)
            if !st.p.any(&|p| matches!(p, P::Ltm(..) | P::Many(_, true, _))) {
                ensure_eq!(*rec.log.borrow(), ws.log, "handler calls on {} from {a}", show(&inp.e));
            }
            // extracting text equals slicing at the extracted spans
            let eq = st.p.any(&|p| matches!(p, P::Sel(2, _)));
            if let (Some(v), Some(t), false, false) = (&v, &w.k, st.p.ctor_only(), eq) {
                let (mut x, mut y) = (vec![], vec![]);
                v.leaves(&mut x);
                t.leaves(&mut y);
                ensure!(x.len() == y.len(), "different number of parts: {v:?} / {t:?}");
                for (x, y) in x.iter().zip(&y) {
                    if let (Val::Sp(b, l), Val::Tx(t)) = (x, y) {
                        ensure_eq!(inp.bytes[*b..b + l], t[..], "text at span {b}+{l} of {}", show(&inp.e));
                        many |= *l > 0;
                    }
                }
            }
        }
        Ok(())
    })?;
    c.nontrivial = many;
    Ok(())
}
/// every kind of value from one match
fn c12_typed(c: &mut Case) -> Res {
    let st = setup(c, &Opt { kinds: ALL, skip: 3, inputs: 3, depth: 2, ..BASE });
    let mut hit = false;
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let inp = &st.inps[i];
            let m = model(&st, i, SPANS);
            let one = m.t(&st.p, st.ats[i]);
            let two = one.and_then(|s| m.t(&st.p, s.e));
            if m.heavy() {
                c.label("discarded");
                continue;
            }
            let (a, steps) = (at(&st, i), m.steps.get());
            let b = |s: vpat::model::S| (inp.off[s.b], inp.off[s.e] - inp.off[s.b]);
            limit(32 * steps);
            for x in ex.typed(i, a) {
                let piece = |s| {
                    let (b, l) = b(s);
                    inp.bytes[b..b + l].to_vec()
                };
                let one = one.filter(|_| !x.rejects);
                let pair = |f: &dyn Fn(vpat::model::S) -> Got| {
                    one.and_then(|o| two.map(|t| (Got::Pair(Box::new((f(o), f(t)))), inp.off[t.e])))
                };
                let span = |s| Got::Span(b(s).0, b(s).1);
                let end = |g: Got| one.map(|o| (g, inp.off[o.e]));
                let want = match x.what {
                    "pair of spans" => pair(&span),
                    "pair of pieces" => pair(&|s| Got::Piece(piece(s))),
                    "ctor_span" | "map_span" | "map_handler" => one.and_then(|s| end(span(s))),
                    "extract unit" => end(Got::Unit),
                    "ctor_with" | "map_with" => one.and_then(|s| end(Got::Handler(inp.off[s.e], b(s), piece(s)))),
                    _ => one.and_then(|s| end(Got::Piece(piece(s)))),
                };
                let (w, e) = match want {
                    Some((g, e)) => (Some(g), e),
                    None => (None, a),
                };
                ensure_eq!(x.got, w, "{} on {} from {a}", x.what, show(&inp.e));
                ensure_eq!(x.pos, e, "position after {} (rejecting: {}) on {} from {a}", x.what, x.rejects, show(&inp.e));
                c.comparisons += 1;
            }
            hit |= one.is_some_and(|s| s.e > s.b);
        }
        Ok(())
    })?;
    c.nontrivial = hit;
    Ok(())
}
// ---------------------------------------------------------------- C14
fn c14(c: &mut Case, vast: bool) -> Res {
    let mut st = setup(c, &Opt { kinds: ALL, skip: if vast { 0 } else { 2 }, infallible: true, inputs: 1, depth: 2, vast, ..BASE });
    // longer inputs: several samples after one another with noise in between
    st.inps.clear();
    st.ats.clear();
    let mut cfg = Cfg::new(st.text);
    cfg.depth = 2;
    for _ in 0..2 {
        let mut v = vec![];
        let mut g = G::new(&mut c.src, cfg.clone(), st.alpha.clone());
        for _ in 0..g.s.range(1, 4) {
            g.sample(&st.p, st.skip.as_ref(), &mut v);
            if g.s.bool() {
                let t = g.els(0, 2);
                v.extend(t);
            }
        }
        g.mutate(&mut v);
        if vast && !v.is_empty() {
            let (i, n) = (g.s.u(v.len()), g.s.range(1, 6));
            let seg = v[i..v.len().min(i + n)].to_vec();
            let n = g.s.range(1000, 30_000) * seg.len();
            v.splice(i..i, seg.into_iter().cycle().take(n));
        } else {
            v.truncate(40);
        }
        let n = v.len();
        st.inps.push(Inp::new(st.text, v));
        st.ats.push(if g.s.chance(1, 3) { g.s.u(n + 1) } else { 0 });
    }
    c.dump(|| format!("scanned: {}", st.inps.iter().zip(&st.ats).map(|(i, a)| format!("{} @{}", show(&i.e), i.off[*a])).collect::<Vec<_>>().join(" | ")));
    let ks: Vec<ScanCfg> = (0..2)
        .map(|_| {
            let mask = |s: &mut vcore::Src| if s.bool() { s.below(256) & s.below(256) } else { 0 };
            let (map_rejects, func_drops) = (mask(&mut c.src), mask(&mut c.src));
            ScanCfg { map_rejects, func_drops, take: if c.src.bool() { usize::MAX } else { c.src.u(4) }, all: c.src.chance(2, 3) }
        })
        .collect();
    let (mut multi, mut rejected) = (0, false);
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let inp = &st.inps[i];
            let (ai, a) = (st.ats[i], at(&st, i));
            let ctx = || format!("{} from {a}", show(&inp.e));
            let m = model(&st, i, SPANS);
            let (one, oe) = m.scan(&st.p, ai, false, true);
            let (all, ae) = m.scan(&st.p, ai, false, false);
            let (seq, se) = m.scan(&st.p, ai, true, false);
            if m.heavy() {
                c.label("discarded");
                continue;
            }
            let steps = m.steps.get();
            limit(steps);
            let (s, e) = ex.find(i, a);
            ensure_eq!(s, one.first().copied(), "find on {}", ctx());
            ensure_eq!(e, oe, "position after find on {}", ctx());
            limit(steps);
            let (s, e) = ex.find_all(i, a);
            ensure_eq!(s, all, "find_all on {}", ctx());
            ensure_eq!(e, ae, "position after find_all on {}", ctx());
            limit(steps);
            let (s, e) = ex.match_seq(i, a);
            ensure_eq!(s, seq, "match_seq on {}", ctx());
            ensure_eq!(e, se, "position after match_seq on {}", ctx());
            limit(4 * steps);
            let p = |v: &[(usize, usize)]| v.iter().map(|(b, l)| inp.bytes[*b..b + l].to_vec()).collect::<Vec<_>>();
            let (o1, o2, o3) = ex.pieces(i, a);
            ensure_eq!(o1, p(&one).pop(), "piece found on {}", ctx());
            ensure_eq!(o2, p(&all), "pieces of find_all on {}", ctx());
            ensure_eq!(o3, p(&seq), "pieces of match_seq on {}", ctx());
            // user functions: matches dropped or rejected do not end the scan
            let k = &ks[i];
            let mut want = Scanned { out: vec![], given: vec![], pos: ae };
            if k.take == 0 && k.all {
                want.pos = a;
            } else {
                for (n, x) in all.iter().enumerate() {
                    if k.func_drops >> n.min(63) & 1 == 1 {
                        continue;
                    }
                    want.given.push(*x);
                    if k.map_rejects >> (want.given.len() - 1).min(63) & 1 == 0 {
                        want.out.push(*x);
                        if want.out.len() == if k.all { k.take } else { 1 } {
                            want.pos = x.0 + x.1;
                            break;
                        }
                    }
                }
            }
            limit(2 * steps);
            ensure_eq!(ex.scan_with(i, a, *k), want, "scan with {k:?} on {}", ctx());
            c.comparisons += 7;
            rejected |= want.given.len() > want.out.len();
            multi = multi.max(all.len());
        }
        Ok(())
    })?;
    c.nontrivial = multi >= 1;
    c.label_if(multi >= 2, "several matches");
    c.label_if(rejected, "a match was rejected");
    Ok(())
}
// ---------------------------------------------------------------- C15
/// Inserting skippable elements between tokens changes neither what is extracted nor acceptance.
fn squeeze(v: &Val, ws: &[E]) -> Val {
    let bx = |v: &Val| Box::new(squeeze(v, ws));
    match v {
        Val::Tx(t) => Val::Tx(t.iter().copied().filter(|b| !ws.contains(&E(*b as u32))).collect()),
        Val::Pair(a, b) => Val::Pair(bx(a), bx(b)),
        Val::Opt(o) => Val::Opt(o.as_ref().map(|v| bx(v))),
        Val::List(l) => Val::List(l.iter().map(|v| squeeze(v, ws)).collect()),
        Val::Arr(l) => Val::Arr(l.iter().map(|o| o.as_ref().map(|v| squeeze(v, ws))).collect()),
        Val::Tag(t, v) => Val::Tag(*t, bx(v)),
        v => v.clone(),
    }
}
fn c15_insert(c: &mut Case) -> Res {
    let text = c.src.bool();
    let alpha = alphabet(&mut c.src, text, false);
    let ws: Vec<E> = if c.src.bool() { vec![E(' ' as u32), E('\n' as u32)] } else { vec![E(' ' as u32)] };
    let toks: Vec<E> = alpha.into_iter().filter(|e| !ws.contains(e)).collect();
    let mut cfg = Cfg::new(text);
    cfg.abs = false;
    cfg.branch = false;
    cfg.conds = false;
    cfg.dirty = false;
    let form = c.src.below(1 << 16);
    let mut g = G::new(&mut c.src, cfg, toks);
    let p = g.focused(ALL, true);
    // a match of several tokens extracted as one piece includes what was inserted between them
    let spread = p.any(&|p| matches!(p, P::Pat(_) | P::AsCtor(_) | P::DynRe(..) | P::Assert(..) | P::SkipWs(..)));
    let slack = |p: &P| p.any(&|p| p.nullable() || matches!(p, P::SkipWs(..)));
    // ties between longest matches that are empty depend on where the skip rule left off
    if p.any(&|p| match p {
        P::Start => true,
        // the predicate looks at the unskipped input
        P::Branch(BT::NextIs(_) | BT::ErrIf(_) | BT::ErrEnd, ..) => true,
        // text of several tokens is compared, with the blanks between them
        P::Sel(2, _) => spread,
        // chooses by the length or the text of what was matched
        P::DynRe(..) => true,
        P::Ltm(a, b) => slack(a) || slack(b),
        P::Many(_, true, v) => v.iter().any(slack),
        _ => false,
    }) {
        c.label("discarded");
        return Ok(());
    }
    let skip = Skip::Many(ws.clone());
    let (v, at0) = g.input(&p, None);
    let v: Vec<E> = v.into_iter().filter(|e| !ws.contains(e)).collect();
    let at0 = at0.min(v.len());
    let base = Inp::new(text, v.clone());
    let mut m = M::new(&base, Some(&skip), TEXT);
    m.inside = Some(vec![false; v.len() + 1].into());
    m.t(&p, at0);
    let k = m.k(&p, at0);
    if m.heavy() {
        c.label("discarded");
        return Ok(());
    }
    let inside = m.inside.take().unwrap().into_inner();
    let (mut w, mut at1) = (vec![], 0);
    for i in 0..=v.len() {
        if i == at0 {
            at1 = w.len();
        }
        if i >= at0 && !inside[i] {
            for _ in 0..g.s.weighted(&[2, 2, 1]) {
                let x = g.s.u(ws.len());
                w.push(ws[x]);
            }
        }
        if i < v.len() {
            w.push(v[i]);
        }
    }
    let steps = m.steps.get();
    let inps = [base.clone(), Inp::new(text, w)];
    c.dump(|| {
        format!(
            "{} form={form} pattern={p:?} skip={skip:?} base={} @{at0} spaced={} @{at1}",
            if text { "text" } else { "bytes" },
            show(&inps[0].e),
            show(&inps[1].e)
        )
    });
    with_exec(text, Some(&skip), form, &p, &inps, |ex: &dyn Exec| -> Res {
        let (a, b) = (inps[0].off[at0], inps[1].off[at1]);
        limit(steps * 4);
        let (x, _) = ex.ctor(0, a, &Rec::new(TEXT));
        limit(steps * 4);
        let (y, _) = ex.ctor(1, b, &Rec::new(TEXT));
        let y = if spread { y.map(|y| squeeze(&y, &ws)) } else { y };
        ensure_eq!(y, x, "tokens extracted from {} and from {}", show(&inps[1].e), show(&inps[0].e));
        limit(steps * 4);
        let (s, _) = ex.mat(0, a);
        limit(steps * 4);
        let (t, _) = ex.mat(1, b);
        ensure_eq!(t.is_some(), s.is_some(), "{} matched / {} matched", show(&inps[1].e), show(&inps[0].e));
        c.comparisons += 2;
        Ok(())
    })?;
    c.nontrivial = k.is_some_and(|k| k.1 > at0) && inps[1].e.len() > inps[0].e.len();
    Ok(())
}
/// one-off rules around a single match
fn c15_policy(c: &mut Case) -> Res {
    let mut st = setup(c, &Opt { kinds: ALL, skip: 2, inputs: 1, depth: 2, ..BASE });
    st.inps.clear();
    st.ats.clear();
    let mut cfg = Cfg::new(st.text);
    cfg.depth = 2;
    let mut g = G::new(&mut c.src, cfg, st.alpha.clone());
    st.more = (0..2).map(|_| g.any(1, false)).collect();
    for _ in 0..3 {
        let mut v = g.els(0, 2);
        let n = v.len();
        let (b, a) = (g.s.chance(3, 4), g.s.chance(3, 4));
        if b {
            g.sample(&st.more[0], st.skip.as_ref(), &mut v);
        }
        g.sample(&st.p, st.skip.as_ref(), &mut v);
        if a {
            g.sample(&st.more[1], st.skip.as_ref(), &mut v);
        }
        g.mutate(&mut v);
        v.truncate(32);
        st.ats.push(n.min(v.len()));
        st.inps.push(Inp::new(st.text, v));
    }
    c.dump(|| describe(&st));
    let (mut hit, mut late) = (false, false);
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let inp = &st.inps[i];
            let a = at(&st, i);
            for (before, after) in [(true, true), (true, false), (false, true), (false, false)] {
                let m = model(&st, i, SPANS);
                let mut o = Some(st.ats[i]);
                if before {
                    o = m.r(&st.more[0], o.unwrap()).map(|s| s.e);
                }
                let mid = o.and_then(|o| m.r(&st.p, o));
                o = mid.map(|s| s.e);
                if after {
                    o = o.and_then(|o| m.r(&st.more[1], o)).map(|s| s.e);
                }
                if m.heavy() {
                    c.label("discarded");
                    continue;
                }
                let want = o.and(mid).map(|s| (inp.off[s.b], inp.off[s.e] - inp.off[s.b]));
                late |= mid.is_some_and(|s| s.e > st.ats[i]) && o.is_none();
                limit(m.steps.get());
                let (s, e) = ex.policy(i, a, before, after);
                let what = || format!("match with a rule before: {before}, after: {after} on {} from {a}", show(&inp.e));
                ensure_eq!(s, want, "{}", what());
                ensure_eq!(e, o.map(|o| inp.off[o]).unwrap_or(a), "position after {}", what());
                c.comparisons += 1;
                hit |= o.is_some_and(|o| o > st.ats[i]);
            }
        }
        Ok(())
    })?;
    c.nontrivial = hit;
    c.label_if(late, "failed after the pattern");
    Ok(())
}
fn c15_empty(c: &mut Case) -> Res {
    let st = setup(c, &Opt { kinds: ALL, skip: 0, inputs: 4, dyn_ctor: true, ..BASE });
    let mut hit = false;
    let mut plain = vec![];
    with_exec(st.text, None, st.form, &st.p, &st.inps, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let Some(w) = want(&st, i, TEXT) else {
                plain.push(None);
                continue;
            };
            let a = at(&st, i);
            limit(w.steps);
            let t = if st.p.ctor_only() { (None, 0) } else { ex.mat(i, a) };
            limit(w.steps);
            let k = ex.ctor(i, a, &Rec::new(TEXT));
            let n = if st.p.ctor_only() { None } else { scan_steps(&st, i) };
            let f = n.map(|n| {
                limit(n);
                (n, ex.find_all(i, a))
            });
            plain.push(Some((w.steps, t, k, f)));
        }
        Ok(())
    })?;
    let rule = if c.src.bool() { Skip::Empty } else { Skip::Many(vec![E(0xee)]) };
    // a rule whose elements do not occur
    if let Skip::Many(v) = &rule {
        if st.inps.iter().any(|i| i.e.contains(&v[0])) {
            return Ok(());
        }
    }
    with_exec(st.text, Some(&rule), st.form, &st.p, &st.inps, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let Some((steps, t, k, f)) = &plain[i] else { continue };
            let a = at(&st, i);
            let ctx = || format!("{} from {a}", show(&st.inps[i].e));
            if !st.p.ctor_only() {
                limit(*steps);
                ensure_eq!(ex.mat(i, a), *t, "match on {} with a rule that skips nothing", ctx());
                if let Some((n, f)) = f {
                    limit(*n);
                    ensure_eq!(ex.find_all(i, a), *f, "find_all on {} with a rule that skips nothing", ctx());
                }
            }
            limit(*steps);
            ensure_eq!(ex.ctor(i, a, &Rec::new(TEXT)), *k, "construction on {} with a rule that skips nothing", ctx());
            c.comparisons += 3;
            hit |= k.0.is_some() && k.1 > a;
        }
        Ok(())
    })?;
    c.nontrivial = hit;
    Ok(())
}
// ---------------------------------------------------------------- C21
fn no_anchor(p: &P) -> bool {
    !p.any(&|p| matches!(p, P::Start))
}
fn shift(v: &Val, d: usize) -> Val {
    match v {
        Val::Sp(b, l) => Val::Sp(b + d, *l),
        Val::Pair(a, b) => Val::Pair(Box::new(shift(a, d)), Box::new(shift(b, d))),
        Val::Opt(o) => Val::Opt(o.as_ref().map(|v| Box::new(shift(v, d)))),
        Val::List(l) => Val::List(l.iter().map(|v| shift(v, d)).collect()),
        Val::Arr(l) => Val::Arr(l.iter().map(|o| o.as_ref().map(|v| shift(v, d))).collect()),
        Val::Tag(t, v) => Val::Tag(*t, Box::new(shift(v, d))),
        v => v.clone(),
    }
}
fn c21_shift(c: &mut Case, vast: bool) -> Res {
    let mut st = setup(c, &Opt { kinds: ALL, skip: 2, abs: false, inputs: 2, vast, depth: if vast { 2 } else { 3 }, ..BASE });
    if !no_anchor(&st.p) {
        c.label("discarded");
        return Ok(());
    }
    // odd entries: the same rest behind another prefix; then another tail behind what was looked at
    let mut inps = vec![];
    let mut ats = vec![];
    for i in 0..st.inps.len() {
        let e = &st.inps[i].e;
        let a = st.ats[i];
        let mut g = G::new(&mut c.src, Cfg::new(st.text), st.alpha.clone());
        let mut q = g.els(0, 4);
        let pl = q.len();
        q.extend_from_slice(&e[a..]);
        let m = model(&st, i, SPANS);
        m.t(&st.p, a);
        m.k(&st.p, a);
        let seen = m.seen.get().max(a);
        // everything after the last element looked at may change
        let mut t: Vec<E> = e[..(seen + 1).min(e.len())].to_vec();
        if seen < e.len() {
            let x = g.els(0, 4);
            t.extend(x);
        }
        inps.push(st.inps[i].clone());
        ats.push(a);
        inps.push(Inp::new(st.text, q));
        ats.push(pl);
        inps.push(Inp::new(st.text, t));
        ats.push(a);
    }
    st.inps = inps;
    st.ats = ats;
    c.dump(|| describe(&st));
    let mut hit = false;
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in (0..st.inps.len()).step_by(3) {
            let Some(w) = want(&st, i, SPANS) else {
                c.label("discarded");
                continue;
            };
            let (a, b) = (at(&st, i), at(&st, i + 1));
            let sp = |s: Bsp, at: usize| s.map(|(x, l)| (x as i64 - at as i64, l));
            limit(w.steps);
            let (s0, e0) = ex.mat(i, a);
            limit(w.steps);
            let (s1, e1) = ex.mat(i + 1, b);
            let ctx = || format!("{} from {a} / {} from {b}", show(&st.inps[i].e), show(&st.inps[i + 1].e));
            ensure_eq!(sp(s1, b), sp(s0, a), "span relative to the start, {}", ctx());
            ensure!(s0.is_none() || e1 - b == e0 - a, "position, {}", ctx());
            limit(w.steps);
            let (v0, f0) = ex.ctor(i, a, &Rec::new(SPANS));
            limit(w.steps);
            let (v1, f1) = ex.ctor(i + 1, b, &Rec::new(SPANS));
            // spans are compared after moving both to the same origin
            let big = a.max(b);
            ensure_eq!(
                v1.as_ref().map(|v| shift(v, big - b)),
                v0.as_ref().map(|v| shift(v, big - a)),
                "constructed spans, {}",
                ctx()
            );
            ensure!(v0.is_none() || f1 - b == f0 - a, "position after construction, {}", ctx());
            // another tail
            limit(w.steps);
            let (s2, e2) = ex.mat(i + 2, a);
            ensure_eq!((s2, if s2.is_some() { e2 } else { 0 }), (s0, if s0.is_some() { e0 } else { 0 }),
                "match on {} (other input behind the last element looked at: {})", show(&st.inps[i].e), show(&st.inps[i + 2].e));
            limit(w.steps);
            let (v2, _) = ex.ctor(i + 2, a, &Rec::new(SPANS));
            ensure_eq!(v2, v0, "construction on {} (other input behind the last element looked at: {})", show(&st.inps[i].e), show(&st.inps[i + 2].e));
            c.comparisons += 4;
            hit |= s0.is_some() && e0 > a;
            c.label_if(st.inps[i + 2].e != st.inps[i].e, "other tail");
        }
        Ok(())
    })?;
    c.nontrivial = hit;
    Ok(())
}
fn c21_ascii(c: &mut Case) -> Res {
    let mut o = Opt { kinds: ALL, skip: 2, ascii: true, inputs: 3, ..BASE };
    o.map_fail = true;
    o.dyn_ctor = true;
    let mut st = setup(c, &o);
    // only units that exist for both and mean the same on ASCII
    if !ascii_pattern(&st.p) || st.inps.iter().any(|i| i.e.iter().any(|e| e.0 >= 128)) {
        c.label("discarded");
        return Ok(());
    }
    let mut res: Vec<Vec<String>> = vec![];
    let mut hit = false;
    for text in [true, false] {
        let inps: Vec<Inp> = st.inps.iter().map(|i| Inp::new(text, i.e.clone())).collect();
        st.inps = inps;
        st.text = text;
        let mut out = vec![];
        with_exec(text, st.skip.as_ref(), st.form, &st.p, &st.inps, |ex: &dyn Exec| {
            for i in 0..st.inps.len() {
                let Some(w) = want(&st, i, TEXT) else { continue };
                let a = at(&st, i);
                if !st.p.ctor_only() {
                    limit(w.steps);
                    out.push(format!("match {:?}", ex.mat(i, a)));
                    if let Some(n) = scan_steps(&st, i) {
                        limit(n);
                        out.push(format!("find_all {:?}", ex.find_all(i, a)));
                    }
                }
                limit(w.steps);
                let k = ex.ctor(i, a, &Rec::new(TEXT));
                hit |= k.0.is_some() && k.1 > a;
                out.push(format!("construct {k:?}"));
            }
        });
        res.push(out);
    }
    for (a, b) in res[0].iter().zip(&res[1]) {
        ensure!(a == b, "text gives {a}, bytes give {b}");
        c.comparisons += 1;
    }
    c.nontrivial = hit;
    Ok(())
}
fn ascii_unit(u: &U) -> bool {
    match u {
        U::Class(c) => CLASSES.iter().position(|x| x == c).unwrap() >= BYTE_CLASSES_FROM,
        U::Not(u) => ascii_unit(u),
        U::And(a, b) | U::Or(a, b) => ascii_unit(a) && ascii_unit(b),
        _ => true,
    }
}
fn ascii_pattern(p: &P) -> bool {
    !p.any(&|p| match p {
        P::Once(u, _) | P::OptU(u, _) | P::Many0(u, _) | P::Many1(u, _) | P::Between(_, u, _) | P::Times(_, u, _) => !ascii_unit(u),
        P::ThenU(a, b, _) => !ascii_unit(a) || !ascii_unit(b),
        P::SkipWs(k, _) => k % 2 == 0,
        _ => false,
    })
}
// ---------------------------------------------------------------- C25
fn c25(c: &mut Case) -> Res {
    let mut st = setup(c, &Opt { kinds: ALL, skip: 2, map_fail: true, dyn_ctor: true, inputs: 3, ..BASE });
    let hf = [0u64, 2, 3][c.src.u(3)];
    let h = HCfg { text: c.src.bool(), fail: hf };
    if !st.text && c.src.chance(1, 3) {
        // arbitrary bytes
        let n = c.src.u(20);
        let v = (0..n).map(|_| E(c.src.below(256) as u32)).collect();
        st.inps.push(Inp::new(false, v));
        st.ats.push(0);
    }
    if c.src.chance(1, 6) {
        // long input
        let mut v = vec![];
        for i in &st.inps {
            v.extend_from_slice(&i.e);
        }
        let base = v.clone();
        for _ in 0..c.src.range(1, 3) {
            v.extend_from_slice(&base);
        }
        v.truncate(150);
        st.inps.push(Inp::new(st.text, v));
        st.ats.push(0);
    }
    for i in 0..st.inps.len() {
        if st.inps[i].e.len() > 200 {
            st.inps[i] = Inp::new(st.text, st.inps[i].e[..200].to_vec());
        }
    }
    let mut any = false;
    with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let n = st.inps[i].len();
            // step bound: the most expensive start position of the reference interpreter
            let mut steps = 0;
            let mut heavy = false;
            for a in 0..=st.inps[i].e.len() {
                let m = model(&st, i, h);
                if !st.p.ctor_only() {
                    m.t(&st.p, a);
                }
                m.k(&st.p, a);
                heavy |= m.heavy();
                steps = steps.max(m.steps.get());
            }
            if heavy {
                c.label("discarded");
                continue;
            }
            let pos: Vec<usize> =
                if n <= 24 { (0..=n).collect() } else { (0..12).map(|k| if k == 0 { n } else { (k * 7919) % (n + 1) }).collect() };
            for a in pos {
                any |= n > 0;
                if !st.p.ctor_only() {
                    limit(steps);
                    let (_, e) = ex.mat(i, a);
                    ensure!(e <= n, "position {e} outside the input of {n} bytes");
                    limit(steps);
                    ex.parse(i, a);
                    limit(steps);
                    ex.map_h(i, a, &Rec::new(h));
                    limit(steps);
                    ex.assert(i, a);
                    limit(steps * (n as u64 + 2));
                    ex.find(i, a);
                    limit(steps * (n as u64 + 2));
                    ex.find_all(i, a);
                    limit(steps * (n as u64 + 2));
                    ex.match_seq(i, a);
                    c.comparisons += 6;
                }
                limit(steps);
                let (_, e) = ex.ctor(i, a, &Rec::new(h));
                ensure!(e <= n, "position {e} outside the input of {n} bytes");
                limit(steps);
                ex.construct(i, a, &Rec::new(h));
                c.comparisons += 2;
            }
            c.label_if(n > st.inps[i].e.len(), "multi-byte");
        }
        Ok(())
    })?;
    c.nontrivial = any;
    Ok(())
}

fn mk(id: &'static str, rule: &str, subs: Vec<Sub>) -> Check {
    Check {
        id,
        rule: rule.into(),
        assumptions: vec![
            "patterns are built through the public API; user closures inside them are deterministic".into(),
            "unbounded repetition is generated over bodies that consume input only".into(),
            "cases whose reference evaluation exceeds 60000 steps are discarded (label `discarded`)".into(),
        ],
        subs,
    }
}
const R: &str = "a case (one generated pattern with several generated inputs) is non-trivial when at least one run matched and consumed input; distinct = distinct choice sequences";
fn main() {
    const C05K: Kinds = &[
        (K::Once, 3), (K::OptU, 3), (K::Many0, 4), (K::Many1, 4), (K::Between, 4), (K::Times, 5), (K::ThenU, 4),
    ];
    const C06K: Kinds = &[
        (K::Then, 5), (K::IfThen, 5), (K::Prefix, 3), (K::Suffix, 3), (K::Enclose, 4), (K::SepOnce, 4), (K::Sel, 5),
        (K::Branch, 4), (K::Map, 1), (K::Pat, 1), (K::SkipWs, 1),
    ];
    const C07K: Kinds = &[(K::Or, 5), (K::Opt, 4), (K::ManyAny, 6)];
    const C08K: Kinds = &[(K::Ltm, 5), (K::ManyLtm, 7)];
    const C09K: Kinds = &[(K::Repeat, 5), (K::Repeat2, 5), (K::Collect, 4)];
    const C10K: Kinds = &[(K::Sep, 5), (K::Sep2, 5), (K::SepCol, 5)];
    const C11K: Kinds = &[
        (K::Lit, 5), (K::Start, 2), (K::End, 2), (K::Empty, 1), (K::Fail, 1), (K::Unit, 1), (K::Consume, 4), (K::ConsumeAll, 2),
        (K::Assert, 7), (K::Closure, 1),
    ];
    /// patterns with parts that can be exchanged
const C26K: Kinds = &[
    (K::Once, 2), (K::OptU, 2), (K::Many0, 2), (K::Many1, 2), (K::Between, 2), (K::Times, 3), (K::ThenU, 3), (K::Assert, 3),
    (K::Pat, 2), (K::AsCtor, 2), (K::Opt, 2), (K::Or, 2), (K::Ltm, 2), (K::Then, 2), (K::IfThen, 3), (K::Prefix, 3),
    (K::Suffix, 3), (K::Enclose, 3), (K::SepOnce, 3), (K::Sep, 4), (K::Sep2, 4), (K::SepCol, 4), (K::Repeat, 4),
    (K::Repeat2, 3), (K::Collect, 3), (K::Branch, 3), (K::ManyAny, 3), (K::ManyLtm, 3), (K::Sel, 2), (K::Map, 3), (K::DynRe, 2), (K::DynCtor, 3),
];
const C24K: Kinds = &[(K::DynRe, 5), (K::DynCtor, 5)];
    let f = |kinds: Kinds| Opt { kinds, ..BASE };
    // tens of thousands of elements
    let vast = |kinds: Kinds| sub("vast", 3000, 4, agree(Opt { vast: true, inputs: 2, depth: 2, ..f(kinds) }));
    let checks = vec![
        mk("C01", "a case is non-trivial when at least one run reported a non-empty match; distinct = distinct choice sequences",
            vec![sub("spans", 1800_000, 20, |c| c01(c, false)), sub("vast", 3000, 4, |c| c01(c, true))]),
        mk("C02", "a case is non-trivial when at least one failing run had consumed input before it failed (furthest successful sub-match of the reference run lies after the start)",
            vec![sub("rollback", 1800_000, 20, |c| c02(c, false)), sub("vast", 3000, 4, |c| c02(c, true))]),
        mk("C03", "a case is non-trivial when a run accepted and consumed input, or rejected after a part had consumed input",
            vec![sub("modes", 1800_000, 20, |c| c03(c, false)), sub("vast", 3000, 4, |c| c03(c, true)), sub("skipping", 900_000, 20, c03_skipping)]),
        mk("C27", "a case is non-trivial when a run fails for which only errors raised by user code may be reported",
            vec![sub("errors", 1200_000, 20, |c| c27(c, false)), sub("wrapped", 500_000, 20, |c| c27(c, true)), sub("entries", 100_000, 10, table::user_errors)]),
        mk("C05", R, vec![
            sub("model", 1500_000, 20, agree(Opt { inputs: 5, ..f(C05K) })),
            sub("prefix", 400_000, 20, c05_prefix),
            vast(C05K),
        ]),
        mk("C06", R, vec![sub("model", 1500_000, 20, agree(Opt { dyn_ctor: true, ..f(C06K) })), vast(C06K)]),
        mk("C07", R, vec![sub("model", 1500_000, 20, agree(f(C07K))), vast(C07K)]),
        mk("C08", R, vec![sub("model", 1500_000, 20, agree(f(C08K))), vast(C08K)]),
        mk("C09", R, vec![sub("model", 1500_000, 20, agree(Opt { inputs: 5, ..f(C09K) })), vast(C09K)]),
        mk("C10", R, vec![sub("model", 1500_000, 20, agree(Opt { inputs: 5, ..f(C10K) })), vast(C10K)]),
        mk("C11", R, vec![sub("model", 1800_000, 20, agree(Opt { look: true, ..f(C11K) })), vast(C11K), sub("not_operator", 100_000, 10, table::not_operator)]),
        mk("C12", R, vec![sub("leaves", 1500_000, 20, |c| c12(c, false)), sub("vast", 3000, 4, |c| c12(c, true)), sub("typed", 500_000, 20, c12_typed)]),
        mk("C14", "a case is non-trivial when the reference finds at least one non-empty match", vec![sub("scan", 1500_000, 20, |c| c14(c, false)), sub("vast", 3000, 4, |c| c14(c, true))]),
        mk("C15", R, vec![
            sub("model", 1200_000, 20, agree(Opt { skip: 8, dyn_ctor: true, ..f(ALL) })),
            sub("insert", 900_000, 20, c15_insert),
            sub("empty_rule", 600_000, 20, c15_empty),
            sub("policy", 400_000, 20, c15_policy),
            sub("builtin", 400_000, 20, builtin::check),
            sub("vast", 3000, 4, agree(Opt { vast: true, inputs: 2, depth: 2, skip: 8, ..f(ALL) })),
        ]),
        mk("C21", R, vec![sub("shift", 1500_000, 20, |c| c21_shift(c, false)), sub("vast", 500, 8, |c| c21_shift(c, true)), sub("ascii", 1200_000, 20, c21_ascii)]),
        mk("C26", R, vec![sub("exchange", 1500_000, 20, agree(Opt { sets: true, dyn_ctor: true, skip: 2, ..f(C26K) })),
            sub("vast", 3000, 4, agree(Opt { vast: true, sets: true, dyn_ctor: true, inputs: 2, depth: 2, ..f(C26K) })),
            sub("prefix_units", 200_000, 20, |c| prefix_units(c, true)),
            sub("defaults", 60_000, 10, table::default_values), sub("parts", 100_000, 10, table::parts)]),
        mk("C24", R, vec![sub("model", 1200_000, 20, agree(Opt { dyn_ctor: true, undo: true, ..f(C24K) })),
            sub("streams", 300_000, 20, stream::binary), sub("text", 300_000, 20, stream::text)]),
        mk("C25", "a case is non-trivial when it ran on at least one non-empty input (every byte position of short inputs is tried)",
            vec![sub("total", 750_000, 20, c25)]),
    ];
    vcore::main(checks);
}
