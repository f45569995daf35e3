//! C16: a pattern behind wrappers behaves as the pattern.
use vcore::{Case, Check, Res, ensure, ensure_eq, sub};
use vpat::ast::*;
use vpat::build::{Exec, Rec, Wrap};
use vpat::setup::*;
use vpat::wrap;

/// one pattern, bare and inside a stack of wrappers
fn stack(c: &mut Case) -> Res {
    let mut st = setup(c, &Opt { kinds: ALL, inputs: 4, skip: 3, depth: 2, dyn_ctor: false, ..BASE });
    let n = c.src.weighted(&[0, 6, 4, 2, 1]);
    let leaf_ok = c.src.bool();
    let outer: Vec<usize> = (0..n).map(|_| c.src.u(if leaf_ok { wrap::ALL } else { wrap::FULL })).collect();
    let leaf = outer.iter().any(|k| *k >= wrap::FULL);
    let h = HCfg { text: c.src.bool(), fail: if c.src.chance(1, 4) { c.src.below(3) + 2 } else { 0 } };
    let what = outer.iter().map(|k| wrap::name(*k)).collect::<Vec<_>>().join(" < ");
    c.dump(|| format!("{} | wrappers {what} | handler {h:?}", describe(&st)));
    c.label(if leaf { "matching wrapper" } else { "forwarding wrappers" });
    let wants: Vec<Option<u64>> = (0..st.inps.len()).map(|i| want(&st, i, h).map(|w| w.steps)).collect();
    let scans: Vec<Option<u64>> = (0..st.inps.len()).map(|i| scan_steps(&st, i)).collect();
    let bare = |st: &St, f: &mut dyn FnMut(&dyn Exec, usize)| with_st(st, |ex| (0..st.inps.len()).for_each(|i| f(ex, i)));
    struct Out {
        mat: (Bsp, usize),
        parse: (Bsp, usize),
        find: Option<((Bsp, usize), (Vec<(usize, usize)>, usize))>,
        ass: (bool, usize),
        ctor: [(Option<Val>, usize, Vec<(usize, usize)>); 2],
        map: (Option<Val>, usize),
        errs: [Option<String>; 4],
    }
    let mut run = |st: &St| -> Vec<Option<Out>> {
        let mut v = vec![];
        let k = 2 * st.outer.len() as u64 + 2;
        bare(st, &mut |ex, i| {
            let Some(w) = wants[i] else {
                c.label("discarded");
                return v.push(None);
            };
            let a = at(st, i);
            limit(12 * k * w);
            let r = |n: usize| {
                let rec = Rec::new(h);
                let (v, e) = if n == 0 { ex.ctor(i, a, &rec) } else { ex.construct(i, a, &rec) };
                let log = rec.log.borrow().clone();
                (v, e, log)
            };
            let mut o = Out {
                mat: ex.mat(i, a),
                parse: ex.parse(i, a),
                find: None,
                ass: ex.assert(i, a),
                ctor: [r(0), r(1)],
                map: ex.map_h(i, a, &Rec::new(h)),
                errs: ex.errors(i, a, h),
            };
            if let Some(s) = scans[i] {
                limit(3 * k * s);
                o.find = Some((ex.find(i, a), ex.find_all(i, a)));
            }
            v.push(Some(o));
        });
        v
    };
    let plain = run(&st);
    st.outer = outer;
    let wrapped = run(&st);
    let mut hit = false;
    for (i, (p, w)) in plain.iter().zip(&wrapped).enumerate() {
        let (Some(p), Some(w)) = (p, w) else { continue };
        let on = || format!("{what}: input {} at {}", show(&st.inps[i].e), at(&st, i));
        ensure_eq!(w.mat, p.mat, "match, {}", on());
        // a wrapper that calls try_mat on what is inside may restore the position after a failure
        ensure_eq!(w.parse.0, p.parse.0, "try_parse, {}", on());
        ensure!(w.parse.0.is_none() || w.parse == p.parse, "try_parse position {} instead of {}, {}", w.parse.1, p.parse.1, on());
        ensure_eq!(w.find, p.find, "find / find_all, {}", on());
        ensure_eq!(w.ass, p.ass, "assert, {}", on());
        ensure_eq!(w.map, p.map, "map_handler, {}", on());
        ensure_eq!(w.errs[..2], p.errs[..2], "error, {}", on());
        for n in 0..2 {
            let (v, e, log) = &w.ctor[n];
            let name = ["ctor", "construct"][n];
            if leaf {
                let m = p.mat.0;
                let want = m.filter(|(b, l)| !handler_fails(h.fail, *b, *l));
                ensure_eq!(v.is_some(), want.is_some(), "{name} through a matching wrapper, {}", on());
                ensure_eq!(log.as_slice(), m.as_slice(), "{name}: handler calls of a matching wrapper, {}", on());
                if let Some((b, l)) = want {
                    let x = if h.text { Val::Tx(st.inps[i].bytes[b..b + l].to_vec()) } else { Val::Sp(b, l) };
                    ensure_eq!(*v, Some(x), "{name} through a matching wrapper, {}", on());
                    ensure_eq!(*e, p.mat.1, "{name}: position, {}", on());
                } else if n == 0 {
                    ensure_eq!(*e, at(&st, i), "{name}: position after a failure, {}", on());
                }
            } else {
                ensure_eq!(*v, p.ctor[n].0, "{name}, {}", on());
                ensure_eq!(*log, p.ctor[n].2, "{name}: handler calls, {}", on());
                ensure!(v.is_none() || *e == p.ctor[n].1, "{name}: position {e} instead of {}, {}", p.ctor[n].1, on());
                ensure_eq!(w.errs[2 + n], p.errs[2 + n], "{name}: error, {}", on());
            }
        }
        c.comparisons += 9;
        hit |= p.mat.0.is_some_and(|s| s.1 > 0);
        c.label_if(p.mat.0.is_none(), "rejected");
    }
    c.nontrivial = hit;
    Ok(())
}
/// a wrapper with nothing inside fails everywhere and moves nothing
fn absent(c: &mut Case) -> Res {
    let mut st = setup(c, &Opt { kinds: ALL, inputs: 3, skip: 3, depth: 1, ..BASE });
    let k = c.src.u(wrap::ABSENT);
    st.outer = vec![1000 + k];
    for _ in 0..c.src.u(3) {
        let w = c.src.u(wrap::ALL);
        st.outer.push(w);
    }
    let what = format!("absent kind {k}{}", st.outer[1..].iter().map(|k| format!(" < {}", wrap::name(*k))).collect::<String>());
    c.dump(|| format!("{} | {what}", describe(&st)));
    let r = with_st(&st, |ex: &dyn Exec| -> Res {
        for i in 0..st.inps.len() {
            let a = at(&st, i);
            limit(10_000);
            let on = || format!("{what} on {} at {a}", show(&st.inps[i].e));
            ensure_eq!(ex.mat(i, a), (None, a), "match, {}", on());
            ensure_eq!(ex.parse(i, a), (None, a), "try_parse, {}", on());
            let rec = Rec::new(TEXT);
            ensure_eq!(ex.ctor(i, a, &rec), (None, a), "ctor, {}", on());
            ensure_eq!(ex.construct(i, a, &rec).0, None, "construct, {}", on());
            ensure_eq!(ex.find(i, a).0, None, "find, {}", on());
            ensure!(rec.log.borrow().is_empty(), "handler called, {}", on());
            let want = if k == 3 { "Mutex" } else { "Option" };
            // (a skip rule may already fail in front of the pattern)
            let e = ex.errors(i, a, TEXT)[1].clone();
            ensure_eq!(e.as_deref(), Some(want), "error, {}", on());
            c.comparisons += 7;
        }
        Ok(())
    });
    c.nontrivial = st.inps.iter().any(|i| !i.is_empty());
    r
}
pub fn check() -> Check {
    let inside = agree(Opt { kinds: ALL, inputs: 4, skip: 2, wrap: Wrap::Any, dyn_ctor: true, ..BASE });
    Check {
        id: "C16",
        rule: "the pattern consumed input on at least one of the case's inputs".into(),
        assumptions: vec![
            "wrappers documented as construct-by-matching (regex adapters, trait objects of Regex, as_ctor, closures) give the handler the matched span".into(),
            "Rc, RefCell and Cell wrappers are used on one thread".into(),
        ],
        subs: vec![sub("stack", 480_000, 8, stack), sub("inside", 480_000, 8, inside), sub("absent", 20_000, 8, absent)],
    }
}
