//! C23: using, copying and sharing a parser does not change it.
use std::sync::Barrier;
use vcore::{Case, Check, Res, ensure_eq, sub, ticks_reset};
use vpat::ast::*;
use vpat::build::{Exec, Wrap, copying};
use vpat::ops::*;
use vpat::setup::*;

struct Plan {
    ops: Vec<(Op, usize, usize)>,
    /// steps allowed for one operation
    budget: u64,
}
/// operations on the inputs the model can afford
fn plan(c: &mut Case, st: &St, lo: usize, hi: usize) -> Plan {
    let mut ok = vec![];
    let mut cost = 0;
    for i in 0..st.inps.len() {
        // from the front, and from where the case starts
        let scan = if st.p.ctor_only() { Some(0) } else { scan_steps(st, i) };
        if let (Some(w), Some(s)) = (want(st, i, TEXT), scan) {
            cost = cost.max(w.steps).max(s);
            ok.push(i);
        }
    }
    let mut ops = vec![];
    if ok.is_empty() {
        c.label("discarded");
        return Plan { ops, budget: 0 };
    }
    for _ in 0..c.src.range(lo, hi) {
        let op = gen_op(&mut c.src, st.p.ctor_only());
        let i = *c.src.pick(&ok);
        // a failing handler makes alternatives retry: other costs
        if let Op::Ctor(h) | Op::Construct(h) = op {
            match want(st, i, h) {
                Some(w) => cost = cost.max(w.steps),
                None => continue,
            }
        }
        ops.push((op, i, at(st, i)));
    }
    Plan { ops, budget: 64 * 6 * cost + 100_000 }
}
fn fresh(st: &St, p: &Plan) -> Vec<Out> {
    p.ops
        .iter()
        .map(|(op, i, a)| {
            ticks_reset(p.budget);
            with_st(st, |ex| run(ex, *op, *i, *a))
        })
        .collect()
}
fn gain(outs: &[Out]) -> bool {
    outs.iter().any(|o| match o {
        Out::Span(s, _) => s.is_some_and(|s| s.1 > 0),
        Out::Val(v, ..) => v.is_some(),
        Out::Spans(v, _) => !v.is_empty(),
        _ => false,
    })
}
fn pattern(c: &mut Case, wrap: Wrap, rec: bool) -> St {
    setup(c, &Opt { kinds: ALL, inputs: 3, skip: 2, wrap, dyn_ctor: !rec, map_fail: true, rec, ..BASE })
}
/// one parser over a history of operations, against a new parser for each
fn history(c: &mut Case) -> Res {
    let rec = c.src.chance(1, 5);
    let wrap = if !rec && c.src.bool() { Wrap::Any } else { Wrap::No };
    let st = pattern(c, wrap, rec);
    let p = plan(c, &st, 4, 14);
    c.dump(|| format!("{} | history {:?}", describe(&st), p.ops));
    let want = fresh(&st, &p);
    with_st(&st, |ex| -> Res {
        for (k, ((op, i, a), w)) in p.ops.iter().zip(&want).enumerate() {
            ticks_reset(p.budget);
            let got = run(ex, *op, *i, *a);
            ensure_eq!(got, *w, "use {k} of the parser ({op:?} on {} at {a}) against a new parser", show(&st.inps[*i].e));
        }
        Ok(())
    })?;
    c.comparisons += want.len() as u64;
    c.nontrivial = gain(&want);
    c.label_if(rec, "recursive");
    c.label_if(wrap != Wrap::No, "wrapped");
    Ok(())
}
/// one parser used thousands of times over, failing and succeeding, against new parsers for the few operations it goes through
pub fn long(c: &mut Case, rec: bool) -> Res {
    let wrap = if !rec && c.src.bool() { Wrap::Any } else { Wrap::No };
    let st = pattern(c, wrap, rec);
    let mut p = plan(c, &st, 2, 4);
    let per = p.budget.saturating_sub(100_000) / (64 * 6);
    // (scans cost more than they are worth here)
    let keep: Vec<_> = p.ops.drain(..).filter(|(op, ..)| !matches!(op, Op::FindAll | Op::Find)).collect();
    p.ops = keep;
    if p.ops.is_empty() || per > 400 {
        c.label("discarded");
        return Ok(());
    }
    let n = *c.src.pick(&[300, 1100, 4200, 9000, 66_000]);
    c.dump(|| format!("{} | {n} uses, going through {:?}", describe(&st), p.ops));
    let want = fresh(&st, &p);
    with_st(&st, |ex| -> Res {
        for k in 0..n {
            let j = k % p.ops.len();
            let (op, i, a) = p.ops[j];
            ticks_reset(p.budget);
            let got = run(ex, op, i, a);
            ensure_eq!(got, want[j], "use {k} of the parser ({op:?} on {} at {a}) against a new parser", show(&st.inps[i].e));
        }
        Ok(())
    })?;
    c.comparisons += n as u64;
    c.nontrivial = gain(&want);
    c.label_if(rec, "recursive");
    c.label_if(wrap != Wrap::No, "wrapped");
    Ok(())
}
/// every combinator is replaced by a clone of itself (recursively) right before each use, against the untouched parser
fn copies(flat: bool) -> impl Fn(&mut Case) -> Res {
    move |c: &mut Case| {
        let wrap = if !flat && c.src.chance(1, 3) { Wrap::Any } else { Wrap::No };
        let st = if flat {
            setup(c, &Opt { kinds: ALL, inputs: 5, skip: 1, depth: 1, ..BASE })
        } else {
            let dyn_ctor = c.src.chance(1, 4);
            setup(c, &Opt { kinds: ALL, inputs: 4, skip: 2, wrap, dyn_ctor, map_fail: true, ..BASE })
        };
        let p = plan(c, &st, 4, 8);
        c.dump(|| format!("{} | {:?}", describe(&st), p.ops));
        let want = fresh(&st, &p);
        copying(|| {
            with_st(&st, |ex| -> Res {
                for ((op, i, a), w) in p.ops.iter().zip(&want) {
                    ticks_reset(p.budget);
                    let got = run(ex, *op, *i, *a);
                    ensure_eq!(got, *w, "copied parsers ({op:?} on {} at {a}) against the originals", show(&st.inps[*i].e));
                }
                Ok(())
            })
        })?;
        c.comparisons += want.len() as u64;
        c.nontrivial = gain(&want);
        c.label_if(wrap != Wrap::No, "wrapped");
        Ok(())
    }
}
struct Share<'x>(&'x dyn Exec);
// what is inside is made of Sync parts: the pattern (Wrap::Sync) and plain data
unsafe impl Sync for Share<'_> {}
/// one parser, several threads at once
fn threads(c: &mut Case) -> Res {
    let wrap = if c.src.chance(2, 3) { Wrap::Sync } else { Wrap::No };
    let st = pattern(c, wrap, false);
    let p = plan(c, &st, 4, 10);
    let n = c.src.range(2, 4);
    let rounds = c.src.range(2, 8);
    c.dump(|| format!("{} | {n} threads, {rounds} rounds of {:?}", describe(&st), p.ops));
    let want = fresh(&st, &p);
    let r: Res = with_st(&st, |ex| {
        let sh = Share(ex);
        let bar = Barrier::new(n);
        let (sh, bar, p, want, st) = (&sh, &bar, &p, &want, &st);
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let f = move || -> Res {
                        bar.wait();
                        let m = p.ops.len();
                        for r in 0..rounds {
                            for j in 0..m {
                                let k = (j + r + t) % m;
                                let (op, i, a) = p.ops[k];
                                ticks_reset(p.budget);
                                let got = run({ sh }.0, op, i, a);
                                ensure_eq!(
                                    got, want[k],
                                    "thread {t} ({op:?} on {} at {a}) against a new parser on one thread", show(&st.inps[i].e)
                                );
                            }
                        }
                        Ok(())
                    };
                    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, f).unwrap()
                })
                .collect();
            let mut out = Ok(());
            for h in hs {
                match h.join() {
                    Ok(r) => {
                        if out.is_ok() {
                            out = r;
                        }
                    }
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                        out = Err(format!("panic on a thread: {}", m.unwrap_or_default()));
                    }
                }
            }
            out
        })
    });
    r?;
    c.comparisons += (want.len() * n * rounds) as u64;
    c.nontrivial = gain(&want);
    c.label_if(wrap != Wrap::No, "wrapped");
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C23",
        rule: "some operation of the case matched a non-empty span, found or built something".into(),
        assumptions: vec![
            "stateful Prefix units are excluded (documented single use)".into(),
            "thread schedules are whatever the operating system produces for 2 to 4 threads released together; they are not enumerated".into(),
            "only wrappers whose contents are Send and Sync are shared between threads".into(),
        ],
        subs: vec![
            sub("history", 150_000, 8, history),
            sub("long", 4000, 8, |c| long(c, false)),
            sub("copies", 200_000, 8, copies(false)),
            sub("copies-flat", 200_000, 8, copies(true)),
            sub("clones", 100_000, 8, crate::clones::clones),
            sub("threads", 12_000, 8, threads),
        ],
    }
}
