//! C18: histories of span stores against vectors of spans.
use crate::cursor::{Dat, bytes, text};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match};
use neure::err::Error;
use neure::iter::{IndexBySpan, IteratorByOptionSpan, IteratorBySpan, OptionSpanIterator, SpanIterator};
use neure::regex::Regex;
use neure::span::{ArrayStorer, Span, VecStorer};
use std::fmt::Debug;
use vcore::{Case, Check, Res, Src, ensure, ensure_eq, sub};

/// moves the position by n elements and succeeds or fails
struct Take(usize, bool);
impl<'a, C: Context<'a>> Regex<C> for Take {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        let b = ctx.offset();
        let mut it = ctx.peek()?;
        let mut e = 0;
        for i in 0..=self.0 {
            match it.next() {
                Some((o, _)) => e = o,
                None if i == self.0 => e = ctx.len() - b,
                None => return Err(Error::Uid(3)),
            }
        }
        ctx.set_offset(b + e);
        if self.1 { Ok(Span::new(b, e)) } else { Err(Error::Uid(4)) }
    }
}
/// a span: valid for the value, or anything
fn span<D: Dat + ?Sized>(s: &mut Src, dat: &D, any: bool) -> Span {
    let n = dat.raw().len();
    if any {
        let x = [0, 1, n, n + 1, usize::MAX, usize::MAX - 1, n / 2];
        return Span::new(*s.pick(&x), *s.pick(&x));
    }
    let mut b: Vec<usize> = dat.items().iter().map(|x| x.0).collect();
    b.push(n);
    let (i, j) = (s.u(b.len()), s.u(b.len()));
    let (i, j) = (i.min(j), i.max(j));
    Span::new(b[i], b[j] - b[i])
}
fn model<'d, D: Dat + ?Sized>(dat: &'d D, s: &Span) -> Option<&'d [u8]> {
    dat.part(s.beg, s.beg.checked_add(s.len)?).map(|d| d.raw())
}
/// reads an iterator to its end, with its remaining length at every step
fn drain<I: Iterator + Clone>(it: I, n: usize, exact: bool, f: impl FnMut(usize, I::Item) -> Res) -> Res {
    drain_by(it, |it| Some(it.clone()), n, exact, f)
}
fn drain_by<I: Iterator>(mut it: I, copy: fn(&I) -> Option<I>, n: usize, exact: bool, mut f: impl FnMut(usize, I::Item) -> Res) -> Res {
    for i in 0..=n {
        let (lo, hi) = it.size_hint();
        let left = n - i;
        ensure!(lo <= left && hi.is_none_or(|h| h >= left), "size hint {lo}..{hi:?} with {left} left");
        ensure!(!exact || (lo == left && hi == Some(left)), "inexact length {lo}..{hi:?} with {left} left");
        if let (true, Some(mut copy)) = (i == n / 2, copy(&it)) {
            // a copy made on the way goes on from the same place
            for j in i..n {
                let Some(x) = copy.next() else { return Err(format!("a copy made at {i} ends after {j} of {n}")) };
                f(j, x)?;
            }
            ensure!(copy.next().is_none(), "more than {n} elements from a copy");
        }
        match it.next() {
            Some(x) => {
                ensure!(i < n, "more than {n} elements");
                f(i, x)?
            }
            None => ensure!(i == n, "ends after {i} of {n}"),
        }
    }
    for _ in 0..2 {
        ensure!(it.next().is_none(), "an element after the end");
        let (lo, hi) = it.size_hint();
        ensure!(lo == 0 && (!exact || hi == Some(0)), "length {lo}..{hi:?} after the end");
    }
    Ok(())
}
fn owned_views<D: Dat + ?Sized, V>(v: &V, dat: &D, s: &Span) -> Res
where
    V: IndexBySpan + ?Sized,
    V::Output: Dat,
{
    ensure_eq!(v.get_by_span(s).map(|d| d.raw()), model(dat, s), "input at {s:?}");
    Ok(())
}
fn vec_check<D: Dat + ?Sized>(st: &VecStorer, m: &[Vec<Span>], dat: &D) -> Res
where
    D: IndexBySpan<Output = D>,
{
    ensure_eq!(st.len(), m.len(), "number of groups");
    ensure_eq!(st.is_empty(), m.is_empty(), "emptiness");
    for id in 0..m.len() + 2 {
        let g = m.get(id).filter(|g| !g.is_empty());
        ensure_eq!(st.contain(id), g.is_some(), "presence of group {id}");
        ensure_eq!(st.spans(id), g, "spans of group {id}");
        let e: &[Span] = g.map(|g| g.as_slice()).unwrap_or(&[]);
        for i in 0..e.len() + 2 {
            ensure_eq!(st.span(id, i), e.get(i), "span {i} of group {id}");
            let w = e.get(i).and_then(|s| model(dat, s));
            ensure_eq!(st.slice(dat, id, i).map(|d| d.raw()), w, "slice {i} of group {id}");
        }
        ensure_eq!(st.spans_iter(id).is_some(), g.is_some(), "iterator over group {id}");
        ensure_eq!(st.slice_iter(dat, id).is_some(), g.is_some(), "slices of group {id}");
        if let Some(it) = st.spans_iter(id) {
            drain(it, e.len(), false, |i, s| {
                ensure_eq!(s, e[i], "span {i} from the iterator over group {id}");
                Ok(())
            })?;
            drain(SpanIterator::new(e), e.len(), false, |i, s| {
                ensure_eq!(s, e[i], "span {i} from an iterator");
                Ok(())
            })?;
        }
        if let (Some(it), true) = (st.slice_iter(dat, id), e.iter().all(|s| model(dat, s).is_some())) {
            for it in [it, IteratorBySpan::new(dat, e)] {
                ensure_eq!(it.len(), e.len(), "length of the slices of group {id}");
                let mut k = it;
                k.next();
                drain(it, e.len(), true, |i, d| {
                    ensure_eq!(Some(d.raw()), model(dat, &e[i]), "slice {i} from the iterator over group {id}");
                    Ok(())
                })?;
            }
        }
    }
    Ok(())
}
fn arr_check<D: Dat + ?Sized, const M: usize, const N: usize>(st: &ArrayStorer<M, N>, m: &[Vec<Option<Span>>], dat: &D) -> Res
where
    D: IndexBySpan<Output = D>,
{
    ensure_eq!(st.len(), M, "number of groups");
    ensure_eq!(st.is_empty(), M == 0, "emptiness");
    for id in 0..M + 2 {
        let g = m.get(id).filter(|g| g.iter().any(|s| s.is_some()));
        ensure_eq!(st.contain(id), g.is_some(), "presence of group {id}");
        ensure_eq!(st.spans(id), g.map(|g| g.as_slice()), "spans of group {id}");
        let e: &[Option<Span>] = g.map(|g| g.as_slice()).unwrap_or(&[]);
        for i in 0..N + 2 {
            let s = e.get(i).and_then(|s| s.as_ref());
            ensure_eq!(st.span(id, i), s, "span {i} of group {id}");
            ensure_eq!(st.slice(dat, id, i).map(|d| d.raw()), s.and_then(|s| model(dat, s)), "slice {i} of group {id}");
        }
        let f: Vec<Span> = e.iter().flatten().copied().collect();
        ensure_eq!(st.spans_iter(id).is_some(), g.is_some(), "iterator over group {id}");
        ensure_eq!(st.slice_iter(dat, id).is_some(), g.is_some(), "slices of group {id}");
        if let Some(it) = st.spans_iter(id) {
            drain(it, f.len(), false, |i, s| {
                ensure_eq!(s, f[i], "span {i} from the iterator over group {id}");
                Ok(())
            })?;
            drain(OptionSpanIterator::new(e), f.len(), false, |i, s| {
                ensure_eq!(s, f[i], "span {i} from an iterator");
                Ok(())
            })?;
        }
        if let (Some(it), true) = (st.slice_iter(dat, id), f.iter().all(|s| model(dat, s).is_some())) {
            ensure_eq!(it.len(), f.len(), "length of the slices of group {id}");
            drain_by(it, |_| None, f.len(), true, |i, d| {
                ensure_eq!(Some(d.raw()), model(dat, &f[i]), "slice {i} from the iterator over group {id}");
                Ok(())
            })?;
            drain_by(IteratorByOptionSpan::new(dat, e), |_| None, f.len(), true, |i, d| {
                ensure_eq!(Some(d.raw()), model(dat, &f[i]), "slice {i} from an iterator");
                Ok(())
            })?;
        }
    }
    Ok(())
}
fn vec_history<'a, D, C>(c: &mut Case, dat: &'a D, mut ctx: C) -> Res
where
    D: Dat + ?Sized + IndexBySpan<Output = D> + Debug,
    C: Match<'a>,
{
    let cap = c.src.u(5);
    let (mut st, mut m) = match c.src.u(3) {
        0 => (VecStorer::new(cap), vec![vec![]; cap]),
        1 => {
            let m: Vec<Vec<Span>> = (0..cap).map(|_| (0..c.src.u(3)).map(|_| span(&mut c.src, dat, false)).collect()).collect();
            (VecStorer::new_with(m.clone()), m)
        }
        _ => (VecStorer::default().with_capacity(cap), vec![vec![]; cap]),
    };
    let n = c.src.range(1, 20);
    let any = c.src.chance(1, 4);
    let mut log = format!("cap={cap}");
    let mut puts = 0;
    let r = (|| -> Res {
        vec_check(&st, &m, dat)?;
        for _ in 0..n {
            let id = c.src.u(cap + 1);
            let op = c.src.weighted(&[6, 2, 1, 6, 1]);
            if c.verbose {
                log += &format!(" {op}@{id}");
            }
            match op {
                0 if id < cap => {
                    let s = span(&mut c.src, dat, any);
                    st.add_span(id, s);
                    m[id].push(s);
                    puts += 1;
                }
                1 => {
                    st.clr_span(id);
                    if id < cap {
                        m[id].clear();
                    }
                }
                2 => {
                    st.reset();
                    m.iter_mut().for_each(|v| v.clear());
                }
                3 if id < cap => {
                    let at = ctx.offset();
                    let k = c.src.u(4);
                    let p = Take(k, !c.src.chance(1, 3));
                    let left = dat.tail(at).unwrap().items();
                    let r = st.try_cap(id, &mut ctx, &p);
                    if left.len() >= k && p.1 {
                        let e = left.get(k).map(|x| x.0).unwrap_or(dat.raw().len() - at);
                        ensure_eq!(r.as_ref().ok(), Some(&Span::new(at, e)), "captured span");
                        m[id].push(Span::new(at, e));
                        puts += 1;
                    } else {
                        ensure!(r.is_err() && ctx.offset() == at, "failed capture: {r:?}, position {}", ctx.offset());
                    }
                }
                _ => {
                    let o = span(&mut c.src, dat, false);
                    ctx.set_offset(o.beg);
                }
            }
            vec_check(&st, &m, dat)?;
            vec_check(&st.clone(), &m, dat)?;
        }
        Ok(())
    })();
    c.dump(|| format!("vector store on {dat:?}, ops(add clear reset capture seek): {log}"));
    c.nontrivial = puts >= 2;
    c.comparisons += n as u64 * 20;
    r
}
fn arr_history<'a, D, C, const M: usize, const N: usize>(c: &mut Case, dat: &'a D, mut ctx: C) -> Res
where
    D: Dat + ?Sized + IndexBySpan<Output = D> + Debug,
    C: Match<'a>,
{
    let mut m = vec![vec![None; N]; M];
    let mut st = match c.src.u(3) {
        0 => ArrayStorer::<M, N>::new(),
        1 => {
            let mut a = [[None; N]; M];
            for (x, y) in a.iter_mut().zip(m.iter_mut()) {
                for (x, y) in x.iter_mut().zip(y.iter_mut()) {
                    if c.src.chance(1, 3) {
                        *y = Some(span(&mut c.src, dat, false));
                        *x = *y;
                    }
                }
            }
            ArrayStorer::new_with(a)
        }
        _ => ArrayStorer::default(),
    };
    let n = c.src.range(1, 20);
    let any = c.src.chance(1, 4);
    let mut log = String::new();
    let mut puts = 0;
    let r = (|| -> Res {
        arr_check(&st, &m, dat)?;
        for _ in 0..n {
            let id = c.src.u(M + 1);
            let ix = c.src.u(N.max(1));
            let op = c.src.weighted(&[6, 2, 1, 6, 1]);
            if c.verbose {
                log += &format!(" {op}@{id},{ix}");
            }
            match op {
                0 if id < M && ix < N => {
                    let s = span(&mut c.src, dat, any);
                    st.set_span(id, ix, s);
                    m[id][ix] = Some(s);
                    puts += 1;
                }
                1 => {
                    st.clr_span(id);
                    if id < M {
                        m[id].iter_mut().for_each(|s| *s = None);
                    }
                }
                2 => {
                    st.reset();
                    m.iter_mut().flatten().for_each(|s| *s = None);
                }
                3 if id < M && ix < N => {
                    let at = ctx.offset();
                    let k = c.src.u(4);
                    let p = Take(k, !c.src.chance(1, 3));
                    let left = dat.tail(at).unwrap().items();
                    let r = st.try_cap(id, ix, &mut ctx, &p);
                    if left.len() >= k && p.1 {
                        let e = left.get(k).map(|x| x.0).unwrap_or(dat.raw().len() - at);
                        ensure_eq!(r.as_ref().ok(), Some(&Span::new(at, e)), "captured span");
                        m[id][ix] = Some(Span::new(at, e));
                        puts += 1;
                    } else {
                        ensure!(r.is_err() && ctx.offset() == at, "failed capture: {r:?}, position {}", ctx.offset());
                    }
                }
                _ => {
                    let o = span(&mut c.src, dat, false);
                    ctx.set_offset(o.beg);
                }
            }
            arr_check(&st, &m, dat)?;
        }
        arr_check(&st.clone(), &m, dat)
    })();
    c.dump(|| format!("array store {M}x{N} on {dat:?}, ops(set clear reset capture seek): {log}"));
    c.nontrivial = puts >= 2;
    c.comparisons += n as u64 * 20;
    r
}
fn arrays<'a, D, C>(c: &mut Case, dat: &'a D, ctx: C) -> Res
where
    D: Dat + ?Sized + IndexBySpan<Output = D> + Debug,
    C: Match<'a>,
{
    match c.src.u(6) {
        0 => arr_history::<D, C, 1, 1>(c, dat, ctx),
        1 => arr_history::<D, C, 2, 2>(c, dat, ctx),
        2 => arr_history::<D, C, 3, 4>(c, dat, ctx),
        3 => arr_history::<D, C, 4, 3>(c, dat, ctx),
        4 => arr_history::<D, C, 1, 6>(c, dat, ctx),
        _ => arr_history::<D, C, 2, 5>(c, dat, ctx),
    }
}
fn merge(c: &mut Case) -> Res {
    let mut v: Vec<usize> = (0..4).map(|_| c.src.u(12)).collect();
    if c.src.chance(1, 20) {
        v = v.into_iter().map(|x| x + usize::MAX / 2).collect();
    }
    v.sort();
    // the second starts and ends no earlier; it may touch, overlap or leave a gap
    let (a, b) = if c.src.bool() { ((v[0], v[1]), (v[2], v[3])) } else { ((v[0], v[2]), (v[1], v[3])) };
    let mut s = Span::new(a.0, a.1 - a.0);
    let o = Span::new(b.0, b.1 - b.0);
    c.dump(|| format!("{s:?} + {o:?}"));
    ensure!(s.beg() == a.0 && s.len() == a.1 - a.0 && s.is_empty() == (a.0 == a.1), "accessors of {s:?}");
    s.add_assign(o);
    ensure_eq!(s, Span::new(a.0, b.1 - a.0), "merged span");
    c.nontrivial = a.1 > a.0 && b.1 > b.0;
    Ok(())
}
fn views(c: &mut Case) -> Res {
    let t = text(&mut c.src, 8);
    let b = bytes(&mut c.src, 8);
    let any = c.src.bool();
    let (s, r) = (span(&mut c.src, t.as_str(), any), span(&mut c.src, b.as_slice(), any));
    c.dump(|| format!("{t:?} at {s:?}, {b:?} at {r:?}"));
    owned_views(t.as_str(), t.as_str(), &s)?;
    owned_views(&t.as_str(), t.as_str(), &s)?;
    owned_views(&CharsCtx::new(&t), t.as_str(), &s)?;
    owned_views(b.as_slice(), b.as_slice(), &r)?;
    owned_views(&b.as_slice(), b.as_slice(), &r)?;
    owned_views(&b, b.as_slice(), &r)?;
    owned_views(&&b, b.as_slice(), &r)?;
    owned_views(&BytesCtx::new(&b), b.as_slice(), &r)?;
    c.comparisons += 8;
    c.nontrivial = s.len > 0 || r.len > 0;
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C18",
        rule: "a case (one history of up to 20 operations, every accessor compared after each) is non-trivial when at least two spans were stored; a merge or view when the spans are not empty".into(),
        assumptions: vec![
            "group and slot indices given to the inserting operations exist (documented to panic otherwise)".into(),
            "iterators over slices are used on groups whose spans all lie in the value".into(),
            "merged spans: the second one starts and ends no earlier than the first (documented contract)".into(),
        ],
        subs: vec![
            sub("vector", 500_000, 10, |c: &mut Case| {
                if c.src.bool() {
                    let t = text(&mut c.src, 10);
                    vec_history(c, t.as_str(), CharsCtx::new(&t))
                } else {
                    let b = bytes(&mut c.src, 10);
                    vec_history(c, b.as_slice(), BytesCtx::new(&b))
                }
            }),
            sub("array", 500_000, 10, |c: &mut Case| {
                if c.src.bool() {
                    let t = text(&mut c.src, 10);
                    arrays(c, t.as_str(), CharsCtx::new(&t))
                } else {
                    let b = bytes(&mut c.src, 10);
                    arrays(c, b.as_slice(), BytesCtx::new(&b))
                }
            }),
            sub("merge", 500_000, 10, merge),
            sub("views", 900_000, 10, views),
        ],
    }
}
