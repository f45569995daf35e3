//! Staged tests (`prefix`, `prefix_sync`): the prefix for the first `count` uses, the unit from then on.
//! They keep state, so every one is made anew and used for one run of elements.
use neure::neu::{self, Neu, Prefix, PrefixSync};
use neure::prelude::*;
use std::fmt::Debug;
use vcore::{Case, Res, ensure, ensure_eq};

/// what is documented; `None` where it is silent (after the unit itself refused an element)
#[derive(Debug)]
struct Model<'m, T> {
    pre: &'m [T],
    left: usize,
    unit: &'m [T],
    dead: bool,
    silent: bool,
}
impl<T> Clone for Model<'_, T> {
    fn clone(&self) -> Self {
        Self { ..*self }
    }
}
impl<T: PartialEq> Model<'_, T> {
    fn take(&mut self, e: &T) -> Option<bool> {
        if self.silent {
            return None;
        }
        if self.dead {
            return Some(false);
        }
        if self.left > 0 {
            self.left -= 1;
            self.dead = !self.pre.contains(e);
            Some(!self.dead)
        } else {
            let ok = self.unit.contains(e);
            self.silent = !ok;
            Some(ok)
        }
    }
}
fn direct<T: PartialEq + Debug, U: Neu<T> + Clone>(what: &str, u: U, mut m: Model<'_, T>, es: &[T], split: usize) -> Res {
    for (i, e) in es.iter().enumerate() {
        if i == split {
            // a copy goes on from here on its own
            direct(&format!("a copy of {what}"), u.clone(), m.clone(), &es[i..], usize::MAX)?;
        }
        let Some(w) = m.take(e) else { break };
        ensure_eq!(u.is_match(e), w, "{what} on element {i} of {es:?}");
    }
    Ok(())
}
macro_rules! staged {
    ($fn:ident, $t:ty, $pool:expr, $text:ty, $join:expr, $ctx:ident) => {
        pub fn $fn(c: &mut Case) -> Res {
            let pool: &[$t] = &$pool;
            let some = |c: &mut Case| -> Vec<$t> {
                let n = c.src.range(0, 4);
                (0..n).map(|_| *c.src.pick(pool)).collect()
            };
            let (pre, unit) = (some(c), some(c));
            let count = if c.src.bool() { 1 } else { c.src.u(4) };
            let n = c.src.range(0, 8);
            // mostly what the stages want
            let es: Vec<$t> = (0..n)
                .map(|i| {
                    let set = if i < count { &pre } else { &unit };
                    if set.is_empty() || c.src.chance(1, 5) { *c.src.pick(pool) } else { *c.src.pick(set) }
                })
                .collect();
            let (split, form) = (c.src.u(9), c.src.u(6));
            let (lo, hi) = (c.src.u(3), c.src.u(5));
            let outer = c.src.bool();
            c.dump(|| format!("prefix {pre:?} x{count} then {unit:?} on {es:?}, form {form}, copied at {split}, times {lo}..{}, nested {outer}", lo + hi));
            let m = || Model { pre: &pre, left: count, unit: &unit, dead: false, silent: false };
            // the parts put in by the setters
            let one = || match form {
                0 if count == 1 => neu::prefix(pre.clone(), unit.clone()),
                1 => {
                    let mut p = Prefix::new(unit.clone(), count, pre.clone());
                    p.set_unit(unit.clone()).set_prefix(pre.clone());
                    p
                }
                2 => {
                    let mut p = neu::prefix_cnt(unit.clone(), count, pre.clone());
                    *p.unit_mut() = unit.clone();
                    *p.prefix_mut() = pre.clone();
                    p
                }
                _ => neu::prefix_cnt(pre.clone(), count, unit.clone()),
            };
            let sync = || match form {
                0 if count == 1 => neu::prefix_sync(pre.clone(), unit.clone()),
                1 => {
                    let mut p = PrefixSync::new(unit.clone(), count, pre.clone());
                    p.set_unit(unit.clone()).set_prefix(pre.clone());
                    p
                }
                2 => {
                    let mut p = neu::prefix_sync_cnt(unit.clone(), count, pre.clone());
                    *p.unit_mut() = unit.clone();
                    *p.prefix_mut() = pre.clone();
                    p
                }
                _ => neu::prefix_sync_cnt(pre.clone(), count, unit.clone()),
            };
            let (o, s) = (one(), sync());
            ensure_eq!((o.unit(), o.prefix()), (&unit, &pre), "the parts of a prefix test");
            ensure_eq!((s.unit(), s.prefix()), (&unit, &pre), "the parts of a shared prefix test");
            direct("prefix", one(), m(), &es, split)?;
            direct("prefix_sync", sync(), m(), &es, split)?;
            // behind another stage: one more element in front
            if outer {
                let first = vec![pool[0]];
                let mut fs = vec![pool[0]];
                fs.extend(&es);
                let mut k = m();
                let (u, v) = (neu::prefix(first.clone(), one()), neu::prefix_sync(first.clone(), sync()));
                ensure!(u.is_match(&pool[0]) && v.is_match(&pool[0]), "outer stage");
                for e in &es {
                    let Some(w) = k.take(e) else { break };
                    ensure_eq!((u.is_match(e), v.is_match(e)), (w, w), "nested stages on {e:?} of {fs:?}");
                    // where the inner one is over, so is the run
                    if !w {
                        break;
                    }
                }
            }
            // one run in a context
            let join: fn(&[$t]) -> Box<$text> = $join;
            let dat = join(&es);
            let run = |max: usize| {
                let mut k = m();
                es.iter().take(max).take_while(|e| k.take(e) == Some(true)).count()
            };
            let bytes = |n: usize| join(&es[..n]).len();
            let look = |what: &str, f: &dyn Fn(&mut $ctx<'_>) -> Option<Span>, w: Option<usize>| -> Res {
                let mut ctx = $ctx::new(&dat);
                let r = f(&mut ctx).map(|s: Span| (s.beg, s.len));
                ensure_eq!((r, ctx.offset()), (w.map(|n| (0, bytes(n))), w.map_or(0, bytes)), "{what} of a prefix test on {es:?}");
                Ok(())
            };
            let all = run(usize::MAX);
            look("many0", &|c| c.try_mat(&one().many0()).ok(), Some(all))?;
            look("many0 (sync)", &|c| c.try_mat(&sync().many0()).ok(), Some(all))?;
            look("many1", &|c| c.try_mat(&one().many1()).ok(), (all > 0).then_some(all))?;
            look("once", &|c| c.try_mat(&sync().once()).ok(), (all > 0).then_some(1))?;
            look("opt", &|c| c.try_mat(&one().opt()).ok(), Some(all.min(1)))?;
            let r = run(lo + hi);
            look("times", &|c| c.try_mat(&one().times(lo..=lo + hi)).ok(), (r >= lo).then_some(r))?;
            look("times (sync)", &|c| c.try_mat(&sync().times(lo..=lo + hi)).ok(), (r >= lo).then_some(r))?;
            c.comparisons += 7 + 2 * es.len() as u64;
            c.nontrivial = all > count && count > 0;
            c.label_if(all < count, "prefix refused");
            c.label_if(all < es.len(), "ends early");
            Ok(())
        }
    };
}
staged!(chars, char, ['a', 'b', 'x', '0', 'é', '😀'], str, |e| e.iter().collect::<String>().into(), CharsCtx);
staged!(bytes, u8, [b'a', b'b', b'x', b'0', 0x80, 0xff], [u8], |e| e.into(), BytesCtx);
