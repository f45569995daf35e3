//! C23: copies of what the generated patterns do not copy: references, boxes, functions, conditions, literals, units.
use neure::ctor::{self, Ctor};
use neure::ctx::{CharsCtx, Context, MatchExt};
use neure::err::Error;
use neure::neu::{self, Condition, RegexCond};
use neure::prelude::*;
use vcore::{Case, Res, ensure_eq};

type Seen = (Option<(usize, usize)>, usize, Option<Span>, usize);
fn seen<'a, P>(t: &'a str, at: usize, p: &P) -> Seen
where
    P: Regex<CharsCtx<'a>> + Ctor<CharsCtx<'a>, Span, ctor::Extract<Span>>,
{
    let mut x = CharsCtx::new(t);
    x.set_offset(at);
    let m = x.try_mat(p).ok().map(|s: Span| (s.beg, s.len));
    let e = x.offset();
    x.set_offset(at);
    let v = x.ctor_handler(p, ctor::extract::<Span>()).ok();
    (m, e, v, x.offset())
}


fn build<'a>(t: &'a str, at: usize, p: &impl Ctor<CharsCtx<'a>, usize, ()>) -> (Option<usize>, usize) {
    let mut x = CharsCtx::new(t);
    x.set_offset(at);
    (p.construct(&mut x, &mut ()).ok(), x.offset())
}

pub fn clones(c: &mut Case) -> Res {
    let text = |c: &mut Case| -> String {
        let n = c.src.range(0, 6);
        (0..n).map(|_| *c.src.pick(&["a", "b", "ab", "1", "é", " "])).collect()
    };
    let ins: Vec<String> = (0..4).map(|_| text(c)).collect();
    let ats: Vec<usize> = ins
        .iter()
        .map(|t| {
            let cuts: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
            *c.src.pick(&cuts)
        })
        .collect();
    let lit = c.src.pick(&["a", "ab", "b", "é", "1 "]).to_string();
    let uses = c.src.range(0, 12);
    let steps: Vec<(bool, usize)> = (0..uses).map(|_| (c.src.bool(), c.src.u(4))).collect();
    let min = c.src.u(3);
    c.dump(|| format!("{ins:?} at {ats:?}, literal {lit:?}, at least {min}, copies used {steps:?}"));
    let mut hit = false;
    // matched and constructed
    macro_rules! both {
        ($($what:literal: $p:expr),* $(,)?) => {$({
            let first = $p;
            let want: Vec<Seen> = (0..4).map(|i| seen(&ins[i], ats[i], &first)).collect();
            hit |= want.iter().any(|w| w.0.is_some_and(|s| s.1 > 0));
            #[allow(clippy::clone_on_copy)]
            let copy = first.clone();
            for (on_copy, i) in &steps {
                let got = if *on_copy { seen(&ins[*i], ats[*i], &copy) } else { seen(&ins[*i], ats[*i], &first) };
                ensure_eq!(got, want[*i], "{} ({}) on {:?} from {}", $what, if *on_copy { "a copy" } else { "the original" }, ins[*i], ats[*i]);
                c.comparisons += 1;
            }
        })*};
    }
    let inner = neu::ascii_alphabetic().times(min..4);
    let lit = lit.as_str();
    both!(
        "Literal": regex::literal(lit),
        "RefAdapter": regex::RefAdapter::new(&inner),
        "DynRefAdapter": regex::DynRefAdapter::new(&inner),
        "ctor::DynRefAdapter": ctor::DynRefAdapter::new(&inner),
        "regex::Adapter": regex::Adapter::new(regex::literal(lit)),
        "regex::Adapter of a reference": regex::Adapter::new(regex::RefAdapter::new(&inner)),
        "ctor::Adapter": ctor::Adapter::new(inner),
        "conditional": {
            // not before what the literal matches
            let cond: RegexCond<'_, CharsCtx<'_>, _> = neu::regex_cond(regex::not(regex::literal(lit)));
            neu::wild().many1().set_cond(cond)
        },
        "conditional, made": neu::wild().times(min..).set_cond(RegexCond::new(regex::not(regex::literal(lit)))),
        "look-ahead": regex::peek(regex::literal(lit)),
        "negative": regex::not(regex::literal(lit)),
        "String": lit.to_string(),
        "equal": neu::equal('a').many1(),
        "function": regex::Adapter::new(move |x: &mut CharsCtx<'_>| x.try_mat(&regex::literal(lit))),
    );
    // construction by a function only
    let f = ctor::Adapter::func(move |x: &mut CharsCtx<'_>, _: &mut ()| -> Result<usize, Error> { Ok(x.try_mat(&inner)?.len()) });
    #[allow(clippy::clone_on_copy)]
    let g = f.clone();
    for (on_copy, i) in &steps {
        let want = build(&ins[*i], ats[*i], &f);
        let mut x = CharsCtx::new(&ins[*i]);
        x.set_offset(ats[*i]);
        let plain = (x.try_mat(&inner).ok().map(|s: Span| s.len), x.offset());
        ensure_eq!(want, plain, "function adapter on {:?} from {}", ins[*i], ats[*i]);
        if *on_copy {
            ensure_eq!(build(&ins[*i], ats[*i], &g), want, "copy of a function adapter on {:?} from {}", ins[*i], ats[*i]);
        }
    }
    c.nontrivial = hit && steps.iter().any(|s| s.0);
    Ok(())
}
