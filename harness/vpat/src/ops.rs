//! Operations on a built pattern, with everything they let a caller observe.
use crate::ast::*;
use crate::build::{Exec, Rec};
use crate::setup::Bsp;
use vcore::Src;

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Mat,
    Parse,
    Ctor(HCfg),
    Construct(HCfg),
    MapH(HCfg),
    Find,
    FindAll,
    MatchSeq,
    Assert,
    Seq,
}
#[derive(Debug, PartialEq)]
pub enum Out {
    Span(Bsp, usize),
    Val(Option<Val>, usize, Vec<(usize, usize)>),
    Spans(Vec<(usize, usize)>, usize),
    Bool(bool, usize),
    Many(Vec<(Bsp, usize)>),
}
pub fn gen_op(s: &mut Src, ctor_only: bool) -> Op {
    let h = HCfg { text: s.bool(), fail: if s.chance(1, 3) { s.below(3) + 2 } else { 0 } };
    match if ctor_only { s.u(2) } else { s.u(10) } {
        0 => Op::Ctor(h),
        1 => Op::Construct(h),
        2 => Op::Mat,
        3 => Op::Parse,
        4 => Op::MapH(h),
        5 => Op::Find,
        6 => Op::FindAll,
        7 => Op::MatchSeq,
        8 => Op::Assert,
        _ => Op::Seq,
    }
}
/// `a` is a byte offset
pub fn run(ex: &dyn Exec, op: Op, i: usize, a: usize) -> Out {
    let val = |h: HCfg, f: &dyn Fn(&Rec) -> (Option<Val>, usize)| {
        let rec = Rec::new(h);
        let (v, e) = f(&rec);
        let log = rec.log.borrow().clone();
        // positions after a failed construction straight on the pattern are unspecified but repeatable
        Out::Val(v, e, log)
    };
    match op {
        Op::Mat => {
            let (s, e) = ex.mat(i, a);
            Out::Span(s, e)
        }
        Op::Parse => {
            let (s, e) = ex.parse(i, a);
            Out::Span(s, e)
        }
        Op::Ctor(h) => val(h, &|r| ex.ctor(i, a, r)),
        Op::Construct(h) => val(h, &|r| ex.construct(i, a, r)),
        Op::MapH(h) => val(h, &|r| ex.map_h(i, a, r)),
        Op::Find => {
            let (s, e) = ex.find(i, a);
            Out::Span(s, e)
        }
        Op::FindAll => {
            let (s, e) = ex.find_all(i, a);
            Out::Spans(s, e)
        }
        Op::MatchSeq => {
            let (s, e) = ex.match_seq(i, a);
            Out::Spans(s, e)
        }
        Op::Assert => {
            let (b, e) = ex.assert(i, a);
            Out::Bool(b, e)
        }
        Op::Seq => Out::Many(ex.seq(i, a, 4)),
    }
}
