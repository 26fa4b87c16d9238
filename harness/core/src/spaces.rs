//! The bounded grammar spaces the checks enumerate.
use crate::gram::{B, G, Space, T, U};
use std::sync::Arc;

pub fn leaves(l: &str) -> Vec<G> {
    l.split('|').map(|s| G::parse(s).unwrap()).collect()
}

pub const TOKEN_LEAVES: &str = "'a|'b|Any|(Satisfy ab)|(SatisfyMap a)|(OneOf ac)|(NoneOf a)|(Tokens ab)|(TokensCmp ab)|(Str ab)|(StrCmp ba)|Eof|Value|Produce|Unexpected|(FnParser a)|(FnParser b)|(FnParser c)";
pub const RANGE_LEAVES: &str = "(Range ab)|(Take 2)|(TakeWhile a)|(TakeWhile1 a)|(TakeUntilRange ab)|(TakeFn b)|(TakeUntilByte b)|(TakeUntilBytes ba)";

use B::*;
use T::*;
use U::*;

/// Operators which do not repeat.
pub const PLAIN_U: &[U] = &[
    Attempt, LookAhead, Not, Optional, Map, MapInput, AndThen, FlatMap, Expected, Message, Silent, Ignore, NoPartial, Lazy,
    Factory, Opaque, AnyState, AnySendState, AnySendSyncState, Boxed, ByRef, LeftEither, RightEither, FromStr, LengthPrefix,
    Recognize, RangeRecognize, RecognizeWithValue,
];
pub const PLAIN_B: &[B] =
    &[Seq, With, Skip, Or, Choice2, ChoiceSlice2, ChoiceMacro2, Dispatch, Struct2, SeqMacro2];
pub const REP_U: &[U] = &[
    Many, Many1, SkipMany, SkipMany1, Count0, Count1, Count2, SkipCount2, CountMinMax02, CountMinMax12, CountMinMax22,
    CountMinMax23, SkipCountMinMax12, SkipCountMinMax23, TakeUntil, SkipUntil, Iterate2, Iter,
];
pub const REP_B: &[B] = &[
    SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1, ChainR1, RepeatUntil, RepeatSkipUntil, Escaped, IterateVar,
];

pub fn space(l: &str, u: &[U], b: &[B], t: &[T]) -> Space {
    Space { leaves: leaves(l), u: u.to_vec(), b: b.to_vec(), t: t.to_vec() }
}

pub fn all() -> Space {
    space(&format!("{}|{}", TOKEN_LEAVES, RANGE_LEAVES), U::ALL, B::ALL, T::ALL)
}

pub fn is_rep(g: &G) -> bool {
    match g {
        G::U(u, _) => REP_U.contains(u),
        G::B(b, _, _) => REP_B.contains(b),
        _ => false,
    }
}
pub fn is_range(g: &G) -> bool {
    match g {
        G::Range(_) | G::Take(_) | G::TakeWhile(_) | G::TakeWhile1(_) | G::TakeUntilRange(_) | G::TakeFn(_)
        | G::TakeUntilByte(_) | G::TakeUntilBytes(_) => true,
        G::U(u, _) => matches!(u, RangeRecognize | RecognizeWithValue | LengthPrefix),
        _ => false,
    }
}

pub fn upto(s: &Space, max: usize, keep: impl Fn(&G) -> bool) -> Vec<Arc<G>> {
    s.upto(max).into_iter().flatten().filter(|g| keep(g)).collect()
}
/// Only the terms of exactly size `n`.
pub fn exactly(s: &Space, n: usize, keep: impl Fn(&G) -> bool) -> Vec<Arc<G>> {
    s.upto(n).pop().unwrap().into_iter().filter(|g| keep(g)).collect()
}

/// Parts which stand for what a part can do: consume or not, fail or not, with and without having committed.
pub const PARTS: &str = "'a|'b|Value|(Optional 'a)|(Optional 'b)|(Seq 'a 'b)|(Attempt (Seq 'a 'b))|(LookAhead 'b)|(Many 'b)";
pub const RANGE_PARTS: &str = "'a|(Take 2)|(Range ab)|(TakeWhile a)|(TakeWhile1 b)|(TakeUntilRange bc)|(TakeFn b)";
/// Places for a part: in front of something, behind something, in a repetition, in an alternative which is taken back.
pub const FRAMES: &[&str] = &["_", "(Seq _ 'c)", "(Seq 'c _)", "(Many (Seq _ 'c))", "(Or (Attempt (Seq _ 'c)) (Seq _ 'b))", "(Seq (Optional _) 'c)"];

/// Places where it matters whether a part has consumed anything, and parts which stop with and without having done so.
pub const COMMIT_FRAMES: &[&str] = &["(Seq (Optional (Seq _ 'c)) 'b)", "(Or (Seq _ 'c) 'b)", "(Seq (Many (Seq _ 'c)) 'b)"];
pub const COMMIT_PARTS: &str = "'a|'b|Value|(Not 'a)|(Optional 'b)|(Many1 'a)|(Attempt (Seq 'a 'b))";

/// Every operator directly over all combinations of `parts`.
pub fn level(parts: &str, u: &[U], b: &[B], t: &[T]) -> Vec<Arc<G>> {
    let mut v = exactly(&space(parts, u, &[], &[]), 2, |_| true);
    v.extend(exactly(&space(parts, &[], b, &[]), 3, |_| true));
    v.extend(exactly(&space(parts, &[], &[], t), 4, |_| true));
    v
}
/// All terms in all frames, as far as the repeated parts still consume.
pub fn framed(terms: &[Arc<G>], frames: &[&str], keep: impl Fn(&G) -> bool) -> Vec<Arc<G>> {
    let mut v = vec![];
    for f in frames {
        for t in terms {
            let g = if *f == "_" { t.clone() } else { Arc::new(G::parse(&f.replace('_', &format!("{:?}", t))).unwrap()) };
            if g.terminates() && keep(&g) {
                v.push(g);
            }
        }
    }
    v
}
