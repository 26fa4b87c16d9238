//! P06, P07: what the error report of a failed parse says, for enumerated grammars × inputs.
use mc_core::gram::*;
use mc_core::real::{build, D};
use mc_core::rep::{check_sets, report, I};
use mc_core::referr::{RefErr, Set, E};
use mc_core::spaces::*;
use mc_core::words::words;
use mc_rt::{viol, Ctx, W};
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

type Words = Vec<(&'static str, Vec<char>)>;
fn ws(al: &str, n: usize) -> Words {
    words(al, n).into_iter().map(|w| (w, w.chars().collect())).collect()
}
fn desc(g: &Arc<G>) -> String {
    format!("{:?}", g)
}

fn sweep(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words, sets: bool) {
    c.sweep(name, terms, desc, |k: &mut W, g| {
        let mut p: D<I> = build(g);
        for (w, ch) in ws {
            let want = RefErr { w: ch }.run(g, 0);
            let got = report(&mut p, w);
            k.transitions += 1;
            k.states += 1;
            k.traces += 1;
            let bad = |d: String| viol(format!("{:?}", w), format!("input {:?}: {}", w, d));
            let got = got.map_err(|m| bad(format!("panicked: {}", m)))?;
            let (pos, exp) = match (want, &got) {
                (E::Ok { .. }, None) => {
                    k.outcome("success");
                    continue;
                }
                (E::Err { pos, exp, .. }, Some(_)) => (pos, exp),
                (want, got) => return Err(bad(format!("want {:?}, got {}", want, if got.is_some() { "an error" } else { "a success" }))),
            };
            let r = got.unwrap();
            if r.pos != pos {
                return Err(bad(format!("the failure is at {}, reported at {}", pos, r.pos)));
            }
            if sets {
                check_sets(ch, pos, &exp, &r).map_err(bad)?;
                k.outcome(if exp.wild || exp.other { "report compared in part" } else { "report compared exactly" });
            } else {
                k.outcome(if pos == ch.len() { "error at the end of input" } else if pos == 0 { "error at the start" } else { "error in the middle" });
            }
        }
        k.sample(|| format!("{:?} on {} words", g, ws.len()));
        Ok(())
    })
}
/// Instances of the ideal rule, without the allowances the reference makes.
fn ideal(c: &mut Ctx) {
    let l: Vec<(&str, &'static str, usize, &[&str])> = vec![
        ("(Seq 'a (Seq 'b 'c))", "ax", 1, &["'b'"]),
        ("(Seq (Many 'a) 'b)", "aax", 2, &["'a'", "'b'"]),
        ("(Or (Seq 'a 'b) 'c)", "x", 0, &["'a'", "'c'"]),
        ("(Choice3 (Seq 'a 'b) (Seq 'b 'c) 'c)", "x", 0, &["'a'", "'b'", "'c'"]),
        ("(Seq (SepBy 'a 'b) 'c)", "ax", 1, &["'b'", "'c'"]),
        ("(Seq3 'x (Many (Or 'a 'b)) 'c)", "xe", 1, &["'a'", "'b'", "'c'"]),
        ("(Seq (Or 'a Value) 'b)", "x", 0, &["'a'", "'b'"]),
        ("(Seq Value (Seq Value 'a))", "x", 0, &["'a'"]),
        ("(Seq (SepBy (Many1 'a) 'b) 'c)", "ax", 1, &["'a'", "'b'", "'c'"]),
    ];
    c.sweep("farthest-failure rule, instances", &l, |x| format!("{} {:?}", x.0, x.1), |k, (g, w, pos, exp)| {
        let g = Arc::new(G::parse(g).unwrap());
        let mut p: D<I> = build(&g);
        k.transitions += 1;
        k.states += 1;
        k.traces += 1;
        k.outcome("instance");
        let r = report(&mut p, w).map_err(|m| viol("panic", m))?.ok_or_else(|| viol("ok", "succeeded"))?;
        let want: Set = exp.iter().map(|s| s.to_string()).collect();
        if r.pos != *pos {
            return Err(viol("position", format!("the failure is at {}, reported at {}", pos, r.pos)));
        }
        if r.expected != want {
            return Err(viol("expected", format!("at {} should be expected {:?}, reported {:?}", pos, want, r.expected)));
        }
        Ok(())
    })
}

use B::*;
use T::*;
use U::*;

fn modelled(g: &G) -> bool {
    // a parser which is created while parsing cannot say what it expects once it is behind a wrapper
    // which drops its state
    !g.any_node(&|g| matches!(g, G::U(Lazy | Opaque, a) if a.any_node(&|h| matches!(h, G::U(Factory, _)))))
}

fn run_prop(prop: &str, c: &mut Ctx) {
    let q = c.quick();
    let w4 = ws("abc", 4);
    c.bound("input words", format!("all {} words over abc up to length 4", w4.len()));
    match prop {
        "P06" => {
            sweep(c, "all operators and leaves, size <= 3", &upto(&all(), 3, |_| true), &w4, false);
            let sp = space("'a|(Str ab)|Value", U::ALL, B::ALL, T::ALL);
            sweep(c, "all operators, size 4", &exactly(&sp, 4, |_| true), &w4, false);
            let red = space(
                "'a|'b|(Str ab)|Value|(TakeFn b)",
                &[Attempt, Optional, LookAhead, Many, Many1, CountMinMax12, TakeUntil, AndThen, Not],
                &[Seq, Or, SepBy, SepEndBy1, ChainL1, RepeatUntil],
                &[Choice3, Then],
            );
            sweep(c, "core operators, size 5", &exactly(&red, 5, |_| true), &w4, false);
            sweep(c, "every operator over all kinds of parts, in all places", &framed(&level(PARTS, U::ALL, B::ALL, T::ALL), FRAMES, |_| true), &w4, false);
            sweep(c, "every operator over all kinds of slices, in all places", &framed(&level(RANGE_PARTS, U::ALL, B::ALL, T::ALL), FRAMES, |_| true), &w4, false);
            if !q {
                sweep(c, "all operators and leaves, size <= 3, longer words", &upto(&all(), 3, |_| true), &ws("abc", 6), false);
                let red = space("'a|'b|(Str ab)|Value", &[Attempt, Optional, Many1, LookAhead, CountMinMax12], &[Seq, Or, SepBy, ChainL1], &[Choice3, Then]);
                sweep(c, "core operators, size 6", &exactly(&red, 6, |_| true), &w4, false);
                let sp = space("'a|'b|Value|(Range ab)|(TakeFn b)|Eof", U::ALL, B::ALL, T::ALL);
                sweep(c, "all operators, size 4, more leaves", &exactly(&sp, 4, |_| true), &w4, false);
            }
        }
        "P07" => {
            let us0 = [
                Recognize, RangeRecognize, RecognizeWithValue, MapInput, FlatMap, AnySendSyncState, Spanned, Iterate2, Iter, FromStr, Count0, Count1, Count2, SkipCount2, CountMinMax02, CountMinMax12, CountMinMax22, CountMinMax23, SkipCountMinMax12, SkipCountMinMax23, LengthPrefix, TakeUntil, SkipUntil, Map, Attempt, Optional, Many, Many1, SkipMany, SkipMany1, Expected, Silent, LookAhead, Message, Ignore, Opaque, AnyState,
                AnySendState, Boxed, ByRef, LeftEither, RightEither, Lazy, Factory, NoPartial, Not, AndThen,
            ];
            let bs = [
                ChainR1, RepeatUntil, RepeatSkipUntil, Escaped, IterateVar, Dispatch, Seq, With, Skip, Struct2, SeqMacro2, Or, Choice2, ChoiceSlice2, ChoiceMacro2, SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1,
            ];
            let ts = [Seq3, Choice3, Between, ChoiceArr3, ChoiceSlice3, Then, ThenPartial, ThenRef, Struct3];
            for l in ["'a|'b|Eof|Value", "'a|(Str ab)|Value|Unexpected|Any", "'a|'b|(OneOf ac)|(Tokens ba)|Produce|(NoneOf a)|(Satisfy ab)"] {
                let sp = space(l, &us0, &bs, &ts);
                sweep(c, &format!("all operators, size <= 4, leaves {}", l), &upto(&sp, 4, modelled), &w4, true);
            }
            let us = [Attempt, Optional, Many, Many1, Expected, Silent, LookAhead, Not, AndThen];
            sweep(c, "every operator over all kinds of parts, in all places", &framed(&level(PARTS, &us0, &bs, &ts), FRAMES, modelled), &w4, true);
            sweep(c, "every operator over all kinds of slices, in all places", &framed(&level(RANGE_PARTS, &us0, &bs, &ts), FRAMES, modelled), &w4, true);
            let red = space("'a|'b|Value", &us, &[Seq, Or, SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1], &[Seq3, Choice3, Then]);
            sweep(c, "core operators, size 5", &exactly(&red, 5, modelled), &w4, true);
            let red = space("'a|'b|Value", &[Attempt, Optional, Many, Expected, Silent, LookAhead], &[Seq, Or, SepBy, SepEndBy1], &[Seq3, Choice3, Then]);
            sweep(c, "core operators, size 6", &exactly(&red, 6, modelled), &w4, true);
            if !q {
                let red = space("'a|'b|'c|Value", &[Attempt, Optional, Expected, Many], &[Seq, Or, SepBy, ChainL1], &[Seq3, Choice3]);
                sweep(c, "core operators, size 7", &exactly(&red, 7, modelled), &w4, true);
                let red = space("'a|'b|Value|(Str ab)", &us, &[Seq, Or, SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1], &[Seq3, Choice3, Then]);
                sweep(c, "more operators, size 5, longer words", &exactly(&red, 5, modelled), &ws("abc", 5), true);
                let red = space("'a|'b|Value", &us, &[Seq, Or, SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1], &[Seq3, Choice3, Then]);
                sweep(c, "more operators, size 6", &exactly(&red, 6, modelled), &w4, true);
            }
            ideal(c);
        }
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    mc_rt::main(run_prop)
}
