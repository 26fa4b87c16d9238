//! P01–P05: enumerated grammars × enumerated inputs × enumerated chunkings and message histories.
use combine::error::ParseResult::*;
use combine::stream::{decode, decode_tokio, MaybePartialStream};
use combine::Parser;
use mc_core::gram::*;
use mc_core::partial::{all_cuts, run, run_commit, Out, OutC, PI};
use mc_core::real::{build, D, DynState};
use mc_core::refsem::{Ref, R};
use mc_core::spaces::*;
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, Viol, W};
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

type Words = Vec<(&'static str, Vec<char>)>;
fn ws(al: &str, n: usize) -> Words {
    words(al, n).into_iter().map(|w| (w, w.chars().collect())).collect()
}
fn desc(g: &Arc<G>) -> String {
    format!("{:?}", g)
}
fn byte_end(w: &str, n: usize) -> usize {
    w.char_indices().nth(n).map_or(w.len(), |x| x.0)
}

/// One-shot: value, end and commit status of the real parser equal the reference's, for every word.
fn oneshot(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words) {
    c.sweep(name, terms, desc, |k: &mut W, g| {
        // the same parser value serves every input: earlier inputs must leave no trace
        let mut p: D<PI> = build(g);
        let mut sticky: DynState = Default::default();
        for (w, ch) in ws {
            let want = Ref { w: ch }.run(g, 0);
            for how in 0..2 {
                let got = no_panic(|| {
                    let mut i = MaybePartialStream(*w, false);
                    let r = if how == 0 { p.parse_stream(&mut i) } else { p.parse_stream_partial(&mut i, &mut sticky) };
                    let end = w[..w.len() - i.0.len()].chars().count();
                    match r {
                        CommitOk(v) => R::Ok { v, end, com: true },
                        PeekOk(v) => R::Ok { v, end, com: false },
                        CommitErr(_) => R::Err { com: true },
                        PeekErr(_) => R::Err { com: false },
                    }
                });
                k.transitions += 1;
                match got {
                    Ok(got) if got == want => {}
                    Ok(got) => return Err(bad(w, how, format!("want {:?}, got {:?}", want, got))),
                    Err(m) => return Err(bad(w, how, format!("want {:?}, panicked: {}", want, m))),
                }
                if let R::Err { .. } = want {
                    sticky = Default::default();
                }
            }
            k.states += 1;
            k.traces += 1;
            k.outcome(match want {
                R::Ok { com: true, .. } => "ok, committed",
                R::Ok { com: false, .. } => "ok, not committed",
                R::Err { com: true } => "error, committed",
                R::Err { com: false } => "error, not committed",
            });
        }
        k.sample(|| format!("{:?} on {} words", g, ws.len()));
        Ok(())
    })
}
fn bad(w: &str, how: usize, d: String) -> Viol {
    viol(format!("{:?}", w), format!("input {:?} ({}): {}", w, ["parse_stream", "parse_stream_partial"][how], d))
}

fn want(g: &G, ch: &[char], w: &str) -> Out {
    match (Ref { w: ch }).run(g, 0) {
        R::Ok { v, end, .. } => Out::Ok(v, byte_end(w, end)),
        R::Err { .. } => Out::Err,
    }
}

/// Every way of cutting every word into chunks gives the one-shot outcome.
fn chunked(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words, max_cuts: usize) {
    let cuts: Vec<Vec<Vec<usize>>> =
        ws.iter().map(|w| all_cuts(w.0).into_iter().filter(|c| c.len() <= max_cuts).collect()).collect();
    c.sweep(name, terms, desc, |k, g| {
        for ((w, ch), cuts) in ws.iter().zip(&cuts) {
            let want = want(g, ch, w);
            let want_c = match (Ref { w: ch }).run(g, 0) {
                R::Ok { v, end, com } => OutC::Ok(v, byte_end(w, end), com),
                R::Err { com } => OutC::Err(com),
            };
            for cuts in cuts {
                let got = run(g, w, cuts, &mut Default::default(), 0, &mut k.transitions);
                if got != want {
                    return Err(viol(format!("{:?} {:?}", w, cuts), format!("input {:?} cut at {:?}: want {:?}, got {:?}", w, cuts, want, got)));
                }
                let got = run_commit(g, w, cuts, &mut k.transitions);
                if got != want_c {
                    return Err(viol(
                        format!("{:?} {:?}", w, cuts),
                        format!("input {:?} cut at {:?}, with commit status: want {:?}, got {:?}", w, cuts, want_c, got),
                    ));
                }
            }
            k.states += cuts.len() as u64;
            k.traces += cuts.len() as u64;
            *k.outcomes.entry(if want == Out::Err { "error".into() } else { "ok".into() }).or_default() += cuts.len() as u64;
        }
        k.sample(|| format!("{:?}: every chunking of {} words", g, ws.len()));
        Ok(())
    })
}

/// Consecutive messages decoded with one parser value and one partial state.
fn messages(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words, max_cuts: usize) {
    let cuts: Vec<Vec<Vec<usize>>> =
        ws.iter().map(|w| all_cuts(w.0).into_iter().filter(|c| c.len() <= max_cuts).collect()).collect();
    c.sweep(name, terms, desc, |k, g| {
        for ((w, ch), cuts) in ws.iter().zip(&cuts) {
            // the reference: parse one message after the other
            let mut want = vec![];
            let mut pos = 0;
            while pos < ch.len() {
                match (Ref { w: ch }).run(g, pos) {
                    R::Ok { v, end, .. } if end > pos => {
                        pos = end;
                        want.push((v, byte_end(w, end)));
                    }
                    _ => break,
                }
            }
            if want.len() < 2 && !(want.len() == 1 && pos < ch.len()) {
                continue;
            }
            let fails_after = pos < ch.len() && matches!((Ref { w: ch }).run(g, pos), R::Err { .. });
            for cuts in cuts {
                for persistent in [false, true] {
                    let mut calls = 0;
                    let got = no_panic(|| history(g, w, cuts, want.len(), fails_after, persistent, &mut calls));
                    k.transitions += calls;
                    let ok = match &got {
                        Ok((l, e)) => *l == want && *e == fails_after,
                        Err(_) => false,
                    };
                    if !ok {
                        return Err(viol(
                            format!("{:?} {:?}", w, cuts),
                            format!("input {:?} cut at {:?}, persistent parser {}: want messages {:?} then error {}, got {:?}", w, cuts, persistent, want, fails_after, got),
                        ));
                    }
                }
            }
            k.states += 2 * cuts.len() as u64;
            k.traces += 2 * cuts.len() as u64;
            *k.outcomes.entry(format!("{} messages{}", want.len(), if fails_after { ", then an error" } else { "" })).or_default() +=
                2 * cuts.len() as u64;
        }
        k.sample(|| format!("{:?}: message histories over {} words", g, ws.len()));
        Ok(())
    })
}

/// Decodes `n` messages (plus a failing one if `fails`) with one state; returns values and ends.
fn history(
    g: &Arc<G>,
    w: &'static str,
    cuts: &[usize],
    n: usize,
    fails: bool,
    persistent: bool,
    calls: &mut u64,
) -> (Vec<(mc_core::val::Val, usize)>, bool) {
    let mut st = DynState::default();
    let mut p: D<PI> = build(g);
    let mut out = vec![];
    let (mut at, mut ci) = (0, 0);
    while out.len() < n + fails as usize {
        while ci < cuts.len() && cuts[ci] < at {
            ci += 1;
        }
        if !persistent {
            p = build(g);
        }
        *calls += 1;
        if ci < cuts.len() {
            let mut s: PI = MaybePartialStream(&w[at..cuts[ci]], true);
            match decode(&mut p, &mut s, &mut st) {
                Ok((Some(v), m)) => {
                    at += m;
                    out.push((v, at));
                }
                Ok((None, m)) => {
                    at += m;
                    ci += 1;
                }
                Err(_) => return (out, true),
            }
        } else {
            let mut s: PI = MaybePartialStream(&w[at..], false);
            match decode_tokio(&mut p, &mut s, &mut st) {
                Ok((Some(v), m)) => {
                    at += m;
                    out.push((v, at));
                }
                Ok((None, _)) => return (out, at == w.len() && fails),
                Err(_) => return (out, true),
            }
        }
    }
    (out, false)
}

use B::*;
use T::*;
use U::*;
const MULTI_LEAVES: &str = "'a|'é|(Str aé)|(Range aé)|(Range é)|(Take 2)|(TakeWhile é)|(TakeWhile1 aé)|(TakeUntilRange éa)|(TakeUntilRange é)|(TakeFn é)|(TakeUntilBytes bé)";
const SMALL: &str = "'a|'b|(Str ab)|Value";

fn run_prop(prop: &str, c: &mut Ctx) {
    let q = c.quick();
    c.assume("parsers are deterministic and repeated parsers consume input (the documented precondition of repetition)");
    match prop {
        "P01" => {
            let no_rep = |g: &G| !g.any_node(&is_rep);
            let full = space(&format!("{}|{}", TOKEN_LEAVES, RANGE_LEAVES), PLAIN_U, PLAIN_B, T::ALL);
            let w4 = ws("abc", 4);
            c.bound("input words", format!("all {} words over abc up to length 4", w4.len()));
            oneshot(c, "all operators, size <= 3", &upto(&full, 3, no_rep), &w4);
            let red = space("'a|'b|(Str ab)|Value|Eof", &[Attempt, LookAhead, Not, Optional, AndThen], &[Seq, Or, Choice2], &[Choice3, Seq3, Then, ThenPartial]);
            let lv = framed(&level(PARTS, PLAIN_U, PLAIN_B, T::ALL), FRAMES, |_| true);
            oneshot(c, "every operator over all kinds of parts, in all places", &lv, &w4);
            oneshot(c, "core operators, size 4..6", &upto(&red, if q { 6 } else { 7 }, |g| g.size() >= 4), &ws("ab", 4));
            if !q {
                oneshot(c, "all operators, size 4", &exactly(&full, 4, no_rep), &w4);
                oneshot(c, "all operators, size <= 3, longer words", &upto(&full, 3, no_rep), &ws("abc", 6));
            }
        }
        "P02" => {
            let has = |g: &G| g.any_node(&is_rep);
            let full = all();
            let w4 = ws("abc", 4);
            c.bound("input words", format!("all {} words over abc up to length 4", w4.len()));
            oneshot(c, "all operators, size <= 3", &upto(&full, 3, has), &w4);
            let red = space(SMALL, &[Attempt, Optional, LookAhead, Many, Many1, Count2, CountMinMax22, CountMinMax12, Recognize, TakeUntil, Iterate2, Iter],
                &[Seq, Or, SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1, ChainR1, RepeatUntil, Escaped], &[Choice3, Then]);
            let lv = framed(&level(PARTS, REP_U, REP_B, &[]), FRAMES, |_| true);
            oneshot(c, "every repetition over all kinds of parts, in all places", &lv, &w4);
            oneshot(c, "repetition core, size 4", &exactly(&red, 4, has), &ws("abc", 5));
            if !q {
                oneshot(c, "repetition core, size 5", &exactly(&red, 5, has), &ws("abc", 5));
                oneshot(c, "all operators, size 4", &exactly(&full, 4, has), &w4);
            }
        }
        "P03" => {
            let tok = |g: &G| !g.any_node(&is_range);
            let full = space(TOKEN_LEAVES, U::ALL, B::ALL, T::ALL);
            let w = ws("abc", 4);
            c.bound("input words", format!("all {} words over abc up to length 4, every subset of cut positions", w.len()));
            chunked(c, "all operators, size <= 3", &upto(&full, 3, tok), &w, 9);
            let red = space(SMALL, &[Attempt, LookAhead, Not, Optional, Many, Many1, Count2, CountMinMax12, TakeUntil, Iterate2],
                &[Seq, Or, SepBy, SepEndBy1, ChainL1, ChainR1, RepeatUntil, Escaped], &[Seq3, Choice3, Then, ThenPartial, ThenRef, ChoiceSlice3]);
            chunked(c, "core operators, size 4", &exactly(&red, 4, tok), &w, 9);
            let stop = space("'a|Unexpected|Eof|Value|Any|(Tokens ab)|(SatisfyMap a)|(FnParser a)", &[Attempt, LookAhead, Not, Optional, Many, Count2, AndThen, Iterate2, Expected],
                &[Seq, Or, SepBy, SepEndBy1, RepeatUntil, ChoiceSlice2], &[Seq3, Then, ThenPartial]);
            chunked(c, "stops without consuming, size 4", &exactly(&stop, 4, tok), &w, 9);
            chunked(c, "every operator over all kinds of parts, in all places", &framed(&level(PARTS, U::ALL, B::ALL, T::ALL), FRAMES, tok), &w, if q { 2 } else { 9 });
            chunked(c, "places where it matters what was consumed", &framed(&level(COMMIT_PARTS, U::ALL, B::ALL, T::ALL), COMMIT_FRAMES, tok), &w, if q { 1 } else { 9 });
            if !q {
                chunked(c, "core operators, size 5", &exactly(&red, 5, tok), &w, 9);
                chunked(c, "all operators, size <= 3, longer words", &upto(&full, 3, tok), &ws("abc", 6), 2);
            }
        }
        "P04" => {
            let rng = |g: &G| g.any_node(&is_range);
            let w = ws("abc", 4);
            c.bound("input words", format!("all {} words over abc and over aéb up to length 4, every subset of cut positions", w.len()));
            chunked(c, "range leaves under all operators, size <= 3", &upto(&all(), 3, rng), &w, 9);
            let multi = space(MULTI_LEAVES, U::ALL, B::ALL, T::ALL);
            chunked(c, "multi-byte ranges under all operators, size <= 3", &upto(&multi, 3, rng), &ws("aéb", 4), 9);
            let red = space("'a|(Take 2)|(TakeWhile a)|(TakeUntilRange ab)|(TakeFn b)|(Range ab)|(TakeUntilBytes ab)", &[Attempt, LookAhead, Not, Optional, Many1, RangeRecognize, RecognizeWithValue, LengthPrefix, TakeUntil],
                &[Seq, Or, SepBy, ChainL1, RepeatUntil, Escaped], &[Seq3, ThenPartial]);
            chunked(c, "range core, size 4", &exactly(&red, 4, rng), &w, 9);
            let stop = space("(Range ab)|(TakeWhile a)|(TakeWhile1 b)|(TakeUntilByte b)|Unexpected|Eof|Value", &[Attempt, LookAhead, Not, Optional, Many, RangeRecognize, RecognizeWithValue, AndThen],
                &[Seq, Or, SepEndBy1, RepeatUntil], &[Seq3, Then, ThenPartial]);
            chunked(c, "stops without consuming, size 4", &exactly(&stop, 4, rng), &w, 9);
            let k = if q { 2 } else { 9 };
            chunked(c, "every operator over all kinds of slices, in all places", &framed(&level(RANGE_PARTS, U::ALL, B::ALL, T::ALL), FRAMES, rng), &w, k);
            let rec = framed(&level(PARTS, U::ALL, B::ALL, T::ALL), &["(RangeRecognize _)", "(Seq 'a (RangeRecognize _))", "(RecognizeWithValue _)", "(Many (RangeRecognize (Seq _ 'c)))", "(Or (Attempt (Seq (RecognizeWithValue _) 'c)) 'b)"], rng);
            chunked(c, "recognized slices of every operator over all kinds of parts", &rec, &w, k);
            if !q {
                chunked(c, "range leaves under all operators, size <= 3, longer words", &upto(&all(), 3, rng), &ws("abc", 6), 2);
            }
        }
        "P05" => {
            let full = all();
            let w = ws("abc", 4);
            c.bound("input words", format!("all {} words over abc up to length 4 as message streams, every subset of cut positions", w.len()));
            messages(c, "all operators, size <= 3", &upto(&full, 3, |_| true), &w, 9);
            let red = space("'a|'b|(Str ab)|Any", &[Attempt, LookAhead, Not, Optional, Many1, Count2, CountMinMax12, TakeUntil, Factory],
                &[Seq, Or, ChoiceSlice2, SepBy1, SepEndBy1, ChainL1, RepeatUntil, Escaped], &[Seq3, Choice3, Then, ThenPartial, ThenRef]);
            messages(c, "core operators, size 4", &exactly(&red, 4, |_| true), &w, 9);
            let stop = space("'a|(TakeWhile b)|Unexpected|Eof|Value|(Tokens ab)", &[Attempt, LookAhead, Not, Optional, Many, Count2, AndThen, AnySendSyncState],
                &[Seq, Or, SepBy, SepEndBy1, RepeatUntil], &[Seq3, Then, ThenPartial, Choice3]);
            messages(c, "stops without consuming, size 4", &exactly(&stop, 4, |_| true), &w, 9);
            messages(c, "every operator over all kinds of parts, in all places", &framed(&level(PARTS, U::ALL, B::ALL, T::ALL), FRAMES, |_| true), &w, if q { 2 } else { 9 });
            messages(c, "places where it matters what was consumed", &framed(&level(COMMIT_PARTS, U::ALL, B::ALL, T::ALL), COMMIT_FRAMES, |_| true), &w, if q { 1 } else { 9 });
            if !q {
                messages(c, "core operators, size 5", &exactly(&red, 5, |_| true), &w, 9);
            }
        }
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    mc_rt::main(run_prop)
}
