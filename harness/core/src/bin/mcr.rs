//! P20: recursive grammars. P21: semantic actions.
use combine::error::ParseResult::*;
use combine::stream::MaybePartialStream;
use combine::Parser;
use mc_core::acts::{self, Mode};
use mc_core::gram::*;
use mc_core::partial::{all_cuts, run, run_by, run_commit, Out, OutC, PI};
use mc_core::real::{build, DynState, D};
use mc_core::refsem::{Ref, R};
use mc_core::referr::{RefErr, E};
use mc_core::rep::{report, I};
use mc_core::rules::{self, desc, Form, FORMS, RESUMABLE};
use mc_core::spaces::*;
use mc_core::whole::{self, Lang};
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, Viol, W};
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

type Words = Vec<(&'static str, Vec<char>)>;
type Rules = Vec<Arc<G>>;
fn ws(al: &str, n: usize) -> Words {
    words(al, n).into_iter().map(|w| (w, w.chars().collect())).collect()
}
fn show(r: &Rules) -> String {
    desc(r)
}
fn byte_end(w: &str, n: usize) -> usize {
    w.char_indices().nth(n).map_or(w.len(), |x| x.0)
}

/// All usable grammars of one rule.
fn one_rule(s: &Space, max: usize) -> Vec<Rules> {
    s.upto(max).into_iter().flatten().map(|g| vec![g]).filter(|r| rules::usable(r)).collect()
}
/// All usable grammars of two rules which refer to each other.
fn two_rules(s: &Space, a: usize, b: usize) -> Vec<Rules> {
    let has = |g: &Arc<G>, i: u8| g.any_node(&|h| *h == G::Rule(i));
    let x: Vec<_> = s.upto(a).into_iter().flatten().filter(|g| has(g, 1)).collect();
    let y: Vec<_> = s.upto(b).into_iter().flatten().filter(|g| has(g, 0)).collect();
    let mut out = vec![];
    for p in &x {
        for q in &y {
            let r = vec![p.clone(), q.clone()];
            if rules::usable(&r) {
                out.push(r);
            }
        }
    }
    out
}

fn outcome(r: &R) -> &'static str {
    match r {
        R::Ok { com: true, .. } => "ok, committed",
        R::Ok { com: false, .. } => "ok, not committed",
        R::Err { com: true } => "error, committed",
        R::Err { com: false } => "error, not committed",
    }
}

fn oneshot(c: &mut Ctx, name: &str, gs: &[Rules], ws: &Words) {
    c.sweep(name, gs, show, |k: &mut W, r| {
        rules::set(r);
        for (w, ch) in ws {
            let want = Ref { w: ch }.run(&r[0], 0);
            for form in FORMS {
                rules::set_form(form);
                let got = no_panic(|| {
                    let mut i = MaybePartialStream(*w, false);
                    let r = build::<PI>(&r[0]).parse_stream(&mut i);
                    let end = w[..w.len() - i.0.len()].chars().count();
                    match r {
                        CommitOk(v) => R::Ok { v, end, com: true },
                        PeekOk(v) => R::Ok { v, end, com: false },
                        CommitErr(_) => R::Err { com: true },
                        PeekErr(_) => R::Err { com: false },
                    }
                });
                k.transitions += 1;
                let bad = |d: String| viol(format!("{:?} {:?}", form, w), format!("{:?} on {:?}: {}", form, w, d));
                match got {
                    Ok(got) if got == want => {}
                    Ok(got) => return Err(bad(format!("want {:?}, got {:?}", want, got))),
                    Err(m) => return Err(bad(format!("want {:?}, panicked: {}", want, m))),
                }
            }
            k.states += 1;
            k.traces += 1;
            k.outcome(outcome(&want));
        }
        k.sample(|| format!("{} on {} words", show(r), ws.len()));
        Ok(())
    })
}

fn chunked_word(k: &mut W, r: &Rules, w: &'static str, ch: &[char], cuts: &[Vec<usize>]) -> Result<(), Viol> {
    let want = Ref { w: ch }.run(&r[0], 0);
    let out = match &want {
        R::Ok { v, end, .. } => Out::Ok(v.clone(), byte_end(w, *end)),
        _ => Out::Err,
    };
    for form in RESUMABLE {
        rules::set_form(form);
        for cut in cuts {
            let bad = |d: String| viol(format!("{:?} {:?} {:?}", form, w, cut), format!("{:?} on {:?} cut at {:?}: {}", form, w, cut, d));
            let mut st = DynState::default();
            let got = run(&r[0], w, cut, &mut st, 0, &mut k.transitions);
            if got != out {
                return Err(bad(format!("whole input gives {:?}, chunks give {:?}", out, got)));
            }
            let got = run_commit(&r[0], w, cut, &mut k.transitions);
            let wantc = match &want {
                R::Ok { v, end, com } => OutC::Ok(v.clone(), byte_end(w, *end), *com),
                R::Err { com } => OutC::Err(*com),
            };
            // having committed in an earlier chunk is not remembered by the caller of a resumed parse
            let same = match (&got, &wantc) {
                (OutC::Ok(v, e, _), OutC::Ok(v2, e2, _)) => v == v2 && e == e2,
                (OutC::Err(_), OutC::Err(_)) => true,
                _ => false,
            };
            if !same || cut.is_empty() && got != wantc {
                return Err(bad(format!("whole input gives {:?}, chunks give {:?}", wantc, got)));
            }
            k.traces += 1;
        }
        k.states += 1;
    }
    k.outcome(outcome(&want));
    Ok(())
}
fn chunked(c: &mut Ctx, name: &str, gs: &[Rules], ws: &Words) {
    c.sweep(name, gs, show, |k: &mut W, r| {
        rules::set(r);
        for (w, ch) in ws {
            chunked_word(k, r, w, ch, &all_cuts(w))?;
        }
        k.sample(|| format!("{} on {} words in all chunkings", show(r), ws.len()));
        Ok(())
    })
}
fn positions(c: &mut Ctx, name: &str, gs: &[Rules], ws: &Words) {
    c.sweep(name, gs, show, |k: &mut W, r| {
        rules::set(r);
        for form in FORMS {
            rules::set_form(form);
            let mut p: D<I> = build(&r[0]);
            for (w, ch) in ws {
                let want = RefErr { w: ch }.run(&r[0], 0);
                let got = report(&mut p, w);
                k.transitions += 1;
                let bad = |d: String| viol(format!("{:?} {:?}", form, w), format!("{:?} on {:?}: {}", form, w, d));
                match (want, got.map_err(|m| bad(format!("panicked: {}", m)))?) {
                    (E::Ok { .. }, None) => k.outcome("success"),
                    (E::Err { pos, .. }, Some(r)) if pos == r.pos => k.outcome("error position"),
                    (E::Err { pos, .. }, Some(r)) => return Err(bad(format!("the failure is at {}, reported at {}", pos, r.pos))),
                    (want, got) => return Err(bad(format!("want {:?}, got {}", want, if got.is_some() { "an error" } else { "a success" }))),
                }
                k.states += 1;
                k.traces += 1;
            }
        }
        Ok(())
    })
}

/// One language of `whole`: its parser under the chunk driver and under the error reporter.
fn drive(l: &Lang, w: &'static str, cuts: &[usize], calls: &mut u64) -> Out {
    match l.name {
        "json" => run_by(&mut whole::json::<PI>(), w, cuts, &mut Default::default(), 0, calls),
        "expr" => run_by(&mut whole::expr::<PI>(), w, cuts, &mut Default::default(), 0, calls),
        "sexpr" => run_by(&mut whole::sexpr::<PI>(), w, cuts, &mut Default::default(), 0, calls),
        _ => run_by(&mut whole::stmt::<PI>(), w, cuts, &mut Default::default(), 0, calls),
    }
}
fn lang_report(l: &Lang, w: &'static str) -> Result<Option<usize>, String> {
    let r = match l.name {
        "json" => report(&mut whole::json::<I>(), w),
        "expr" => report(&mut whole::expr::<I>(), w),
        "sexpr" => report(&mut whole::sexpr::<I>(), w),
        _ => report(&mut whole::stmt::<I>(), w),
    };
    r.map(|r| r.map(|r| r.pos))
}
fn lang_word(k: &mut W, l: &Lang, w: &str, cuts: &[Vec<usize>]) -> Result<(), Viol> {
    let w = leak(w);
    let ch: Vec<char> = w.chars().collect();
    let want = (l.read)(&ch, 0);
    let out = match &want {
        Ok((v, e)) => Out::Ok(v.clone(), *e),
        Err(_) => Out::Err,
    };
    let bad = |d: String| viol(format!("{:?}", w), format!("{:?}: {}", w, d));
    match (lang_report(l, w).map_err(|m| bad(format!("panicked: {}", m)))?, &want) {
        (None, Ok(_)) => k.outcome("accepted"),
        (Some(p), Err(e)) if p == *e => k.outcome("refused at the right place"),
        (got, want) => return Err(bad(format!("want {:?}, error reported at {:?}", want, got))),
    }
    k.transitions += 1;
    for cut in cuts {
        let got = drive(l, w, cut, &mut k.transitions);
        k.traces += 1;
        if got != out {
            return Err(viol(format!("{:?} {:?}", w, cut), format!("{:?} cut at {:?}: the reader says {:?}, chunks give {:?}", w, cut, out, got)));
        }
    }
    k.states += 1;
    Ok(())
}
fn leak(w: &str) -> &'static str {
    thread_local!(static SEEN: std::cell::RefCell<std::collections::HashSet<&'static str>> = Default::default());
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(x) = s.get(w) {
            return *x;
        }
        let x: &'static str = Box::leak(w.to_string().into_boxed_str());
        s.insert(x);
        x
    })
}
fn languages(c: &mut Ctx, q: bool) {
    let depth = if q { 30 } else { 80 };
    for l in &whole::LANGS {
        let (all, few) = match (l.name, q) {
            ("json", true) => (5, 7),
            ("json", false) => (6, 8),
            (_, true) => (6, 8),
            (_, false) => (8, 10),
        };
        let words = whole::viable(l, all);
        c.sweep(&format!("{}: all {} viable words up to length {}, all chunkings", l.name, words.len(), all), &words, |w| w.clone(), |k, w| {
            lang_word(k, l, w, &all_cuts(w))
        });
        let words: Vec<String> = whole::viable(l, few).into_iter().filter(|w| w.len() > all).collect();
        c.sweep(&format!("{}: all {} longer viable words up to length {}, every single cut and every character on its own", l.name, words.len(), few), &words, |w| w.clone(), |k, w| {
            let mut cuts: Vec<Vec<usize>> = (0..=w.len()).map(|i| vec![i]).collect();
            cuts.push((0..=w.len()).collect());
            lang_word(k, l, w, &cuts)
        });
        let deep: Vec<usize> = (1..=depth).collect();
        c.sweep(&format!("{}: nested up to {} deep, cut at every single place, in pieces of every size", l.name, depth), &deep, |n| n.to_string(), |k, n| {
            let full = (l.nested)(*n);
            // also with the last or the middle character missing
            let mut short = full.clone();
            short.pop();
            let mut torn = full.clone();
            torn.remove(full.len() / 2);
            for w in [full, short, torn] {
                let mut cuts: Vec<Vec<usize>> = (0..=w.len()).map(|i| vec![i]).collect();
                cuts.extend((1..=w.len()).map(|s| (0..=w.len()).step_by(s).collect()));
                lang_word(k, l, &w, &cuts)?;
            }
            Ok(())
        });
    }
}

fn with_record<T>(m: Mode, f: impl FnOnce() -> T) -> (T, Vec<String>) {
    acts::start(m);
    let r = f();
    (r, acts::take())
}
fn actions(c: &mut Ctx, name: &str, gs: &[Arc<G>], ws: &Words, cut: bool) {
    c.sweep(name, gs, |g| format!("{:?}", g), |k: &mut W, g| {
        for (w, ch) in ws {
            let bad = |d: String| viol(format!("{:?}", w), format!("{:?}: {}", w, d));
            if !cut {
                let (_, want) = with_record(Mode::All, || Ref { w: ch }.run(g, 0));
                for how in 0..3 {
                    let (got, log) = with_record(Mode::All, || {
                        no_panic(|| {
                            let mut i = MaybePartialStream(*w, false);
                            let mut p = build::<PI>(g);
                            let _ = match how {
                                0 => p.parse_stream(&mut i),
                                1 => p.parse_stream_partial(&mut i, &mut Default::default()),
                                _ => return drop(p.parse(i)),
                            };
                        })
                    });
                    k.transitions += 1;
                    got.map_err(&bad)?;
                    if log != want {
                        return Err(bad(format!("the actions should be {:?}, ran {:?}", want, log)));
                    }
                }
                k.traces += 1;
                k.outcome(if want.is_empty() { "no action" } else { "actions compared" });
            } else {
                let (_, want) = with_record(Mode::Outside, || Ref { w: ch }.run(g, 0));
                for cut in all_cuts(w) {
                    let (_, log) = with_record(Mode::Outside, || run(g, w, &cut, &mut Default::default(), 0, &mut k.transitions));
                    k.traces += 1;
                    if log != want {
                        return Err(viol(format!("{:?} {:?}", w, cut), format!("{:?} cut at {:?}: the actions should be {:?}, ran {:?}", w, cut, want, log)));
                    }
                }
                k.outcome(if want.is_empty() { "no action" } else { "actions compared" });
            }
            k.states += 1;
        }
        Ok(())
    })
}
fn action(g: &G) -> Option<&G> {
    match g {
        G::U(Map | MapInput | AndThen | FlatMap | FromStr | LengthPrefix, x) | G::T(Then | ThenRef, x, ..) => Some(x),
        _ => None,
    }
}
fn acting(g: &G) -> bool {
    g.any_node(&|g| action(g).is_some())
        // a right-associative chain looks for the operator again on its way back
        && !g.any_node(&|g| matches!(g, G::B(ChainR1, _, y) if y.any_node(&|g| action(g).is_some())))
}
/// A choice starts over if it was suspended before anything was consumed, so only the actions of
/// parts which consume something are run once.
fn acting_on_input(g: &G) -> bool {
    acting(g) && !g.any_node(&|g| action(g).map_or(false, |x| x.nullable()))
}

use B::*;
use T::*;
use U::*;

fn run_prop(prop: &str, c: &mut Ctx) {
    let q = c.quick();
    match prop {
        "P20" => {
            let w5 = ws("ab", if q { 5 } else { 6 });
            let w4 = ws("ab", 4);
            let all_u: Vec<U> = U::ALL.iter().copied().filter(|u| !matches!(u, Spanned)).collect();
            let wide = space("'a|'b|Value|(Rule 0)", &all_u, B::ALL, T::ALL);
            let core_u = [Attempt, Optional, Many, LookAhead, Not, AndThen];
            let core_b = [Seq, Or, SepBy, ChainL1];
            let core = space("'a|'b|(Rule 0)", &core_u, &core_b, &[Choice3, Between]);
            let g4 = one_rule(&wide, 4);
            let g5 = one_rule(&core, if q { 5 } else { 6 });
            oneshot(c, "one rule, all operators, size <= 4", &g4, &w5);
            oneshot(c, "one rule, core operators, size <= 5", &g5, &w5);
            chunked(c, "one rule, all operators, size <= 4, chunked", &g4, &w4);
            chunked(c, "one rule, core operators, size <= 5, chunked", &g5, &w4);
            positions(c, "one rule, error position", &g4, &w5);
            positions(c, "one rule, core operators, error position", &g5, &w4);
            let two = space("'a|'b|(Rule 0)|(Rule 1)", &core_u, &core_b, &[]);
            let m = two_rules(&two, 4, if q { 3 } else { 4 });
            oneshot(c, "two rules", &m, &w4);
            chunked(c, "two rules, chunked", &m, &w4);
            languages(c, q);
        }
        "P21" => {
            let w4 = ws("ab", 4);
            let a = upto(&all(), 3, acting);
            let a2 = upto(&all(), 3, acting_on_input);
            actions(c, "all operators and leaves, size <= 3", &a, &w4, false);
            actions(c, "all operators and leaves, size <= 3, chunked", &a2, &w4, true);
            let sp = space("'a|(Str ab)|Value", U::ALL, B::ALL, T::ALL);
            let b = exactly(&sp, 4, acting);
            let b2 = exactly(&sp, 4, acting_on_input);
            actions(c, "all operators, size 4", &b, &w4, false);
            actions(c, "all operators, size 4, chunked", &b2, &w4, true);
            let sp = space("'a|'b|Value", &[Attempt, Optional, Many, Many1, Map, AndThen, CountMinMax12, LookAhead], &[Seq, Or, SepBy, SepEndBy, ChainL1, RepeatUntil], &[Then, Choice3]);
            let n = if q { 6 } else { 7 };
            let d: Vec<_> = (5..=n).flat_map(|n| exactly(&sp, n, acting)).collect();
            actions(c, "core operators, size 5", &d, &w4, false);
            let d: Vec<_> = d.into_iter().filter(|g| acting_on_input(g)).collect();
            actions(c, "core operators, size 5, chunked", &d, &ws("ab", if q { 3 } else { 4 }), true);
            let f = framed(&level(PARTS, U::ALL, B::ALL, T::ALL), FRAMES, acting);
            actions(c, "every operator over all kinds of parts, in all places", &f, &ws("abc", 4), false);
            let f: Vec<_> = f.into_iter().filter(|g| acting_on_input(g)).collect();
            actions(c, "every operator over all kinds of parts, in all places, chunked", &f, &ws("abc", if q { 3 } else { 4 }), true);
            if !q {
                let w6 = ws("ab", 6);
                actions(c, "all operators and leaves, size <= 3, longer words", &a, &w6, false);
                actions(c, "all operators and leaves, size <= 3, longer words, chunked", &a2, &w6, true);
                let sp = space("'a|'b|(Str ab)|Value|(TakeWhile1 a)|Any|Eof", U::ALL, B::ALL, T::ALL);
                let b: Vec<_> = exactly(&sp, 4, acting);
                actions(c, "all operators, more leaves, size 4", &b, &w4, false);
                let b: Vec<_> = b.into_iter().filter(|g| acting_on_input(g)).collect();
                actions(c, "all operators, more leaves, size 4, chunked", &b, &w4, true);
            }
        }
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    mc_rt::main(run_prop)
}
