//! P22: the report of a failure does not depend on how the parser is started, wrapped or fed.
use combine::easy;
use combine::error::ParseResult::{self, *};
use combine::error::{ParseError, StreamError, Token, Tracked};
use combine::parser::FirstMode;
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{decode, state, MaybePartialStream, Positioned, ResetStream, StreamErrorFor, StreamOnce};
use combine::{EasyParser, Parser};
use mc_core::gram::*;
use mc_core::partial::all_cuts;
use mc_core::real::{build, DynState, In, D};
use mc_core::spaces::*;
use mc_core::val::Val;
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, W};
use std::collections::BTreeSet;
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

type B = position::Stream<&'static str, IndexPositioner>;
type I = easy::Stream<MaybePartialStream<B>>;
type E = easy::Errors<char, &'static str, usize>;

fn base(w: &'static str, at: usize, partial: bool) -> MaybePartialStream<B> {
    MaybePartialStream(position::Stream::with_positioner(w, IndexPositioner::new_with_position(at)), partial)
}
fn input(w: &'static str, at: usize, partial: bool) -> I {
    easy::Stream(base(w, at, partial))
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Out {
    Ok(Val),
    Err { at: usize, facts: Vec<String> },
}
fn report(e: &E) -> Out {
    Out::Err { at: e.position, facts: e.errors.iter().map(|x| format!("{:?}", x)).collect() }
}
fn out<T>(r: Result<(Val, T), E>) -> Out {
    match r {
        Ok(x) => Out::Ok(x.0),
        Err(e) => report(&e),
    }
}
fn flat(r: ParseResult<Val, E>) -> Result<(Val, ()), E> {
    match r {
        CommitOk(v) | PeekOk(v) => Ok((v, ())),
        CommitErr(e) => Err(e),
        PeekErr(e) => Err(e.error),
    }
}

/// What `Parser::parse_lazy` documents: the missing facts come from `add_error`, and the token found.
fn completed<J: In>(p: &mut D<J>, mut i: J, r: impl FnOnce(&mut D<J>, &mut J) -> ParseResult<Val, J::Error>) -> ParseResult<Val, J::Error>
where
    J: Positioned,
{
    let before = i.checkpoint();
    match r(p, &mut i) {
        PeekErr(mut e) => {
            i.reset(before.clone()).ok().unwrap();
            match i.uncons() {
                Ok(t) => {
                    i.reset(before).ok().unwrap();
                    e.error.add_unexpected(Token(t));
                }
                Err(_) => e.error.add(StreamErrorFor::<J>::end_of_input()),
            }
            p.add_error(&mut e);
            PeekErr(e)
        }
        r => r,
    }
}

fn starts(g: &Arc<G>, w: &'static str) -> Vec<(&'static str, Out)> {
    let b = || build::<I>(g);
    let i = || input(w, 0, false);
    let s = DynState::default;
    let mut v = vec![
        ("parse", out(b().parse(i()))),
        ("easy_parse", out(build::<easy::Stream<MaybePartialStream<B>>>(g).easy_parse(base(w, 0, false)))),
        ("parse_with_state", out(b().parse_with_state(&mut i(), &mut s()).map(|v| (v, ())))),
        ("parse_stream_partial", out(flat(b().parse_stream_partial(&mut i(), &mut s())))),
        ("parse_committed_mode", out(flat(b().parse_committed_mode(FirstMode, &mut i(), &mut s())))),
        ("parse_committed_mode, resuming", out(flat(b().parse_committed_mode(combine::parser::PartialMode::default(), &mut i(), &mut s())))),
        ("&mut parser", out((&mut b()).parse(i()))),
        ("&mut &mut parser, partially", out(flat((&mut &mut b()).parse_stream_partial(&mut i(), &mut s())))),
        ("Box<parser>", out(Box::new(b()).parse(i()))),
        ("Box<dyn Parser>", out((Box::new(b()) as Box<dyn Parser<I, Output = Val, PartialState = DynState>>).parse(i()))),
        ("parse_lazy and add_error", out(flat(completed(&mut b(), i(), |p, i| p.parse_lazy(i))))),
        ("parse_first and add_error", out(flat(completed(&mut b(), i(), |p, i| p.parse_first(i, &mut s()))))),
        ("parse_partial and add_error", out(flat(completed(&mut b(), i(), |p, i| p.parse_partial(i, &mut s()))))),
        ("over a state stream", {
            type S = state::Stream<easy::Stream<MaybePartialStream<B>>, u8>;
            out(build::<S>(g).parse(state::Stream { stream: input(w, 0, false), state: 0u8 }))
        }),
        ("easy over a state stream", {
            type S = easy::Stream<state::Stream<MaybePartialStream<B>, u8>>;
            out(build::<S>(g).parse(easy::Stream(state::Stream { stream: base(w, 0, false), state: 0u8 })))
        }),
        ("by mutable reference to the stream", {
            let i: &'static mut I = Box::leak(Box::new(i()));
            out(build::<&'static mut I>(g).parse(i))
        }),
        ("position within text", {
            type S = easy::Stream<&'static str>;
            match build::<S>(g).parse(easy::Stream(w)) {
                Ok((v, _)) => Out::Ok(v),
                Err(e) => report(&e.map_position(|p| p.translate_position(w))),
            }
        }),
    ];
    let mut it = b();
    let (mut i1, mut s1) = (i(), s());
    let mut it = it.by_ref().partial_iter(FirstMode, &mut i1, &mut s1);
    match it.next() {
        Some(x) => v.push(("partial_iter", Out::Ok(x))),
        None => {
            // an uncommitted failure only ends the iteration
            if let Err(e) = it.into_result(Val::U) {
                v.push(("partial_iter", report(&e.into_inner().error)))
            }
        }
    }
    v
}

/// The whole of the input by `decode`, which reports its end itself.
fn dec(g: &Arc<G>, w: &'static str) -> Out {
    let mut i = input(w, 0, false);
    match decode(build::<I>(g), &mut i, &mut DynState::default()) {
        Ok((Some(v), _)) => Out::Ok(v),
        Ok((None, _)) => unreachable!("more input"),
        Err(e) => report(&e),
    }
}
fn chunks(g: &Arc<G>, w: &'static str, cuts: &[usize], calls: &mut u64) -> Out {
    let mut at = 0;
    let mut state = DynState::default();
    for &c in cuts {
        *calls += 1;
        let mut i = input(&w[at..c], at, true);
        match decode(build::<I>(g), &mut i, &mut state) {
            Ok((Some(v), _)) => return Out::Ok(v),
            Ok((None, n)) => at += n,
            Err(e) => return report(&e),
        }
    }
    *calls += 1;
    let mut i = input(&w[at..], at, false);
    match decode(build::<I>(g), &mut i, &mut state) {
        Ok((Some(v), _)) => Out::Ok(v),
        Ok((None, _)) => Out::Err { at: 99, facts: vec![] },
        Err(e) => report(&e),
    }
}
fn expected(o: &Out) -> (usize, BTreeSet<&String>) {
    match o {
        Out::Ok(_) => (usize::MAX, BTreeSet::new()),
        Out::Err { at, facts } => (*at, facts.iter().filter(|f| f.starts_with("Expected") || f.starts_with("Message")).collect()),
    }
}

fn refusal(o: &Out) -> bool {
    matches!(o, Out::Err { facts, .. } if facts.iter().any(|f| f.contains("refused") || f.contains("invalid digit") || f.contains("cannot parse")))
}

fn instances(c: &mut Ctx) {
    let l: Vec<(&str, &'static str, usize)> = vec![
        ("(AndThen (Many 'a))", "a", 1),
        ("(AndThen (Seq 'b 'a))", "ba", 1),
        ("(FromStr (Seq 'b 'a))", "ba", 1),
        ("(Seq 'b 'a)", "bb", 1),
        ("(Tokens bb)", "ba", 1),
        ("(Attempt (Seq 'b 'a))", "bb", 1),
    ];
    c.sweep("refused values, instances", &l, |x| format!("{} {:?} cut at {}", x.0, x.1, x.2), |k: &mut W, (g, w, cut)| {
        let g = Arc::new(G::parse(g).unwrap());
        let bad = |m| viol("panic", m);
        let a = no_panic(|| within(&g, w)).map_err(bad)?;
        let b = no_panic(|| chunks(&g, w, &[*cut], &mut k.transitions)).map_err(bad)?;
        k.states += 1;
        k.traces += 2;
        if expected(&a) != expected(&b) {
            return Err(viol("position", format!("whole gives {:?}, cut {:?}", a, b)));
        }
        Ok(())
    })
}

/// The report of `parse_stream` for a parser with something around it which only passes everything on.
fn within(g: &Arc<G>, w: &'static str) -> Out {
    out(flat(build::<I>(g).map(|v| v).parse_stream(&mut input(w, 0, false))))
}
/// Known findings: what `parse_stream` says of a parser which is an `attempt` lacks what all the other entry
/// points add, the token at its start and what the parser could have started with; of a `factory` in `lazy` or `opaque`,
/// only `parse_stream` says what was expected.
fn started(k: &mut W, g: &Arc<G>, w: &'static str, want: &Out, got: &Out) -> bool {
    fn top(g: &G, lazy: bool) -> Option<U> {
        match g {
            G::U(U::Attempt, _) => Some(U::Attempt),
            G::U(U::Factory, _) if lazy => Some(U::Factory),
            // these pass `parse_stream` on
            G::U(u @ (U::Lazy | U::Opaque | U::Boxed | U::ByRef | U::Spanned), x) => top(x, lazy || matches!(u, U::Lazy | U::Opaque)),
            _ => None,
        }
    }
    let top = top(g, false);
    if top.is_none() {
        return false;
    }
    k.transitions += 1;
    let full = within(g, w);
    match (want, &full) {
        (Out::Err { at, facts }, Out::Err { at: a, facts: f }) => {
            at == a && *got == full && if top == Some(U::Attempt) { f.starts_with(facts) } else { facts.starts_with(f) }
        }
        _ => false,
    }
}
fn started_instances(c: &mut Ctx) {
    let l: Vec<(&str, &'static str)> = vec![
        ("(Attempt (Seq 'b 'a))", "bb"),
        ("(Lazy (Factory 'a))", "b"),
        ("(Seq 'b 'a)", "bb"),
        ("(Attempt 'a)", "b"),
        ("(Lazy 'a)", "b"),
        ("(Factory 'a)", "b"),
    ];
    c.sweep("started directly, instances", &l, |x| format!("{} {:?}", x.0, x.1), |k: &mut W, (g, w)| {
        let g = Arc::new(G::parse(g).unwrap());
        let a = no_panic(|| out(flat(build::<I>(&g).parse_stream(&mut input(w, 0, false))))).map_err(|m| viol("panic", m))?;
        let b = no_panic(|| dec(&g, w)).map_err(|m| viol("panic", m))?;
        k.states += 1;
        k.traces += 2;
        if a != b {
            return Err(viol("facts", format!("parse_stream gives {:?}, decode {:?}", a, b)));
        }
        Ok(())
    })
}

fn sweep(c: &mut Ctx, name: &str, gs: &[Arc<G>], words: &[&'static str], chunked: bool) {
    c.sweep(name, gs, |g| format!("{:?}", g), |k: &mut W, g| {
        for w in words {
            let bad = |n: &str, d: String| viol(format!("{:?} {}", w, n), format!("input {:?}, {}: {}", w, n, d));
            let want = no_panic(|| out(flat(build::<I>(g).parse_stream(&mut input(w, 0, false))))).map_err(|m| bad("parse_stream", m))?;
            for (n, got) in no_panic(|| starts(g, w)).map_err(|m| bad("entry points", m))? {
                k.transitions += 1;
                k.traces += 1;
                if got != want && !started(k, g, w, &want, &got) {
                    return Err(bad(n, format!("parse_stream gives {:?}, this {:?}", want, got)));
                }
            }
            let got = no_panic(|| dec(g, w)).map_err(|m| bad("decode", m))?;
            if got != want && !started(k, g, w, &want, &got) {
                return Err(bad("decode", format!("parse_stream gives {:?}, this {:?}", want, got)));
            }
            k.states += 1;
            k.outcome(if let Out::Ok(..) = want { "success" } else { "report" });
            if chunked {
                let want = no_panic(|| within(g, w)).map_err(|m| bad("parse_stream", m))?;
                for cuts in all_cuts(w) {
                    if cuts.is_empty() {
                        continue;
                    }
                    let got = no_panic(|| chunks(g, w, &cuts, &mut k.transitions)).map_err(|m| bad("chunks", m))?;
                    k.traces += 1;
                    let (a, b) = (expected(&got), expected(&want));
                    // A value which and_then or from_str refuses after a suspension is reported where the
                    // last piece starts and not where the value does (known finding).
                    let refused = a.1 == b.1 && a.0 > b.0 && a.0 <= w.len() && refusal(&got) && g.any_node(&|n| matches!(n, G::U(U::AndThen | U::FromStr, _)));
                    if a != b && !refused {
                        return Err(bad(&format!("{:?}", cuts), format!("whole gives {:?}, cut {:?}", want, got)));
                    }
                }
            }
        }
        Ok(())
    })
}

fn run_prop(prop: &str, c: &mut Ctx) {
    let q = c.quick();
    match prop {
        "P22" => {
            instances(c);
            started_instances(c);
            let l3: Vec<_> = upto(&all(), 3, |_| true);
            sweep(c, "all operators and leaves, size <= 3", &l3, &words("ab", if q { 3 } else { 4 }), false);
            sweep(c, "all operators and leaves, size <= 2, chunked", &upto(&all(), 2, |_| true), &words("abc", 4), true);
            sweep(c, "all operators and leaves, size <= 3, chunked", &l3, &words("ab", if q { 3 } else { 5 }), true);
            use mc_core::gram::{B::*, T::*, U::*};
            let red = space(
                "'a|'b|(Str ab)|Unexpected|(TakeWhile b)|Eof|Value",
                &[Attempt, LookAhead, Not, Optional, Many, SkipMany1, Count2, Iterate2, Expected, Message, Silent],
                &[Seq, Or, SepBy, SepEndBy1, ChainL1, RepeatUntil, ChoiceSlice2, Skip],
                &[Choice3, Struct3, Seq3, Then, ThenPartial],
            );
            sweep(c, "core operators, size 4", &exactly(&red, 4, |_| true), &words("ab", if q { 3 } else { 4 }), true);
            sweep(c, "core operators, size 5", &exactly(&red, 5, |_| true), &words("ab", if q { 2 } else { 4 }), true);
            sweep(c, "every operator over all kinds of parts, in all places", &framed(&level(PARTS, U::ALL, mc_core::gram::B::ALL, T::ALL), FRAMES, |_| true), &words("abc", if q { 3 } else { 4 }), true);
            sweep(c, "every operator over all kinds of slices, in all places", &framed(&level(RANGE_PARTS, U::ALL, mc_core::gram::B::ALL, T::ALL), FRAMES, |_| true), &words("abc", if q { 3 } else { 4 }), true);
            if !q {
                let words3 = words("abc", 4);
                sweep(c, "all operators and leaves, size <= 3, chunked, words over abc", &l3, &words3, true);
                let small = space("'a|'b|Unexpected|Value", &[Attempt, Optional, Many, Count2, Expected], &[Seq, Or, SepBy1, RepeatUntil], &[Choice3, Then]);
                sweep(c, "few operators, size 6", &exactly(&small, 6, |_| true), &words("ab", 3), true);
            }
        }
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    mc_rt::main(run_prop)
}
