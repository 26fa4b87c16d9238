//! P23: spans of errors.
use combine::easy;
use combine::error::ParseResult::{self, *};
use combine::parser::choice::{optional, or};
use combine::parser::combinator::{attempt, spanned};
use combine::parser::repeat::many;
use combine::parser::token::token;
use combine::stream::position::{self, IndexPositioner};
use combine::stream::span::{self, Span};
use combine::stream::{MaybePartialStream, Positioned};
use combine::Parser;
use mc_core::gram::*;
use mc_core::partial::all_cuts;
use mc_core::real::{build, d, DynState, D};
use mc_core::spaces::*;
use mc_core::val::Val;
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, W};
use std::collections::BTreeSet;
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

type B = position::Stream<&'static str, IndexPositioner>;
type E = easy::Errors<char, &'static str, Span<usize>>;
type I = span::Stream<easy::Stream<MaybePartialStream<B>>, E>;

fn input(w: &'static str, at: usize, partial: bool) -> I {
    span::Stream::from(easy::Stream(MaybePartialStream(position::Stream::with_positioner(w, IndexPositioner::new_with_position(at)), partial)))
}

/// How a parse ended: the value or the facts of the error, with its span, and where the input stands.
#[derive(Clone, PartialEq, Eq, Debug)]
enum Out {
    Ok(Val, bool, usize),
    Err { com: bool, facts: BTreeSet<String>, span: Span<usize>, stand: usize },
}
fn facts(e: &E) -> BTreeSet<String> {
    e.errors.iter().map(|x| format!("{:?}", x)).collect()
}
fn out(r: ParseResult<Val, E>, stand: usize) -> Out {
    let err = |e: E, com| Out::Err { com, facts: facts(&e), span: e.position, stand };
    match r {
        CommitOk(v) => Out::Ok(v, true, stand),
        PeekOk(v) => Out::Ok(v, false, stand),
        CommitErr(e) => err(e, true),
        PeekErr(e) => err(e.error, false),
    }
}
fn whole(p: &mut D<I>, w: &'static str) -> Result<Out, String> {
    no_panic(|| {
        let mut i = input(w, 0, false);
        let r = p.parse_stream(&mut i);
        let stand = i.position().start;
        out(r, stand)
    })
}
/// Where the input stands right after `p` failed on `w`, before anyone looks at the failure.
fn stand(p: &mut D<I>, w: &'static str) -> Result<usize, String> {
    no_panic(|| {
        let mut i = input(w, 0, false);
        let _ = p.parse_first(&mut i, &mut DynState::default());
        i.position().start
    })
}
fn cut(p: &mut D<I>, w: &'static str, cuts: &[usize], calls: &mut u64) -> Result<Out, String> {
    no_panic(|| {
        let mut state = DynState::default();
        let mut at = 0;
        for (k, c) in cuts.iter().copied().chain(Some(w.len())).enumerate() {
            let partial = k < cuts.len();
            let mut i = input(&w[at..c], at, partial);
            *calls += 1;
            let r = p.parse_stream_partial(&mut i, &mut state);
            let stand = i.position().start;
            use combine::error::ParseError;
            let more = partial && match &r {
                CommitErr(e) => e.is_unexpected_end_of_input(),
                PeekErr(e) => e.error.is_unexpected_end_of_input(),
                _ => false,
            };
            if !more {
                return out(r, stand);
            }
            at = stand;
        }
        unreachable!()
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Form {
    Whole,
    After,
    Nested,
    Twice,
    Items,
    Before,
    Between,
    Perhaps,
    Alternative,
}
const FORMS: [Form; 9] = [Form::Whole, Form::After, Form::Nested, Form::Twice, Form::Items, Form::Before, Form::Between, Form::Perhaps, Form::Alternative];
/// The form with and without the spans.
fn make(f: Form, g: &Arc<G>, spans: bool) -> D<I> {
    // (`map` in place of `spanned`, as a parser which is itself an `attempt` reports less if started directly: P22)
    let p = || if spans { d(spanned(build::<I>(g))) } else { d(build::<I>(g).map(|v| v)) };
    let o = |p: D<I>| if spans { d(spanned(p)) } else { d(p.map(|v| v)) };
    let a = || token('a').map(Val::C);
    match f {
        Form::Whole => p(),
        Form::After => d((a(), p()).map(|(a, b)| Val::pair(a, b))),
        Form::Nested => o(d((a(), p()).map(|(a, b)| Val::pair(a, b)))),
        Form::Twice => o(p()),
        Form::Items => d(many::<Vec<_>, _, _>(p()).map(Val::L)),
        Form::Before => d((p(), token('c')).map(|(a, _)| a)),
        Form::Between => d((a(), p(), token('c')).map(|(a, b, _)| Val::pair(a, b))),
        Form::Perhaps => d((optional(p()), token('c')).map(|(a, _)| Val::O(a.map(Box::new)))),
        Form::Alternative => {
            let p = d(attempt(build::<I>(g)));
            o(d(or(o(p), token('c').map(Val::C))))
        }
    }
}

fn sweep(c: &mut Ctx, name: &str, gs: &[Arc<G>], words: &[&'static str], chunks: bool) {
    c.sweep(name, gs, |g| format!("{:?}", g), |k: &mut W, g| {
        for f in FORMS {
            if f == Form::Items && g.nullable() {
                continue;
            }
            for w in words {
                let bad = |d: String| viol(format!("{:?} {:?}", f, w), format!("{:?} on {:?}: {}", f, w, d));
                let plain = whole(&mut make(f, g, false), w).map_err(&bad)?;
                // where the innermost spanned parser which failed had started
                let start = match f {
                    Form::Whole | Form::Twice | Form::Before | Form::Perhaps | Form::Alternative => 0,
                    Form::After | Form::Nested | Form::Between => w.starts_with('a') as usize,
                    Form::Items => {
                        let mut at = 0;
                        loop {
                            match whole(&mut build::<I>(g), &w[at..]).map_err(&bad)? {
                                Out::Ok(_, _, e) => at += e,
                                Out::Err { .. } => break at,
                            }
                        }
                    }
                };
                let want = match plain.clone() {
                    Out::Err { com, facts, span, stand } => {
                        // 'a' itself is only spanned in one of the forms, 'c' in none
                        let inside = match f {
                            Form::After => w.starts_with('a'),
                            // the part after it may be what failed
                            Form::Before | Form::Perhaps | Form::Between => {
                                let alone = whole(&mut d(build::<I>(g).map(|v| v)), &w[start..]).map_err(&bad)?;
                                match alone {
                                    Out::Ok(..) => false,
                                    Out::Err { com, .. } => (f != Form::Between || w.starts_with('a')) && (f != Form::Perhaps || com),
                                }
                            }
                            _ => true,
                        };
                        let mut s = span;
                        let inner = match f {
                            Form::Nested if !w.starts_with('a') => s.start,
                            _ => start + self::stand(&mut build::<I>(g), &w[start..]).map_err(&bad)?,
                        };
                        if inside {
                            s = Span { start, end: inner };
                        }
                        if f == Form::Nested && s.start == s.end {
                            s = Span { start: 0, end: self::stand(&mut make(f, g, false), w).map_err(&bad)? };
                        }
                        let span = s;
                        Out::Err { com, facts, span, stand }
                    }
                    ok => ok,
                };
                k.transitions += 2;
                let got = whole(&mut make(f, g, true), w).map_err(&bad)?;
                if let (Form::Alternative, Out::Err { com, stand, .. }) = (f, &plain) {
                    // the part which got on decides, wherever the other alternative and the part around them stand
                    // (which facts it is merged with depends on the spans)
                    let n = self::stand(&mut d(attempt(build::<I>(g))), w).map_err(&bad)?;
                    match &got {
                        Out::Err { com: c, stand: t, span, .. } if c == com && t == stand && span.start == 0 && (n == 0 || span.end == n) => {
                            k.states += 1;
                            k.traces += 1;
                            continue;
                        }
                        _ => return Err(bad(format!("the first alternative stands at {} when it fails; without spans {:?}, got {:?}", n, plain, got))),
                    }
                }
                if got != want {
                    return Err(bad(format!("without spans {:?}, want {:?}, got {:?}", plain, want, got)));
                }
                k.states += 1;
                k.traces += 1;
                k.outcome(if let Out::Ok(..) = want { "success" } else { "span of an error" });
                // (followed by another part only for small parsers, as that part has no span)
                if chunks && (g.size() <= 2 || !matches!(f, Form::Before | Form::Between | Form::Perhaps | Form::Alternative)) {
                    for cuts in all_cuts(w) {
                        let plain = cut(&mut make(f, g, false), w, &cuts, &mut k.transitions).map_err(&bad)?;
                        let got = cut(&mut make(f, g, true), w, &cuts, &mut k.transitions).map_err(&bad)?;
                        k.traces += 1;
                        let same = match (&want, &plain, &got) {
                            (Out::Ok(v, _, e), _, Out::Ok(v2, _, e2)) => v == v2 && e == e2,
                            // (how far a failed parse has read on, the end of the span, depends on the pieces)
                            (Out::Err { span: whole, .. }, Out::Err { facts, stand, .. }, Out::Err { facts: f2, span: s2, stand: n2, .. }) => {
                                let starts = whole.start == s2.start || f == Form::Nested && (s2.start == start || s2.start == 0);
                                facts == f2 && stand == n2 && starts && s2.start <= s2.end && s2.end <= w.len()
                            }
                            _ => false,
                        };
                        if !same {
                            return Err(viol(format!("{:?} {:?} {:?}", f, w, cuts), format!("{:?} on {:?} cut at {:?}: the whole input gives {:?}, without spans {:?}, got {:?}", f, w, cuts, want, plain, got)));
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

fn run_prop(prop: &str, c: &mut Ctx) {
    let q = c.quick();
    match prop {
        "P23" => {
            let w4 = words("ab", 4);
            let l3: Vec<_> = upto(&all(), 3, |_| true);
            sweep(c, "all operators and leaves, size <= 3", &l3, &w4, false);
            sweep(c, "all operators and leaves, size <= 2, chunked", &upto(&all(), 2, |_| true), &w4, true);
            let w = words("ab", if q { 3 } else { 4 });
            sweep(c, "all operators and leaves, size <= 3, chunked", &l3, &w, true);
            let f = framed(&level(PARTS, U::ALL, mc_core::gram::B::ALL, T::ALL), FRAMES, |_| true);
            sweep(c, "every operator over all kinds of parts, in all places", &f, &words("abc", 4), false);
            sweep(c, "every operator over all kinds of parts, in all places, chunked", &f, &words(if q { "ab" } else { "abc" }, 3), true);
            if !q {
                use mc_core::gram::{B::*, T::*, U::*};
                let core_space = space(
                    "'a|(Str ab)|Unexpected|(Take 2)|Eof",
                    &[Attempt, LookAhead, Not, Optional, Many, SkipMany1, Count2, Iterate2, Expected, Recognize],
                    &[Seq, Or, SepBy, SepEndBy1, ChainL1, RepeatUntil],
                    &[Choice3, Struct3],
                );
                sweep(c, "all operators and leaves, size <= 3, words over abc", &l3, &words("abc", 5), false);
                sweep(c, "core operators and leaves, size <= 4", &upto(&core_space, 4, |_| true), &words("ab", 4), true);
            }
        }
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    mc_rt::main(run_prop)
}
