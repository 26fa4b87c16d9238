//! Builds the real combine parser for a term.
//!
//! Every node is the library's own combinator; nodes are glued together by `D`, a transparent
//! dynamic wrapper which forwards every method of `Parser` and embeds the child's partial state.
use std::any::Any;
use std::sync::Arc;

use combine::error::{ParseError, ParseResult, StreamError, Tracked};
use combine::choice;
use combine::parser::choice::{optional, or};
use combine::parser::combinator::*;
use combine::parser::function::parser;
use combine::parser::repeat::*;
use combine::parser::sequence::{between, skip, then, then_partial, then_ref, with};
use combine::parser::token as tk;
use combine::parser::{FirstMode, ParseMode, PartialMode};
use combine::parser::{byte, char as pc, error as pe, range as pr};
use combine::stream::{RangeStream, StreamErrorFor, StreamOnce};
use combine::{ErrorOffset, Parser, StdParseResult};

use crate::acts::{self, act};
use crate::gram::{B, G, T, U};
use crate::refsem::{cs, pick, ESCAPE};
use crate::val::Val;

#[derive(Default)]
pub struct DynState(Option<Box<dyn Any>>);

impl DynState {
    /// A parser started afresh finds whatever an earlier parser of another kind left behind (the
    /// alternatives of an array `choice` share one state).
    fn fresh<S: Default + 'static>(&mut self) -> &mut S {
        if self.0.as_ref().map_or(false, |b| !b.is::<S>()) {
            self.0 = None;
        }
        self.get()
    }
    fn get<S: Default + 'static>(&mut self) -> &mut S {
        self.0
            .get_or_insert_with(|| Box::new(S::default()))
            .downcast_mut::<S>()
            .expect("partial state of another type")
    }
}

pub trait In: RangeStream<Token = char, Range = &'static str> + 'static {}
impl<I> In for I where I: RangeStream<Token = char, Range = &'static str> + 'static {}

trait Obj<I: In> {
    fn first(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error>;
    fn partial(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error>;
    fn lazy(&mut self, i: &mut I) -> ParseResult<Val, I::Error>;
    fn adderr(&mut self, e: &mut Tracked<I::Error>);
    fn addcom(&mut self, e: &mut Tracked<I::Error>);
    fn cnt(&self) -> ErrorOffset;
    fn stream(&mut self, i: &mut I) -> ParseResult<Val, I::Error>;
    fn stream_partial(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error>;
    fn committed(&mut self, first: bool, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error>;
}

struct W<P>(P);
impl<I: In, P> Obj<I> for W<P>
where
    P: Parser<I, Output = Val>,
    P::PartialState: 'static,
{
    fn first(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.parse_first(i, s.fresh())
    }
    fn partial(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.parse_partial(i, s.get())
    }
    fn lazy(&mut self, i: &mut I) -> ParseResult<Val, I::Error> {
        self.0.parse_lazy(i)
    }
    fn adderr(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn addcom(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn cnt(&self) -> ErrorOffset {
        self.0.parser_count()
    }
    fn stream(&mut self, i: &mut I) -> ParseResult<Val, I::Error> {
        self.0.parse_stream(i)
    }
    fn stream_partial(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.parse_stream_partial(i, s.get())
    }
    fn committed(&mut self, first: bool, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        if first {
            self.0.parse_committed_mode(FirstMode, i, s.fresh())
        } else {
            self.0.parse_committed_mode(PartialMode::default(), i, s.get())
        }
    }
}

pub struct D<I>(Box<dyn Obj<I>>);

impl<I: In> Parser<I> for D<I> {
    type Output = Val;
    type PartialState = DynState;
    fn parse_lazy(&mut self, i: &mut I) -> ParseResult<Val, I::Error> {
        self.0.lazy(i)
    }
    fn parse_first(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.first(i, s)
    }
    fn parse_partial(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.partial(i, s)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.adderr(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.addcom(e)
    }
    fn parser_count(&self) -> ErrorOffset {
        self.0.cnt()
    }
    fn parse_stream(&mut self, i: &mut I) -> ParseResult<Val, I::Error> {
        self.0.stream(i)
    }
    fn parse_stream_partial(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.stream_partial(i, s)
    }
    fn parse_committed_mode<M: ParseMode>(&mut self, mode: M, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.committed(mode.is_first(), i, s)
    }
}

pub fn d<I: In, P>(p: P) -> D<I>
where
    P: Parser<I, Output = Val> + 'static,
    P::PartialState: 'static,
{
    D(Box::new(W(p)))
}

/// `choice(&mut [..])`: the slice form borrows, so it is rebuilt around an owned vector per call.
pub struct SliceChoice<I>(pub Vec<D<I>>);
impl<I: In> Parser<I> for SliceChoice<I> {
    type Output = Val;
    type PartialState = <combine::parser::choice::Choice<&'static mut [D<I>]> as Parser<I>>::PartialState;
    fn parse_first(&mut self, i: &mut I, s: &mut Self::PartialState) -> ParseResult<Val, I::Error> {
        choice(&mut self.0[..]).parse_first(i, s)
    }
    fn parse_partial(&mut self, i: &mut I, s: &mut Self::PartialState) -> ParseResult<Val, I::Error> {
        choice(&mut self.0[..]).parse_partial(i, s)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        Parser::<I>::add_error(&mut choice(&mut self.0[..]), e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        Parser::<I>::add_committed_expected_error(&mut choice(&mut self.0[..]), e)
    }
}

#[derive(Debug)]
pub struct Shown(String);
impl std::str::FromStr for Shown {
    type Err = String;
    fn from_str(s: &str) -> Result<Shown, String> {
        // the predicate is encoded by the producer as a prefix
        match s.strip_prefix("!") {
            Some(_) => Err("refused".into()),
            None => Ok(Shown(s.to_string())),
        }
    }
}

struct S2 {
    a: Val,
    b: Val,
}
struct S3 {
    a: Val,
    b: Val,
    c: Val,
}

combine::parser! {
    type PartialState = <(P, Q) as Parser<Input>>::PartialState;
    fn macro_seq[Input, P, Q](p: P, q: Q)(Input) -> (P::Output, Q::Output)
    where [ P: Parser<Input>, Q: Parser<Input> ]
    {
        (p, q)
    }
}

fn s(x: &'static str) -> Val {
    Val::S(x.to_string())
}

pub fn build<I: In>(g: &Arc<G>) -> D<I> {
    match &**g {
        G::Tok(c) => d(pc::char(*c).map(Val::C)),
        G::Any => d(tk::any().map(Val::C)),
        G::Satisfy(x) => {
            let x = *x;
            d(tk::satisfy(move |c| cs(x, c)).map(Val::C))
        }
        G::SatisfyMap(x) => {
            let x = *x;
            d(tk::satisfy_map(move |c| if cs(x, c) { Some(Val::L(vec![Val::C(c)])) } else { None }))
        }
        G::OneOf(x) => d(tk::one_of(x.chars()).map(Val::C)),
        G::NoneOf(x) => d(tk::none_of(x.chars()).map(Val::C)),
        G::Tokens(x) => {
            let x = *x;
            d(tk::tokens(|a: char, b: char| a == b, x, x.chars()).map(move |_| s(x)))
        }
        G::TokensCmp(x) => {
            let x = *x;
            d(tk::tokens_cmp(x.chars(), |a: char, b: char| a == b).map(move |_| s(x)))
        }
        G::Str(x) => d(pc::string(x).map(s)),
        G::StrCmp(x) => d(pc::string_cmp(x, |a, b| a == b).map(s)),
        G::Range(x) => d(pr::range(*x).map(s)),
        G::Take(n) => d(pr::take(*n).map(s)),
        G::TakeWhile(x) => {
            let x = *x;
            d(pr::take_while(move |c| cs(x, c)).map(s))
        }
        G::TakeWhile1(x) => {
            let x = *x;
            d(pr::take_while1(move |c| cs(x, c)).map(s))
        }
        G::TakeUntilRange(x) => d(pr::take_until_range(*x).map(s)),
        G::TakeFn(x) => {
            let x = *x;
            d(pr::take_fn(move |r: &'static str| r.find(|c| cs(x, c))).map(s))
        }
        G::TakeUntilByte(x) => {
            let b = x.as_bytes();
            match b.len() {
                1 => d(byte::take_until_byte(b[0]).map(s)),
                2 => d(byte::take_until_byte2(b[0], b[1]).map(s)),
                _ => d(byte::take_until_byte3(b[0], b[1], b[2]).map(s)),
            }
        }
        G::TakeUntilBytes(x) => d(byte::take_until_bytes(x.as_bytes()).map(s)),
        G::Eof => d(tk::eof().map(|_| Val::U)),
        G::Value => d(tk::value(Val::N(7))),
        G::Produce => d(tk::produce(|| Val::N(8))),
        G::Unexpected => d(pe::unexpected("never").map(|_| Val::U)),
        G::FnParser(c) => {
            // the three ways to make a parser of a function
            fn in_env<I: In>(c: char, i: &mut I) -> StdParseResult<char, I> {
                tk::token(c).parse_stream(i).into_result()
            }
            fn alone<I: In>(i: &mut I) -> StdParseResult<char, I> {
                tk::token('c').parse_stream(i).into_result()
            }
            let c = *c;
            if c == 'b' {
                return d(combine::parser::function::env_parser(c, in_env::<I>).map(Val::C));
            }
            if c == 'c' {
                return d((alone as fn(&mut I) -> StdParseResult<char, I>).map(Val::C));
            }
            d(parser(move |i: &mut I| tk::token(c).parse_stream(i).into_result()).map(Val::C))
        }
        G::Rule(i) => crate::rules::call(*i),
        G::U(u, a) => unary(*u, a),
        G::B(b, x, y) => binary(*b, x, y),
        G::T(t, x, y, z) => ternary(*t, x, y, z),
    }
}

fn unary<I: In>(u: U, a: &Arc<G>) -> D<I> {
    use U::*;
    let p = acts::inside(acts::retried(u), || build::<I>(a));
    let n = acts::inside(acts::retried(u), acts::depth);
    match u {
        Attempt => d(attempt(p)),
        LookAhead => d(look_ahead(p)),
        Not => d(not_followed_by(p.map(|_| tk_str())).map(|_| Val::U)),
        Optional => d(optional(p).map(|o| Val::O(o.map(Box::new)))),
        Many => d(many::<Vec<_>, _, _>(p).map(Val::L)),
        Many1 => d(many1::<Vec<_>, _, _>(p).map(Val::L)),
        SkipMany => d(skip_many(p).map(|_| Val::U)),
        SkipMany1 => d(skip_many1(p).map(|_| Val::U)),
        Count0 => d(count::<Vec<_>, _, _>(0, p).map(Val::L)),
        Count1 => d(count::<Vec<_>, _, _>(1, p).map(Val::L)),
        Count2 => d(count::<Vec<_>, _, _>(2, p).map(Val::L)),
        SkipCount2 => d(skip_count(2, p).map(|_| Val::U)),
        CountMinMax02 => d(count_min_max::<Vec<_>, _, _>(0, 2, p).map(Val::L)),
        CountMinMax12 => d(count_min_max::<Vec<_>, _, _>(1, 2, p).map(Val::L)),
        CountMinMax22 => d(count_min_max::<Vec<_>, _, _>(2, 2, p).map(Val::L)),
        CountMinMax23 => d(count_min_max::<Vec<_>, _, _>(2, 3, p).map(Val::L)),
        SkipCountMinMax12 => d(skip_count_min_max(1, 2, p).map(|_| Val::U)),
        SkipCountMinMax23 => d(skip_count_min_max(2, 3, p).map(|_| Val::U)),
        Recognize => d(recognize::<String, _, _>(p).map(Val::S)),
        RangeRecognize => d(pr::recognize(p).map(s)),
        RecognizeWithValue => d(pr::recognize_with_value(p).map(|(r, v)| Val::pair(s(r), v))),
        TakeUntil => d(take_until::<String, _, _>(p).map(Val::S)),
        SkipUntil => d(skip_until(p).map(|_| Val::U)),
        Map => d(p.map(move |v| {
            act(n, "map", &v);
            Val::L(vec![v])
        })),
        MapInput => d(p.map_input(move |v, _: &mut I| {
            act(n, "map_input", &v);
            Val::L(vec![v])
        })),
        AndThen => d(p.and_then(move |v| {
            act(n, "and_then", &v);
            if pick(&v) {
                Err(StreamErrorFor::<I>::unexpected_static_message("refused"))
            } else {
                Ok(Val::L(vec![v]))
            }
        })),
        FlatMap => d((tk::position(), p).flat_map(move |(pos, v)| {
            act(n, "flat_map", &v);
            if pick(&v) {
                Err(<I as StreamOnce>::Error::from_error(
                    pos,
                    StreamErrorFor::<I>::unexpected_static_message("refused"),
                ))
            } else {
                Ok(Val::L(vec![v]))
            }
        })),
        Expected => d(p.expected("label")),
        Message => d(p.message("note")),
        Silent => d(p.silent()),
        Ignore => d(ignore(p).map(|_| Val::U)),
        NoPartial => d(no_partial(p)),
        Lazy => {
            let a = a.clone();
            d(lazy(move || acts::at(n, || build::<I>(&a))))
        }
        Factory => {
            let a = a.clone();
            d(factory(move |_: &mut I| acts::at(n, || build::<I>(&a))))
        }
        Opaque => {
            let a = a.clone();
            d(opaque::<I, _, Val, DynState>(
                move |f: &mut dyn FnMut(&mut dyn Parser<I, Output = Val, PartialState = DynState>)| f(&mut acts::at(n, || build::<I>(&a))),
            ))
        }
        AnyState => d(any_partial_state(p)),
        // the `Send` flavours need `Send` state, which a leaf's state is
        AnySendState => d(any_send_partial_state(no_state(p))),
        AnySendSyncState => d(any_send_sync_partial_state(no_state(p))),
        Boxed => d(p.boxed()),
        ByRef => {
            struct R<I>(D<I>);
            impl<I: In> Parser<I> for R<I> {
                type Output = Val;
                type PartialState = DynState;
                fn parse_first(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
                    self.0.by_ref().parse_first(i, s)
                }
                fn parse_partial(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
                    self.0.by_ref().parse_partial(i, s)
                }
                fn parse_lazy(&mut self, i: &mut I) -> ParseResult<Val, I::Error> {
                    self.0.by_ref().parse_lazy(i)
                }
                fn add_error(&mut self, e: &mut Tracked<I::Error>) {
                    (&mut self.0).add_error(e)
                }
                fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
                    (&mut self.0).add_committed_expected_error(e)
                }
            }
            d(R(p))
        }
        LeftEither => d(p.left::<D<I>>()),
        RightEither => d(p.right::<D<I>>()),
        Spanned => p,
        Iterate2 => {
            let a = a.clone();
            d(iterate::<Vec<_>, _, _, _, _>(0..2, move |_: &i32, _: &mut I| acts::at(n, || build::<I>(&a))).map(Val::L))
        }
        Iter => {
            let mut p = p;
            d(parser(move |i: &mut I| {
                let mut it = p.by_ref().iter(i);
                let l: Vec<Val> = it.by_ref().collect();
                it.into_result(Val::L(l))
            }))
        }
        FromStr => d(from_str(
            p.map(move |v| {
                act(n, "from_str", &v);
                format!("{}{:?}", if pick(&v) { "!" } else { "" }, v)
            }),
        )
        .map(|x: Shown| Val::S(x.0))),
        LengthPrefix => d(pr::length_prefix(p.map(move |v| {
            act(n, "length", &v);
            if pick(&v) { 1u8 } else { 2u8 }
        })).map(s)),
    }
}

fn tk_str() -> &'static str {
    "it"
}

/// Hides the (non-`Send`) dynamic state of `p` behind a stateless, restartable parser.
fn no_state<I: In>(p: D<I>) -> NoState<I> {
    NoState(p)
}
struct NoState<I>(D<I>);
impl<I: In> Parser<I> for NoState<I> {
    type Output = Val;
    type PartialState = ();
    fn parse_lazy(&mut self, i: &mut I) -> ParseResult<Val, I::Error> {
        let before = i.checkpoint();
        let r = self.0.parse_first(i, &mut Default::default());
        if i.is_partial() {
            if let ParseResult::CommitErr(_) = r {
                if let Err(e) = i.reset(before) {
                    return ParseResult::CommitErr(e);
                }
            }
        }
        r
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> ErrorOffset {
        self.0.parser_count()
    }
}

fn binary<I: In>(b: B, x: &Arc<G>, y: &Arc<G>) -> D<I> {
    use B::*;
    let n = acts::depth();
    let (p, q) = acts::inside(acts::retried2(b), || (build::<I>(x), build::<I>(y)));
    match b {
        Seq => d(p.and(q).map(|(a, b)| Val::pair(a, b))),
        With => d(p.with(q)),
        Skip => d(p.skip(q)),
        Or => d(p.or(q)),
        Choice2 => d(choice((p, q))),
        ChoiceSlice2 => d(SliceChoice(vec![p, q])),
        ChoiceMacro2 => d(combine::choice!(p, q)),
        Dispatch => {
            let (x, y) = (x.clone(), y.clone());
            d(then(look_ahead(tk::any()), move |c: char| {
                let (p, q) = acts::at(n, || (build::<I>(&x), build::<I>(&y)));
                combine::dispatch!(c; 'a' => p, _ => q)
            }))
        }
        SepBy => d(sep_by::<Vec<_>, _, _, _>(p, q).map(Val::L)),
        SepBy1 => d(sep_by1::<Vec<_>, _, _, _>(p, q).map(Val::L)),
        SepEndBy => d(sep_end_by::<Vec<_>, _, _, _>(p, q).map(Val::L)),
        SepEndBy1 => d(sep_end_by1::<Vec<_>, _, _, _>(p, q).map(Val::L)),
        ChainL1 => d(chainl1(p, q.map(|o| move |l, r| Val::L(vec![o.clone(), l, r])))),
        ChainR1 => d(chainr1(p, q.map(|o| move |l, r| Val::L(vec![o.clone(), l, r])))),
        RepeatUntil => d(repeat_until::<Vec<_>, _, _, _>(p, q).map(Val::L)),
        RepeatSkipUntil => d(repeat_skip_until(p, q).map(|_| Val::U)),
        Escaped => d(escaped(p, ESCAPE, q).map(|_| Val::U)),
        Struct2 => d(combine::struct_parser! { S2 { a: p, b: q } }.map(|s: S2| Val::pair(s.a, s.b))),
        SeqMacro2 => d(macro_seq(p, q).map(|(a, b)| Val::pair(a, b))),
        IterateVar => {
            let (x, y) = (x.clone(), y.clone());
            d(
                iterate::<Vec<_>, _, _, _, _>(vec![0, 1, 2], move |i: &i32, _: &mut I| {
                    acts::at(n, || build::<I>(if *i == 1 { &y } else { &x }))
                })
                .map(Val::L),
            )
        }
    }
}

fn ternary<I: In>(t: T, x: &Arc<G>, y: &Arc<G>, z: &Arc<G>) -> D<I> {
    use T::*;
    let n = acts::depth();
    let p = build::<I>(x);
    match t {
        Seq3 => d((p, build::<I>(y), build::<I>(z)).map(|(a, b, c)| Val::L(vec![a, b, c]))),
        Struct3 => d(combine::struct_parser! { S3 { a: p, b: build::<I>(y), c: build::<I>(z) } }
            .map(|s: S3| Val::L(vec![s.a, s.b, s.c]))),
        Choice3 => d(choice((p, build::<I>(y), build::<I>(z)))),
        ChoiceArr3 => d(choice([p, build::<I>(y), build::<I>(z)])),
        ChoiceSlice3 => d(SliceChoice(vec![p, build::<I>(y), build::<I>(z)])),
        Between => d(between(p, build::<I>(y), build::<I>(z))),
        Then => {
            let (y, z) = (y.clone(), z.clone());
            d(p.then(move |v: Val| {
                act(n, "then", &v);
                acts::at(n, || build::<I>(if pick(&v) { &y } else { &z }))
            }))
        }
        ThenPartial => {
            let (y, z) = (y.clone(), z.clone());
            d(p.then_partial(move |v: &mut Val| acts::at(n, || build::<I>(if pick(v) { &y } else { &z }))))
        }
        ThenRef => {
            let (y, z) = (y.clone(), z.clone());
            d(p.then_ref(move |v: &Val| {
                act(n, "then_ref", v);
                acts::at(n, || build::<I>(if pick(v) { &y } else { &z }))
            }).map(|(a, b)| Val::pair(a, b)))
        }
    }
}
