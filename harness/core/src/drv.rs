//! A uniform driver over every kind of stream the library offers, so that one list model can be
//! compared with all of them after every operation.
use combine::error::{ParseResult, StreamError};
use combine::stream::{self, Positioned, RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce};

pub type Pos = (i64, i64);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK {
    Eoi,
    Other,
}

/// A range handed out by a stream: its tokens and, where it borrows, where it starts (in units from
/// the start of the input).
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rg {
    pub toks: Vec<u32>,
    pub at: Option<i64>,
}

/// Result of one of the library's free functions over streams, with its commit status.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PR<T> {
    CommitOk(T),
    PeekOk(T),
    CommitErr(EK, Option<Pos>),
    PeekErr(EK, Option<Pos>),
}

pub trait Drv {
    fn uncons(&mut self) -> Result<u32, EK>;
    fn save(&mut self);
    fn reset(&mut self, slot: usize) -> bool;
    fn pos(&self) -> Pos;
    fn partial(&self) -> bool;
    fn at_eof(&mut self) -> bool;
    fn f_uncons(&mut self) -> PR<u32>;
    // streams which hand out ranges
    fn ranged(&self) -> bool;
    fn uncons_range(&mut self, n: usize) -> Result<Rg, EK>;
    fn uncons_while(&mut self, f: &mut dyn FnMut(u32) -> bool) -> Result<Rg, EK>;
    fn uncons_while1(&mut self, f: &mut dyn FnMut(u32) -> bool) -> PR<Rg>;
    fn f_range(&mut self, n: usize) -> PR<Rg>;
    fn f_while(&mut self, f: &mut dyn FnMut(u32) -> bool) -> PR<Rg>;
    fn f_while1(&mut self, f: &mut dyn FnMut(u32) -> bool) -> PR<Rg>;
    fn distance(&self, slot: usize) -> usize;
    fn range(&self) -> Rg;
}

/// Error-to-position extraction, for the error types which carry one.
pub trait HasPos<P> {
    fn at(&self) -> Option<&P>;
}
impl<P> HasPos<P> for combine::error::StringStreamError {
    fn at(&self) -> Option<&P> {
        None
    }
}
impl<P> HasPos<P> for combine::error::UnexpectedParse {
    fn at(&self) -> Option<&P> {
        None
    }
}
impl<P> HasPos<P> for combine::stream::read::Error {
    fn at(&self) -> Option<&P> {
        None
    }
}
impl<T, R, P> HasPos<P> for combine::easy::Errors<T, R, P> {
    fn at(&self) -> Option<&P> {
        Some(&self.position)
    }
}

pub struct Wr<S: ResetStream, T, R, P> {
    pub s: S,
    pub cps: Vec<S::Checkpoint>,
    pub t: T,
    pub r: R,
    pub p: P,
}

pub fn ek<S: StreamOnce + ?Sized>(e: &StreamErrorFor<S>) -> EK {
    if StreamError::<S::Token, S::Range>::is_unexpected_end_of_input(e) {
        EK::Eoi
    } else {
        EK::Other
    }
}
fn pek<S: StreamOnce + ?Sized>(e: &S::Error) -> EK {
    if combine::error::ParseError::<S::Token, S::Range, S::Position>::is_unexpected_end_of_input(e) {
        EK::Eoi
    } else {
        EK::Other
    }
}

impl<S, T, R, P> Wr<S, T, R, P>
where
    S: stream::Stream,
    S::Error: HasPos<S::Position>,
    P: Fn(&S::Position) -> Pos,
{
    fn pr<A, B>(&self, r: ParseResult<A, S::Error>, f: impl Fn(&A) -> B) -> PR<B> {
        let e = |e: &S::Error| (pek::<S>(e), e.at().map(|p| (self.p)(p)));
        match r {
            ParseResult::CommitOk(x) => PR::CommitOk(f(&x)),
            ParseResult::PeekOk(x) => PR::PeekOk(f(&x)),
            ParseResult::CommitErr(x) => {
                let (k, p) = e(&x);
                PR::CommitErr(k, p)
            }
            ParseResult::PeekErr(x) => {
                let (k, p) = e(&x.error);
                PR::PeekErr(k, p)
            }
        }
    }
}

pub struct Tok<W>(pub W);
pub struct Rng<W>(pub W);

impl<S, T, P> Drv for Tok<Wr<S, T, (), P>>
where
    S: stream::Stream,
    S::Error: HasPos<S::Position>,
    T: Fn(&S::Token) -> u32,
    P: Fn(&S::Position) -> Pos,
{
    fn uncons(&mut self) -> Result<u32, EK> {
        self.0.uncons_()
    }
    fn save(&mut self) {
        self.0.save_()
    }
    fn reset(&mut self, slot: usize) -> bool {
        self.0.reset_(slot)
    }
    fn pos(&self) -> Pos {
        self.0.pos_()
    }
    fn partial(&self) -> bool {
        self.0.s.is_partial()
    }
    fn at_eof(&mut self) -> bool {
        stream::input_at_eof(&mut self.0.s)
    }
    fn f_uncons(&mut self) -> PR<u32> {
        self.0.f_uncons_()
    }
    fn ranged(&self) -> bool {
        false
    }
    fn uncons_range(&mut self, _: usize) -> Result<Rg, EK> {
        unreachable!()
    }
    fn uncons_while(&mut self, _: &mut dyn FnMut(u32) -> bool) -> Result<Rg, EK> {
        unreachable!()
    }
    fn uncons_while1(&mut self, _: &mut dyn FnMut(u32) -> bool) -> PR<Rg> {
        unreachable!()
    }
    fn f_range(&mut self, _: usize) -> PR<Rg> {
        unreachable!()
    }
    fn f_while(&mut self, _: &mut dyn FnMut(u32) -> bool) -> PR<Rg> {
        unreachable!()
    }
    fn f_while1(&mut self, _: &mut dyn FnMut(u32) -> bool) -> PR<Rg> {
        unreachable!()
    }
    fn distance(&self, _: usize) -> usize {
        unreachable!()
    }
    fn range(&self) -> Rg {
        unreachable!()
    }
}

impl<S, T, R, P> Wr<S, T, R, P>
where
    S: stream::Stream,
    S::Error: HasPos<S::Position>,
    T: Fn(&S::Token) -> u32,
    P: Fn(&S::Position) -> Pos,
{
    fn uncons_(&mut self) -> Result<u32, EK> {
        match self.s.uncons() {
            Ok(t) => Ok((self.t)(&t)),
            Err(e) => Err(ek::<S>(&e)),
        }
    }
    fn save_(&mut self) {
        let c = self.s.checkpoint();
        self.cps.push(c);
    }
    fn reset_(&mut self, slot: usize) -> bool {
        self.s.reset(self.cps[slot].clone()).is_ok()
    }
    fn pos_(&self) -> Pos {
        (self.p)(&self.s.position())
    }
    fn f_uncons_(&mut self) -> PR<u32> {
        let r = stream::uncons(&mut self.s);
        self.pr(r, |t| (self.t)(t))
    }
}

impl<S, T, R, P> Drv for Rng<Wr<S, T, R, P>>
where
    S: stream::RangeStream,
    S::Range: stream::Range,
    S::Error: HasPos<S::Position>,
    T: Fn(&S::Token) -> u32,
    R: Fn(&S::Range) -> Rg,
    P: Fn(&S::Position) -> Pos,
{
    fn uncons(&mut self) -> Result<u32, EK> {
        self.0.uncons_()
    }
    fn save(&mut self) {
        self.0.save_()
    }
    fn reset(&mut self, slot: usize) -> bool {
        self.0.reset_(slot)
    }
    fn pos(&self) -> Pos {
        self.0.pos_()
    }
    fn partial(&self) -> bool {
        self.0.s.is_partial()
    }
    fn at_eof(&mut self) -> bool {
        stream::input_at_eof(&mut self.0.s)
    }
    fn f_uncons(&mut self) -> PR<u32> {
        self.0.f_uncons_()
    }
    fn ranged(&self) -> bool {
        true
    }
    fn uncons_range(&mut self, n: usize) -> Result<Rg, EK> {
        match self.0.s.uncons_range(n) {
            Ok(r) => Ok((self.0.r)(&r)),
            Err(e) => Err(ek::<S>(&e)),
        }
    }
    fn uncons_while(&mut self, f: &mut dyn FnMut(u32) -> bool) -> Result<Rg, EK> {
        let t = &self.0.t;
        match self.0.s.uncons_while(|x| f(t(&x))) {
            Ok(r) => Ok((self.0.r)(&r)),
            Err(e) => Err(ek::<S>(&e)),
        }
    }
    fn uncons_while1(&mut self, f: &mut dyn FnMut(u32) -> bool) -> PR<Rg> {
        let t = &self.0.t;
        match self.0.s.uncons_while1(|x| f(t(&x))) {
            ParseResult::CommitOk(r) => PR::CommitOk((self.0.r)(&r)),
            ParseResult::PeekOk(r) => PR::PeekOk((self.0.r)(&r)),
            ParseResult::CommitErr(e) => PR::CommitErr(ek::<S>(&e), None),
            ParseResult::PeekErr(e) => PR::PeekErr(ek::<S>(&e.error), None),
        }
    }
    fn f_range(&mut self, n: usize) -> PR<Rg> {
        let r = stream::uncons_range(&mut self.0.s, n);
        self.0.pr(r, |t| (self.0.r)(t))
    }
    fn f_while(&mut self, f: &mut dyn FnMut(u32) -> bool) -> PR<Rg> {
        let t = &self.0.t;
        let r = stream::uncons_while(&mut self.0.s, |x| f(t(&x)));
        self.0.pr(r, |t| (self.0.r)(t))
    }
    fn f_while1(&mut self, f: &mut dyn FnMut(u32) -> bool) -> PR<Rg> {
        let t = &self.0.t;
        let r = stream::uncons_while1(&mut self.0.s, |x| f(t(&x)));
        self.0.pr(r, |t| (self.0.r)(t))
    }
    fn distance(&self, slot: usize) -> usize {
        self.0.s.distance(&self.0.cps[slot])
    }
    fn range(&self) -> Rg {
        (self.0.r)(&self.0.s.range())
    }
}
