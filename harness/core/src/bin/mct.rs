//! P09–P11: the same grammars over other streams: positions, buffered streams, and independence of
//! stream wrapper, error type and entry point.
use combine::easy;
use combine::error::ParseResult::{self, *};
use combine::error::{ParseError, StreamError, StringStreamError, UnexpectedParse};
use combine::parser::token::position as position_parser;
use combine::stream::position::{self, SourcePosition};
use combine::stream::span::{self, Span};
use combine::stream::{
    buffered, decode, decode_tokio, read, state, CompleteStream, IteratorStream, MaybePartialStream, PartialStream, PointerOffset, Positioned,
    RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce,
};
use combine::{EasyParser, Parser};
use mc_core::drv::{Drv, Tok, Wr, EK, PR};
use mc_core::gram::*;
use mc_core::partial::{all_cuts, Out};
use mc_core::real::{build, DynState, In, D};
use mc_core::refsem::{Ref, R};
use mc_core::spaces::*;
use mc_core::val::Val;
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, Viol, W};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

type Words = Vec<(&'static str, Vec<char>)>;
fn ws(al: &str, n: usize) -> Words {
    words(al, n).into_iter().map(|w| (w, w.chars().collect())).collect()
}
fn desc(g: &Arc<G>) -> String {
    format!("{:?}", g)
}
fn byte_end(w: &str, n: usize) -> usize {
    w.char_indices().nth(n).map_or(w.len(), |x| x.0)
}
fn res<T, E>(r: ParseResult<T, E>) -> (Option<T>, bool) {
    match r {
        CommitOk(v) => (Some(v), true),
        PeekOk(v) => (Some(v), false),
        CommitErr(_) => (None, true),
        PeekErr(_) => (None, false),
    }
}

// ---------------------------------------------------------------- P09
type PosIn<B> = position::Stream<B, SourcePosition>;
fn fold(s: &str) -> SourcePosition {
    let mut p = SourcePosition::new();
    for c in s.chars() {
        if c == '\n' {
            p.line += 1;
            p.column = 1;
        } else {
            p.column += 1;
        }
    }
    p
}

fn positions(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words, max_cuts: usize) {
    let cuts: Vec<Vec<Vec<usize>>> = ws.iter().map(|w| all_cuts(w.0).into_iter().filter(|c| c.len() <= max_cuts).collect()).collect();
    c.sweep(name, terms, desc, |k: &mut W, g| {
        for ((w, ch), cuts) in ws.iter().zip(&cuts) {
            let w: &'static str = w;
            let bad = |d: String| viol(format!("{:?}", w), format!("input {:?}: {}", w, d));
            let pan = |d: String| bad(format!("panicked: {}", d));
            // complete input
            let (p, rest, ok) = no_panic(|| {
                let mut i: PosIn<&'static str> = position::Stream::new(w);
                let r = build(g).parse_stream(&mut i);
                (i.positioner, i.input.len(), r.is_ok())
            })
            .map_err(pan)?;
            k.transitions += 1;
            k.states += 1;
            if p != fold(&w[..w.len() - rest]) {
                return Err(bad(format!("after {} the position is {} with {:?} consumed", if ok { "success" } else { "failure" }, p, &w[..w.len() - rest])));
            }
            // the position parser sees the same
            let want = Ref { w: ch }.run(g, 0);
            let got = no_panic(|| {
                let i: PosIn<&'static str> = position::Stream::new(w);
                (position_parser(), build(g), position_parser()).parse(i).ok().map(|((a, _, b), _)| (a, b))
            })
            .map_err(pan)?;
            let want_p = match want {
                R::Ok { end, .. } => Some((fold(""), fold(&w[..byte_end(w, end)]))),
                _ => None,
            };
            if got != want_p {
                return Err(bad(format!("position() before and after: want {:?}, got {:?}", want_p, got)));
            }
            // the reported position is the fold up to the reported offset
            let (e1, e2) = no_panic(|| {
                let e1 = build(g).easy_parse(w).err().map(|e| e.map_position(|p| p.translate_position(w)).position);
                let e2 = build(g).easy_parse(position::Stream::new(w)).err().map(|e| e.position);
                (e1, e2)
            })
            .map_err(pan)?;
            if e1.map(|o| fold(&w[..o])) != e2 {
                return Err(bad(format!("the failure is at offset {:?}, reported at {:?}", e1, e2)));
            }
            k.traces += 1;
            // chunks, with the position carried from one to the next
            for cuts in cuts {
                let r = no_panic(|| {
                    let mut state = DynState::default();
                    let mut at = 0;
                    let mut pos = SourcePosition::new();
                    for (n, c) in cuts.iter().copied().chain(Some(w.len())).enumerate() {
                        let partial = n < cuts.len();
                        if c < at {
                            return Err(format!("consumed to {} of a chunk ending at {}", at, c));
                        }
                        let mut s: PosIn<MaybePartialStream<&'static str>> = position::Stream::with_positioner(MaybePartialStream(&w[at..c], partial), pos);
                        let r = decode(build(g), &mut s, &mut state);
                        k.transitions += 1;
                        let end = c - s.input.0.len();
                        if s.position() != fold(&w[..end]) {
                            return Err(format!("cut at {:?}, after the call ending at {}: position {} with {:?} consumed", cuts, c, s.position(), &w[..end]));
                        }
                        match r {
                            Ok((None, n)) => at += n,
                            _ => return Ok(()),
                        }
                        pos = s.position();
                        if at != end {
                            return Err(format!("cut at {:?}: {} consumed but {} reported", cuts, end, at));
                        }
                    }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => k.traces += 1,
                    Ok(Err(d)) | Err(d) => return Err(bad(d)),
                }
            }
            k.outcome(if ok { "success" } else { "failure" });
        }
        k.sample(|| format!("{:?} on {} words", g, ws.len()));
        Ok(())
    })
}

fn p09(c: &mut Ctx) {
    let q = c.quick();
    c.bound("terms", if q { "every operator and leaf to size 3, core operators at size 5" } else { "every operator and leaf to size 3, every operator over two leaves at size 4, core operators at size 5 and 6" });
    c.bound("words", if q { "all words over a, b, newline of length 0..=3 (4 for core); all chunkings up to size 2, one or two cuts beyond, with the position carried along" } else { "all words over a, b, newline of length 0..=4; all chunkings up to size 3, up to two cuts beyond, with the position carried along" });
    positions(c, "every operator and leaf, size 2", &upto(&all(), 2, |_| true), &ws("ab\n", if q { 3 } else { 4 }), 5);
    let s3 = space("'a|Any|(Tokens ab)|(TakeWhile a)|(Take 2)", U::ALL, B::ALL, T::ALL);
    positions(c, "every operator, size 3", &exactly(&s3, 3, |_| true), &ws("a\n", 3), if q { 2 } else { 5 });
    positions(c, "every operator and leaf, size 3", &exactly(&all(), 3, |_| true), &ws("ab\n", 3), if q { 1 } else { 5 });
    let wide = space("Any|(Take 2)|(Take 3)|(Take 4)|(TakeUntilRange a)|(TakeWhile1 é\n)|(NoneOf a)", U::ALL, B::ALL, &[]);
    positions(c, "characters of two bytes, size 2", &upto(&wide, 2, |_| true), &ws("aé\n", if q { 4 } else { 5 }), 5);
    positions(c, "characters of two bytes, size 3", &exactly(&wide, 3, |_| true), &ws("é\n", 4), if q { 1 } else { 5 });
    let core = space("'a|Any|(TakeWhile1 a)", &[U::Attempt, U::LookAhead, U::Many, U::Optional, U::Not], &[B::Seq, B::Or, B::SepBy, B::SepEndBy1, B::ChainR1, B::RepeatUntil], &[]);
    positions(c, "core, size 5", &exactly(&core, 5, |_| true), &ws("a\n", 4), 2);
    let parts = "'a|Any|(NoneOf a)|(Take 2)|(TakeWhile1 a)|(Optional 'b)|(Seq 'a Any)|(Attempt (Seq Any 'a))|(LookAhead Any)|(Many 'a)";
    let frames = ["_", "(Seq _ Any)", "(Seq Any _)", "(Many (Seq _ Any))", "(Or (Attempt (Seq _ 'b)) (Seq _ Any))", "(Seq (Optional _) 'b)"];
    positions(c, "every operator over all kinds of parts, in all places", &framed(&level(parts, U::ALL, B::ALL, T::ALL), &frames, |_| true), &ws("ab\n", 3), if q { 1 } else { 5 });
    if !q {
        positions(c, "every operator, size 4", &exactly(&space("Any|(TakeWhile a)", U::ALL, B::ALL, T::ALL), 4, |_| true), &ws("a\n", 3), 2);
        positions(c, "core, size 6", &exactly(&core, 6, |_| true), &ws("a\n", 4), 1);
    }
}

// ---------------------------------------------------------------- P10
/// A token source without backtracking, counting what was taken from it.
struct Source {
    it: IteratorStream<std::str::Chars<'static>>,
    taken: Rc<Cell<usize>>,
}
impl StreamOnce for Source {
    type Token = char;
    type Range = &'static str;
    type Position = usize;
    type Error = easy::Errors<char, &'static str, usize>;
    fn uncons(&mut self) -> Result<char, StreamErrorFor<Self>> {
        match self.it.uncons() {
            Ok(c) => {
                self.taken.set(self.taken.get() + 1);
                Ok(c)
            }
            Err(_) => Err(easy::Error::end_of_input()),
        }
    }
}
impl Positioned for Source {
    fn position(&self) -> usize {
        self.taken.get()
    }
}
/// The grammars are written for range streams; those run here use none of the range operations.
struct NoRange<S> {
    s: S,
    taken: Rc<Cell<usize>>,
    /// how far back the parser ever went
    back: usize,
    refused: usize,
}
impl<S: StreamOnce> StreamOnce for NoRange<S> {
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<S>> {
        self.s.uncons()
    }
    fn is_partial(&self) -> bool {
        self.s.is_partial()
    }
}
impl<S: Positioned> Positioned for NoRange<S> {
    fn position(&self) -> S::Position {
        self.s.position()
    }
}
impl<S: ResetStream<Checkpoint = usize>> ResetStream for NoRange<S> {
    type Checkpoint = usize;
    fn checkpoint(&self) -> usize {
        self.s.checkpoint()
    }
    fn reset(&mut self, c: usize) -> Result<(), S::Error> {
        self.back = self.back.max(self.taken.get() - c);
        let r = self.s.reset(c);
        self.refused += r.is_err() as usize;
        r
    }
}
impl<S: ResetStream<Checkpoint = usize>> RangeStreamOnce for NoRange<S> {
    fn uncons_range(&mut self, _: usize) -> Result<S::Range, StreamErrorFor<Self>> {
        unreachable!()
    }
    fn uncons_while<F: FnMut(S::Token) -> bool>(&mut self, _: F) -> Result<S::Range, StreamErrorFor<Self>> {
        unreachable!()
    }
    fn distance(&self, _: &usize) -> usize {
        unreachable!()
    }
    fn range(&self) -> S::Range {
        unreachable!()
    }
}
type Buf = NoRange<buffered::Stream<Source>>;
fn buf(w: &'static str, lookahead: usize) -> Buf {
    let taken = Rc::new(Cell::new(0));
    NoRange { s: buffered::Stream::new(Source { it: IteratorStream::new(w.chars()), taken: taken.clone() }, lookahead), taken, back: 0, refused: 0 }
}

fn buffered_terms(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words) {
    c.sweep(name, terms, desc, |k: &mut W, g| {
        for (w, ch) in ws {
            let want = Ref { w: ch }.run(g, 0);
            for look in (0..=3).chain([ch.len() + 1, 16]) {
                let bad = |d: String| viol(format!("{:?} {}", w, look), format!("input {:?}, lookahead {}: {}", w, look, d));
                let mut i = buf(w, look);
                let got = no_panic(|| {
                    let (v, com) = res(build::<Buf>(g).parse_stream(&mut i));
                    match v {
                        Some(v) => R::Ok { v, end: i.checkpoint(), com },
                        None => R::Err { com },
                    }
                })
                .map_err(|m| bad(format!("panicked: {}", m)))?;
                k.transitions += 1;
                k.states += 1;
                k.traces += 1;
                if got == want && i.refused == 0 {
                    k.outcome("as without a buffer");
                    if let R::Ok { end, .. } = got {
                        if i.position() != end {
                            return Err(bad(format!("position {} with {} tokens consumed", i.position(), end)));
                        }
                        // what follows is what follows in the input
                        if i.taken.get() - end <= look {
                            let rest: Vec<char> = std::iter::from_fn(|| i.uncons().ok()).collect();
                            if rest != ch[end..] {
                                return Err(bad(format!("after the parse the stream holds {:?}, not {:?}", rest, &ch[end..])));
                            }
                        }
                    }
                    continue;
                }
                if i.back <= look {
                    return Err(bad(format!("went back by at most {}, want {:?}, got {:?}", i.back, want, got)));
                }
                match got {
                    R::Err { .. } => k.outcome("went back too far: an error"),
                    got => {
                        if i.refused > 0 {
                            return Err(bad(format!("a reset was refused and the parse went on: want {:?}, got {:?}", want, got)));
                        }
                        return Err(bad(format!("want {:?}, got {:?}", want, got)));
                    }
                }
            }
        }
        k.sample(|| format!("{:?} on {} words", g, ws.len()));
        Ok(())
    })
}

/// A reader which follows a script: data bytes, interruptions, errors.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    Byte(u8),
    Interrupted,
    Broken,
    WouldBlock,
}
struct Script {
    ev: Vec<Ev>,
    at: usize,
}
impl std::io::Read for Script {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let e = match self.ev.get(self.at) {
            None => return Ok(0),
            Some(e) => *e,
        };
        self.at += 1;
        match e {
            Ev::Byte(x) => {
                b[0] = x;
                Ok(1)
            }
            Ev::Interrupted => Err(std::io::ErrorKind::Interrupted.into()),
            Ev::Broken => Err(std::io::ErrorKind::BrokenPipe.into()),
            Ev::WouldBlock => Err(std::io::ErrorKind::WouldBlock.into()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Uncons,
    FUncons,
    Save,
    Reset(usize),
}
/// What the underlying source yields, in order; `None` is a transient error.
fn buffer_ops(k: &mut W, name: &str, src: &[Option<u32>], mk: &dyn Fn(&mut dyn FnMut(&mut dyn Drv)), look: usize, depth: usize) -> Result<(), Viol> {
    #[derive(Clone)]
    struct M {
        at: usize,      // next token
        high: usize,    // tokens taken from the source
        ev: usize,      // events taken from the source
        cps: Vec<usize>,
    }
    let toks: Vec<u32> = src.iter().filter_map(|t| *t).collect();
    // returns the failure, or the model after the sequence
    let run = |seq: &[Op]| -> Result<M, String> {
        let mut m = M { at: 0, high: 0, ev: 0, cps: vec![] };
        let mut out = Ok(());
        let r = no_panic(|| {
            mk(&mut |d| {
                for op in seq {
                    out = (|| {
                        match op {
                            Op::Save => {
                                m.cps.push(m.at);
                                d.save()
                            }
                            Op::Reset(c) => {
                                let c_at = m.cps[*c];
                                let ok = d.reset(*c);
                                if m.high - c_at <= look && !ok {
                                    return Err(format!("reset by {} refused", m.high - c_at));
                                }
                                if ok {
                                    m.at = c_at;
                                }
                            }
                            Op::Uncons | Op::FUncons => {
                                let want = if m.at < m.high {
                                    Ok(toks[m.at])
                                } else {
                                    match src.get(m.ev) {
                                        None => Err(EK::Eoi),
                                        Some(None) => {
                                            m.ev += 1;
                                            Err(EK::Other)
                                        }
                                        Some(Some(t)) => {
                                            m.ev += 1;
                                            Ok(*t)
                                        }
                                    }
                                };
                                let got = if *op == Op::Uncons {
                                    d.uncons()
                                } else {
                                    match d.f_uncons() {
                                        PR::CommitOk(t) => Ok(t),
                                        PR::PeekErr(e, _) => Err(e),
                                        x => return Err(format!("uncons: {:?}", x)),
                                    }
                                };
                                if want.is_ok() && m.at < m.high && m.high - m.at > look && got == Err(EK::Other) {
                                    return Ok(()); // went back too far: an error is what is promised
                                }
                                if got != want {
                                    return Err(format!("token: want {:?}, got {:?}", want, got));
                                }
                                if got.is_ok() {
                                    m.at += 1;
                                    m.high = m.high.max(m.at);
                                }
                            }
                        }
                        if m.high - m.at <= look && d.pos() != (m.at as i64, 0) {
                            return Err(format!("position {:?} after {} tokens", d.pos(), m.at));
                        }
                        Ok(())
                    })();
                    if out.is_err() {
                        return;
                    }
                }
            })
        });
        match r {
            Ok(()) => out.map(|_| m),
            Err(p) => Err(format!("panicked: {}", p)),
        }
    };
    let mut stack = vec![vec![]];
    while let Some(seq) = stack.pop() {
        k.states += 1;
        k.transitions += seq.len() as u64;
        let m = run(&seq).map_err(|e| viol(format!("{} {:?} {} {:?}", name, src, look, seq), format!("{} over {:?} with lookahead {}, operations {:?}: {}", name, src, look, seq, e)))?;
        k.outcome(if m.high - m.at > look { "beyond the lookahead" } else if m.at < m.high { "replaying" } else { "at the front" });
        if seq.len() == depth {
            k.traces += 1;
            continue;
        }
        let mut ops = vec![Op::Uncons];
        if seq.len() + 1 == depth {
            ops.push(Op::FUncons);
        }
        if m.cps.len() < 3 && m.cps.last() != Some(&m.at) {
            ops.push(Op::Save);
        }
        for c in 0..m.cps.len() {
            if m.cps[c] <= m.at {
                ops.push(Op::Reset(c));
            }
        }
        for op in ops {
            let mut s = seq.clone();
            s.push(op);
            stack.push(s);
        }
    }
    Ok(())
}

fn p10(c: &mut Ctx) {
    let q = c.quick();
    let depth = if q { 10 } else { 13 };
    c.bound("operations", format!("all sequences of up to {} operations (token, save, reset to an earlier place) over 0–6 tokens with lookahead 0–7", depth));
    c.bound("grammars", if q { "every token-level operator and leaf to size 3, every operator over two leaves at size 4, core at size 5" } else { "every token-level operator and leaf to size 3, every operator over three leaves at size 4, core to size 6" });
    let items: Vec<(usize, usize)> = (0..=6).flat_map(|n| (0..=n + 1).map(move |l| (n, l))).collect();
    c.sweep("operations over an iterator", &items, |(n, l)| format!("{} tokens, lookahead {}", n, l), |k, &(n, look)| {
        let w: &'static str = &"abcdef"[..n];
        let src: Vec<Option<u32>> = w.chars().map(|c| Some(c as u32)).collect();
        buffer_ops(
            k,
            "buffered<position<IteratorStream>>",
            &src,
            &|f| {
                let s = buffered::Stream::new(position::Stream::new(IteratorStream::new(w.chars())), look);
                f(&mut Tok(Wr { s, cps: vec![], t: |c: &char| *c as u32, r: (), p: |p: &usize| (*p as i64, 0) }))
            },
            look,
            depth,
        )?;
        k.sample(|| format!("{} tokens, lookahead {}", n, look));
        Ok(())
    });
    // readers which deliver bytes, interruptions and errors in every order
    let mut scripts: Vec<Vec<Ev>> = vec![vec![]];
    let mut last = scripts.clone();
    for _ in 0..if q { 4 } else { 5 } {
        let mut next = vec![];
        for s in &last {
            for e in 0..4 {
                let mut s = s.clone();
                s.push(match e {
                    0 => Ev::Byte(b'a' + s.len() as u8),
                    1 => Ev::Interrupted,
                    2 => Ev::Broken,
                    _ => Ev::WouldBlock,
                });
                next.push(s);
            }
        }
        scripts.extend(next.iter().cloned());
        last = next;
    }
    c.sweep("operations over a reader", &scripts, |s| format!("{:?}", s), |k, s| {
        let src: Vec<Option<u32>> = s.iter().filter_map(|e| match e {
            Ev::Byte(b) => Some(Some(*b as u32)),
            Ev::Interrupted => None,
            _ => Some(None),
        }).collect();
        for look in 0..=3 {
            buffer_ops(
                k,
                "buffered<position<read>>",
                &src,
                &|f| {
                    let s = buffered::Stream::new(position::Stream::new(read::Stream::new(Script { ev: s.clone(), at: 0 })), look);
                    f(&mut Tok(Wr { s, cps: vec![], t: |c: &u8| *c as u32, r: (), p: |p: &usize| (*p as i64, 0) }))
                },
                look,
                depth - 3,
            )?;
        }
        k.sample(|| format!("{:?}", s));
        Ok(())
    });
    let tok = |u: &[U], b: &[B], t: &[T], l: &str| space(l, u, b, t);
    let us: Vec<U> = U::ALL.iter().copied().filter(|u| !matches!(u, U::RangeRecognize | U::RecognizeWithValue | U::LengthPrefix)).collect();
    let s3 = tok(&us, B::ALL, T::ALL, TOKEN_LEAVES);
    buffered_terms(c, "every operator and leaf, size 3", &upto(&s3, 3, |_| true), &ws("abc", if q { 3 } else { 4 }));
    let core = tok(
        &[U::Attempt, U::LookAhead, U::Not, U::Optional, U::Many],
        &[B::Seq, B::Or, B::Choice2, B::SepBy, B::SepEndBy, B::ChainR1],
        &[],
        "'a|Any|(Tokens ab)|Eof",
    );
    buffered_terms(c, "every operator over all kinds of parts, in all places", &framed(&level(PARTS, &us, B::ALL, T::ALL), FRAMES, |_| true), &ws("abc", if q { 3 } else { 4 }));
    buffered_terms(c, "core, size 5", &upto(&core, if q { 5 } else { 6 }, |_| true), &ws("ab", if q { 4 } else { 5 }));
    let s4 = tok(&us, B::ALL, if q { &[] } else { T::ALL }, if q { "'a|(Tokens ab)" } else { "'a|(Tokens ab)|Any" });
    buffered_terms(c, "every operator, size 4", &exactly(&s4, 4, |_| true), &ws("ab", 3));
}

// ---------------------------------------------------------------- P11
/// The input with another error type put over it.
pub struct WithError<S, E>(S, std::marker::PhantomData<E>);
impl<S, E> WithError<S, E> {
    fn new(s: S) -> Self {
        WithError(s, std::marker::PhantomData)
    }
}
impl<S, E> StreamOnce for WithError<S, E>
where
    S: StreamOnce<Token = char, Range = &'static str> + Positioned,
    E: ParseError<char, &'static str, S::Position>,
{
    type Token = char;
    type Range = &'static str;
    type Position = S::Position;
    type Error = E;
    fn uncons(&mut self) -> Result<char, StreamErrorFor<Self>> {
        self.0.uncons().map_err(|e| e.into_other())
    }
    fn is_partial(&self) -> bool {
        self.0.is_partial()
    }
}
impl<S, E> Positioned for WithError<S, E>
where
    S: StreamOnce<Token = char, Range = &'static str> + Positioned,
    E: ParseError<char, &'static str, S::Position>,
{
    fn position(&self) -> S::Position {
        self.0.position()
    }
}
impl<S, E> ResetStream for WithError<S, E>
where
    S: ResetStream<Token = char, Range = &'static str> + Positioned,
    E: ParseError<char, &'static str, S::Position>,
{
    type Checkpoint = S::Checkpoint;
    fn checkpoint(&self) -> S::Checkpoint {
        self.0.checkpoint()
    }
    fn reset(&mut self, c: S::Checkpoint) -> Result<(), E> {
        self.0.reset(c).map_err(|e| e.into_other())
    }
}
impl<S, E> RangeStreamOnce for WithError<S, E>
where
    S: RangeStreamOnce<Token = char, Range = &'static str> + Positioned,
    E: ParseError<char, &'static str, S::Position>,
{
    fn uncons_range(&mut self, n: usize) -> Result<&'static str, StreamErrorFor<Self>> {
        self.0.uncons_range(n).map_err(|e| e.into_other())
    }
    fn uncons_while<F: FnMut(char) -> bool>(&mut self, f: F) -> Result<&'static str, StreamErrorFor<Self>> {
        self.0.uncons_while(f).map_err(|e| e.into_other())
    }
    // uncons_while1 is the trait's own
    fn distance(&self, c: &S::Checkpoint) -> usize {
        self.0.distance(c)
    }
    fn range(&self) -> &'static str {
        self.0.range()
    }
}

/// The length of the unconsumed input.
trait Rest {
    fn rest(&self) -> usize;
}
impl<I: In> Rest for I {
    fn rest(&self) -> usize {
        self.range().len()
    }
}

fn once<I: In>(g: &Arc<G>, mut i: I, n: usize) -> R {
    let (v, com) = res(build::<I>(g).parse_stream(&mut i));
    match v {
        Some(v) => R::Ok { v, end: n - i.rest(), com },
        None => R::Err { com },
    }
}
fn chunks<I: In>(g: &Arc<G>, w: &'static str, cuts: &[usize], mk: impl Fn(&'static str, bool) -> I) -> Out {
    let mut at = 0;
    let mut state = DynState::default();
    for &c in cuts {
        if c < at {
            return Out::Panic;
        }
        let mut s = mk(&w[at..c], true);
        match decode(build::<I>(g), &mut s, &mut state) {
            Ok((Some(v), n)) => return Out::Ok(v, at + n),
            Ok((None, n)) => at += n,
            Err(_) => return Out::Err,
        }
    }
    let mut s = mk(&w[at..], false);
    match decode_tokio(build::<I>(g), &mut s, &mut state) {
        Ok((Some(v), n)) => Out::Ok(v, at + n),
        Ok((None, _)) if at == w.len() => Out::Err,
        Ok((None, _)) => Out::Stuck,
        Err(_) => Out::Err,
    }
}

type MP = MaybePartialStream<&'static str>;
type P0 = PointerOffset<str>;
type SP = position::Stream<MP, SourcePosition>;
type EE = easy::Errors<char, &'static str, P0>;

type OnceF = Box<dyn Fn(&Arc<G>, &'static str) -> R + Send + Sync>;
type ChunkF = Box<dyn Fn(&Arc<G>, &'static str, &[usize]) -> Out + Send + Sync>;
fn ways() -> (Vec<(&'static str, OnceF)>, Vec<(&'static str, ChunkF)>) {
    let mut o: Vec<(&'static str, OnceF)> = vec![];
    let mut k: Vec<(&'static str, ChunkF)> = vec![];
    macro_rules! once {
        ($n:expr, |$w:ident| $mk:expr) => {
            o.push(($n, Box::new(|g, $w| once(g, $mk, $w.len()))))
        };
    }
    macro_rules! chunk {
        ($n:expr, |$w:ident, $p:ident| $mk:expr) => {{
            once!($n, |$w| {
                let $p = false;
                $mk
            });
            k.push(($n, Box::new(|g, w, cuts| chunks(g, w, cuts, |$w, $p| $mk))))
        }};
    }
    once!("&str", |w| w);
    once!("CompleteStream<PartialStream<&str>>", |w| CompleteStream(PartialStream(w)));
    chunk!("&mut MaybePartialStream<&str>", |w, p| Box::leak(Box::new(MaybePartialStream(w, p))));
    chunk!("MaybePartialStream<&str>", |w, p| MaybePartialStream(w, p));
    chunk!("MaybePartialStream<position<&str>>", |w, p| MaybePartialStream(position::Stream::<_, SourcePosition>::new(w), p));
    chunk!("position<MaybePartialStream<&str>>", |w, p| SP::with_positioner(MaybePartialStream(w, p), SourcePosition::new()));
    chunk!("state<MaybePartialStream<&str>>", |w, p| state::Stream { stream: MaybePartialStream(w, p), state: 1u8 });
    chunk!("easy<MaybePartialStream<&str>>", |w, p| easy::Stream(MaybePartialStream(w, p)));
    chunk!("easy<state<position<..>>>", |w, p| easy::Stream(state::Stream { stream: SP::with_positioner(MaybePartialStream(w, p), SourcePosition::new()), state: () }));
    chunk!("span<MaybePartialStream<&str>>", |w, p| span::Stream::<MP, easy::Errors<char, &'static str, Span<P0>>>::from(MaybePartialStream(w, p)));
    chunk!("error type StringStreamError", |w, p| WithError::<MP, StringStreamError>::new(MaybePartialStream(w, p)));
    chunk!("error type UnexpectedParse", |w, p| WithError::<MP, UnexpectedParse>::new(MaybePartialStream(w, p)));
    chunk!("error type easy::Errors", |w, p| WithError::<MP, EE>::new(MaybePartialStream(w, p)));
    chunk!("error type easy::Error", |w, p| WithError::<MP, easy::Error<char, &'static str>>::new(MaybePartialStream(w, p)));
    chunk!("error type read::Error", |w, p| WithError::<MP, read::Error>::new(MaybePartialStream(w, p)));
    chunk!("error type StringStreamError over easy", |w, p| WithError::<easy::Stream<MP>, StringStreamError>::new(easy::Stream(MaybePartialStream(w, p))));
    (o, k)
}
/// The ways of starting the same parser on the same complete input.
fn entry(g: &Arc<G>, w: &'static str) -> Vec<(&'static str, Option<(Val, usize)>, Option<bool>)> {
    type I = &'static str;
    let n = w.len();
    let mut out = vec![];
    let mut r = |name, i: I, r: ParseResult<Val, StringStreamError>| {
        let (v, c) = res(r);
        out.push((name, v.map(|v| (v, n - i.len())), Some(c)));
    };
    let mut i = w;
    let x = build::<I>(g).parse_stream(&mut i);
    r("parse_stream", i, x);
    let mut i = w;
    let x = build::<I>(g).parse_stream_partial(&mut i, &mut DynState::default());
    r("parse_stream_partial", i, x);
    let mut i = w;
    let x = build::<I>(g).parse_first(&mut i, &mut DynState::default());
    r("parse_first", i, x);
    let mut i = w;
    let x = (&mut build::<I>(g)).parse_stream(&mut i);
    r("&mut parser", i, x);
    let mut i = w;
    let x = Box::new(build::<I>(g)).parse_stream(&mut i);
    r("Box<parser>", i, x);
    let mut i = w;
    let x = build::<I>(g).by_ref().parse_stream(&mut i);
    r("by_ref", i, x);
    let mut i = w;
    let x = combine::parser::combinator::no_partial(build::<I>(g)).parse_stream(&mut i);
    r("no_partial", i, x);
    let x = build::<I>(g).parse(w).ok().map(|(v, i)| (v, n - i.len()));
    out.push(("parse", x, None));
    let mut i = w;
    let x = build::<I>(g).parse_with_state(&mut i, &mut DynState::default()).ok().map(|v| (v, n - i.len()));
    out.push(("parse_with_state", x, None));
    let x = build::<combine::easy::Stream<I>>(g).easy_parse(w).ok().map(|(v, i)| (v, n - i.len()));
    out.push(("easy_parse", x, None));
    let mut i = w;
    let mut st = DynState::default();
    let mut p = build::<I>(g);
    let mut it = p.by_ref().partial_iter(combine::parser::FirstMode, &mut i, &mut st);
    let first = it.next();
    out.push(("partial_iter", first.map(|v| (v, n - i.len())), None));
    let mut i = w;
    let mut it = build::<I>(g).iter(&mut i);
    let first = it.next();
    let ok = first.is_some();
    drop(it);
    out.push(("iter", first.map(|v| (v, n - i.len())), None));
    let _ = ok;
    out
}

fn independence(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words, max_cuts: usize) {
    let (o, ch_ways) = ways();
    let cuts: Vec<Vec<Vec<usize>>> = ws.iter().map(|w| all_cuts(w.0).into_iter().filter(|c| c.len() <= max_cuts && !c.is_empty()).collect()).collect();
    c.sweep(name, terms, desc, |k: &mut W, g| {
        for ((w, ch), cuts) in ws.iter().zip(&cuts) {
            let want = match (Ref { w: ch }).run(g, 0) {
                R::Ok { v, end, com } => R::Ok { v, end: byte_end(w, end), com },
                e => e,
            };
            let bad = |n: &str, d: String| viol(format!("{:?} {}", w, n), format!("input {:?}, {}: {}", w, n, d));
            for (n, f) in &o {
                let got = no_panic(|| f(g, w)).map_err(|m| bad(n, format!("panicked: {}", m)))?;
                k.transitions += 1;
                if got != want {
                    return Err(bad(n, format!("want {:?}, got {:?}", want, got)));
                }
            }
            k.traces += o.len() as u64;
            let (wv, wc) = match &want {
                R::Ok { v, end, com } => (Some((v.clone(), *end)), *com),
                R::Err { com } => (None, *com),
            };
            for (n, v, com) in no_panic(|| entry(g, w)).map_err(|m| bad("entry points", format!("panicked: {}", m)))? {
                k.transitions += 1;
                if v != wv || com.map_or(false, |c| c != wc) {
                    return Err(bad(n, format!("want {:?} (committed {}), got {:?} ({:?})", wv, wc, v, com)));
                }
            }
            let want_o = match &want {
                R::Ok { v, end, .. } => Out::Ok(v.clone(), *end),
                R::Err { .. } => Out::Err,
            };
            for cuts in cuts {
                for (n, f) in &ch_ways {
                    let got = no_panic(|| f(g, w, cuts)).map_err(|m| bad(n, format!("cut at {:?}, panicked: {}", cuts, m)))?;
                    k.transitions += 1;
                    if got != want_o {
                        return Err(bad(n, format!("cut at {:?}: want {:?}, got {:?}", cuts, want_o, got)));
                    }
                }
                k.traces += ch_ways.len() as u64;
            }
            k.states += 1;
            k.outcome(if wv.is_some() { "success" } else { "failure" });
        }
        k.sample(|| format!("{:?} on {} words", g, ws.len()));
        Ok(())
    })
}

fn p11(c: &mut Ctx) {
    let q = c.quick();
    let (o, k) = ways();
    c.bound("stream kinds and error types", o.len());
    c.bound("of which fed in chunks", k.len());
    c.bound("terms", if q { "every operator and leaf to size 3" } else { "every operator and leaf to size 3, every operator over two leaves at size 4" });
    c.bound("words", "all words of length 0..=3 (size 2), 0..=2 (sizes 3 and 4); all chunkings, or one cut for the largest spaces");
    independence(c, "every operator and leaf, size 2", &upto(&all(), 2, |_| true), &ws("ab", 3), 5);
    let s3 = space("'a|Any|(Tokens ab)|(TakeWhile1 a)", U::ALL, B::ALL, T::ALL);
    independence(c, "every operator, size 3", &exactly(&s3, 3, |_| true), &ws("ab", if q { 2 } else { 3 }), 5);
    independence(c, "multi-byte", &upto(&space("'é|Any|(Take 2)|(TakeWhile é)", PLAIN_U, PLAIN_B, &[]), 3, |_| true), &ws("aé", 2), 4);
    independence(c, "every operator and leaf, size 3", &exactly(&all(), 3, |_| true), &ws("ab", 2), if q { 1 } else { 5 });
    independence(c, "every operator over all kinds of parts, in all places", &framed(&level(PARTS, U::ALL, B::ALL, T::ALL), FRAMES, |_| true), &ws("abc", if q { 3 } else { 4 }), 1);
    independence(c, "every operator over all kinds of slices, in all places", &framed(&level(RANGE_PARTS, U::ALL, B::ALL, T::ALL), FRAMES, |_| true), &ws("abc", if q { 3 } else { 4 }), 1);
    if !q {
        independence(c, "every operator, size 4", &exactly(&space("'a|(Tokens ab)", U::ALL, B::ALL, T::ALL), 4, |_| true), &ws("ab", 2), 1);
    }
}

fn main() {
    mc_rt::main(|p, c| match p {
        "P09" => p09(c),
        "P10" => p10(c),
        "P11" => p11(c),
        _ => panic!("unknown property {}", p),
    })
}
