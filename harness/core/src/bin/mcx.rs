//! P15: parsing from a reader which is interrupted or fails.
use combine::easy;
use combine::error::ParseResult::*;
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{buffered, read, Positioned, RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce};
use combine::Parser;
use mc_core::gram::*;
use mc_core::real::{build, In};
use mc_core::refsem::{Ref, BROKEN, R};
use mc_core::spaces::*;
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, W};
use std::io::{self, Read};
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

type Words = Vec<(&'static str, Vec<char>)>;
fn ws(al: &str, n: usize) -> Words {
    words(al, n).into_iter().map(|w| (w, w.chars().collect())).collect()
}
fn desc(g: &Arc<G>) -> String {
    format!("{:?}", g)
}

const IO: &str = "the disk is on fire";
/// The ways to fail; being interrupted is not one.
use io::ErrorKind::*;
const KINDS: &[io::ErrorKind] = &[
    Other, UnexpectedEof, WouldBlock, TimedOut, BrokenPipe, ConnectionReset, ConnectionAborted, InvalidData, InvalidInput, WriteZero, NotFound,
    PermissionDenied, NotConnected, AddrInUse, AlreadyExists, ConnectionRefused, OutOfMemory, Unsupported, AddrNotAvailable,
];

/// Gives the bytes one at a time, is interrupted before those in `stops`, and after the last one
/// either ends or fails for good.
struct Reader {
    data: &'static [u8],
    stops: u32,
    at: usize,
    interrupted: bool,
    fails: Option<io::ErrorKind>,
}
impl Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.stops >> self.at & 1 == 1 && !self.interrupted {
            self.interrupted = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        match self.data.get(self.at) {
            Some(b) => {
                buf[0] = *b;
                self.at += 1;
                self.interrupted = false;
                Ok(1)
            }
            None => self.fails.map_or(Ok(0), |k| Err(io::Error::new(k, IO))),
        }
    }
}

/// The grammars are written for characters.
struct Chars(read::Stream<Reader>);
impl StreamOnce for Chars {
    type Token = char;
    type Range = &'static str;
    type Position = usize;
    type Error = read::Error;
    fn uncons(&mut self) -> Result<char, read::Error> {
        self.0.uncons().map(char::from)
    }
}

/// ... which hand out ranges; those run here use none of the range operations.
struct NoRange<S>(S);
impl<S: StreamOnce> StreamOnce for NoRange<S> {
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<S>> {
        self.0.uncons()
    }
    fn is_partial(&self) -> bool {
        self.0.is_partial()
    }
}
impl<S: Positioned> Positioned for NoRange<S> {
    fn position(&self) -> S::Position {
        self.0.position()
    }
}
impl<S: ResetStream> ResetStream for NoRange<S> {
    type Checkpoint = S::Checkpoint;
    fn checkpoint(&self) -> S::Checkpoint {
        self.0.checkpoint()
    }
    fn reset(&mut self, c: S::Checkpoint) -> Result<(), S::Error> {
        self.0.reset(c)
    }
}
impl<S: ResetStream> RangeStreamOnce for NoRange<S> {
    fn uncons_range(&mut self, _: usize) -> Result<S::Range, StreamErrorFor<Self>> {
        unreachable!()
    }
    fn uncons_while<F: FnMut(S::Token) -> bool>(&mut self, _: F) -> Result<S::Range, StreamErrorFor<Self>> {
        unreachable!()
    }
    fn distance(&self, _: &S::Checkpoint) -> usize {
        unreachable!()
    }
    fn range(&self) -> S::Range {
        unreachable!()
    }
}

type Pos = position::Stream<Chars, IndexPositioner>;
type Plain = NoRange<buffered::Stream<Pos>>;
/// Errors which say what happened.
type Easy = NoRange<buffered::Stream<easy::Stream<Pos>>>;

fn pos(r: Reader) -> Pos {
    position::Stream::with_positioner(Chars(read::Stream::new(r)), IndexPositioner::default())
}

fn outcome<I: In<Position = usize>>(g: &Arc<G>, mut i: I) -> (R, Option<I::Error>) {
    let r = build::<I>(g).parse_stream(&mut i);
    let end = i.position();
    match r {
        CommitOk(v) => (R::Ok { v, end, com: true }, None),
        PeekOk(v) => (R::Ok { v, end, com: false }, None),
        CommitErr(e) => (R::Err { com: true }, Some(e)),
        PeekErr(e) => (R::Err { com: false }, Some(e.error)),
    }
}

fn has_io(e: &easy::Errors<char, &'static str, usize>) -> bool {
    e.errors.iter().any(|e| matches!(e, easy::Error::Other(m) if m.to_string() == IO))
}

/// Parts which can fail without having looked at the input.
fn fails_by_itself(g: &G) -> bool {
    let s = format!("{:?}", g);
    ["Unexpected", "AndThen", "Not "].iter().any(|x| s.contains(x))
}

fn terms(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words, interrupt: bool, kinds: &[io::ErrorKind]) {
    c.sweep(name, terms, desc, |k: &mut W, g| {
        for (w, ch) in ws {
            for kind in std::iter::once(None).chain(kinds.iter().copied().map(Some)) {
                let fails = kind.is_some();
                BROKEN.with(|b| b.set(fails));
                let want = Ref { w: ch }.run(g, 0);
                BROKEN.with(|b| b.set(false));
                for stops in 0..(if interrupt { 1 << (ch.len() + 1) } else { 1u32 }) {
                    let rd = || Reader { data: w.as_bytes(), stops, at: 0, interrupted: false, fails: kind };
                    let bad = |d: String| viol(format!("{:?} {:?} {}", w, kind, stops), format!("input {:?}{}, interrupted at {:b}: {}", w, kind.map_or(String::new(), |k| format!(" then a failure ({:?})", k)), stops, d));
                    let look = ch.len() + 2;
                    let (got, e) = no_panic(|| outcome(g, NoRange(buffered::Stream::new(pos(rd()), look)) as Plain)).map_err(|m| bad(format!("panicked: {}", m)))?;
                    let (got2, e2) = no_panic(|| outcome(g, NoRange(buffered::Stream::new(easy::Stream(pos(rd())), look)) as Easy)).map_err(|m| bad(format!("easy: panicked: {}", m)))?;
                    k.transitions += 2;
                    k.states += 1;
                    k.traces += 2;
                    if got != want || got2 != want {
                        return Err(bad(format!("want {:?}, got {:?} and, with easy errors, {:?}", want, got, got2)));
                    }
                    if let (Some(e), Some(e2)) = (e, e2) {
                        let io = has_io(&e2);
                        let end = e2.position == ch.len();
                        if fails && end && !io && !fails_by_itself(g) {
                            return Err(bad(format!("the failure is missing from {:?}", e2)));
                        }
                        if io && !fails {
                            return Err(bad(format!("{:?} though the reader did not fail", e2)));
                        }
                        if fails && e2.errors.contains(&easy::Error::end_of_input()) {
                            return Err(bad(format!("{:?} though the input never ended", e2)));
                        }
                        match e {
                            read::Error::Io(m) => {
                                if Some(m.kind()) != kind || m.to_string() != IO {
                                    return Err(bad(format!("{:?}", m)));
                                }
                                k.outcome("failure reported");
                            }
                            e => {
                                if io || fails && e == read::Error::EndOfInput {
                                    return Err(bad(format!("{:?} though the reader failed: {:?}", e, e2)));
                                }
                                k.outcome(if end { "end of input" } else { "rejected" });
                            }
                        }
                    } else {
                        k.outcome("accepted");
                    }
                }
            }
        }
        k.sample(|| format!("{:?} on {} words", g, ws.len()));
        Ok(())
    });
}

fn run_prop(prop: &str, c: &mut Ctx) {
    if prop != "P15" {
        panic!("unknown property {}", prop);
    }
    let q = c.quick();
    c.assume("a reader which failed keeps failing; grammars use no range parser (readers have none)");
    let tok = |u: &[U], b: &[B], t: &[T], l: &str| space(l, u, b, t);
    let us: Vec<U> = U::ALL.iter().copied().filter(|u| !matches!(u, U::RangeRecognize | U::RecognizeWithValue | U::LengthPrefix)).collect();
    let s3 = tok(&us, B::ALL, T::ALL, TOKEN_LEAVES);
    terms(c, "every operator and leaf, size 3", &upto(&s3, 3, |_| true), &ws("abc", if q { 3 } else { 4 }), false, &[Other, UnexpectedEof]);
    terms(c, "interrupted, size 2", &upto(&s3, 2, |_| true), &ws("abc", if q { 3 } else { 4 }), true, &[Other, WouldBlock]);
    terms(c, "every kind of failure, size 2", &upto(&s3, 2, |_| true), &ws("abc", if q { 3 } else { 4 }), false, KINDS);
    let lv: Vec<_> = framed(&level(PARTS, &us, B::ALL, T::ALL), FRAMES, |_| true);
    terms(c, "every operator over all kinds of parts, in all places", &lv, &ws("abc", if q { 3 } else { 4 }), false, &[UnexpectedEof]);
    let core = tok(&[U::Attempt, U::LookAhead, U::Not, U::Optional, U::Many, U::Expected], &[B::Seq, B::Or, B::Choice2, B::SepBy, B::SepEndBy, B::ChainR1], &[], "'a|Any|(Tokens ab)|Eof");
    terms(c, "core, size 5", &upto(&core, if q { 4 } else { 5 }, |_| true), &ws("ab", 4), false, &[Other]);
}

fn main() {
    mc_rt::main(run_prop)
}
