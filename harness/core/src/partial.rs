//! Drives a real parser over chunked input exactly like a `Decoder` does, one `decode` per chunk.
use crate::gram::G;
use crate::real::{build, DynState};
use crate::val::Val;
use combine::Parser;
use combine::stream::{decode, decode_tokio, MaybePartialStream};
use std::sync::Arc;

pub type PI = MaybePartialStream<&'static str>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Ok(Val, usize),
    Err,
    /// `decode` claimed to need more input after the end of input
    Stuck,
    Panic,
}

/// `cuts`: the increasing list of buffer ends at which `decode` is called with a partial stream.
/// After the last one the remaining input is offered as final.
pub fn run(g: &Arc<G>, w: &'static str, cuts: &[usize], state: &mut DynState, start: usize, calls: &mut u64) -> Out {
    run_step(
        &mut |s, state, last| if last { decode_tokio(build::<PI>(g), s, state).map_err(drop) } else { decode(build::<PI>(g), s, state).map_err(drop) },
        w,
        cuts,
        state,
        start,
        calls,
    )
}
/// Same with one parser value throughout.
pub fn run_by<P, S>(p: &mut P, w: &'static str, cuts: &[usize], state: &mut S, start: usize, calls: &mut u64) -> Out
where
    P: combine::Parser<PI, Output = Val, PartialState = S>,
{
    run_step(
        &mut |s, state, last| if last { decode_tokio(p.by_ref(), s, state).map_err(drop) } else { decode(p.by_ref(), s, state).map_err(drop) },
        w,
        cuts,
        state,
        start,
        calls,
    )
}
type Step<'a, S> = &'a mut dyn FnMut(&mut PI, &mut S, bool) -> Result<(Option<Val>, usize), ()>;
fn run_step<S>(step: Step<S>, w: &'static str, cuts: &[usize], state: &mut S, start: usize, calls: &mut u64) -> Out {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut consumed = start;
        for &c in cuts {
            if c < consumed {
                return Out::Panic;
            }
            let mut s: PI = MaybePartialStream(&w[consumed..c], true);
            *calls += 1;
            match step(&mut s, state, false) {
                Ok((Some(v), n)) => return Out::Ok(v, consumed + n),
                Ok((None, n)) => consumed += n,
                Err(_) => return Out::Err,
            }
        }
        let mut s: PI = MaybePartialStream(&w[consumed..], false);
        *calls += 1;
        match step(&mut s, state, true) {
            Ok((Some(v), n)) => Out::Ok(v, consumed + n),
            // "at end of input with nothing left": the decoder reports the end of the stream
            Ok((None, _)) => {
                if consumed == w.len() {
                    Out::Err
                } else {
                    Out::Stuck
                }
            }
            Err(_) => Out::Err,
        }
    }));
    r.unwrap_or(Out::Panic)
}

/// All subsets of cut points `0..=len` as increasing lists (a cut at 0 is a call with no data yet,
/// a cut at `len` is a call with everything but without the end-of-input mark).
pub fn all_cuts(w: &str) -> Vec<Vec<usize>> {
    let pts: Vec<usize> = (0..=w.len()).filter(|i| w.is_char_boundary(*i)).collect();
    let mut out = Vec::with_capacity(1 << pts.len());
    for m in 0u32..(1 << pts.len()) {
        out.push(pts.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, p)| *p).collect());
    }
    out
}

/// The outcome with its commit status, resuming with `parse_stream_partial` directly.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum OutC {
    Ok(Val, usize, bool),
    Err(bool),
    Panic,
}
pub fn run_commit(g: &Arc<G>, w: &'static str, cuts: &[usize], calls: &mut u64) -> OutC {
    run_commit_step(&mut |s, state: &mut DynState| build::<PI>(g).parse_stream_partial(s, state), w, cuts, calls)
}
pub fn run_commit_by<P: combine::Parser<PI, Output = Val>>(p: &mut P, w: &'static str, cuts: &[usize], calls: &mut u64) -> OutC {
    run_commit_step(&mut |s, state: &mut P::PartialState| p.parse_stream_partial(s, state), w, cuts, calls)
}
type CommitStep<'a, S> = &'a mut dyn FnMut(&mut PI, &mut S) -> combine::error::ParseResult<Val, <PI as combine::StreamOnce>::Error>;
fn run_commit_step<S: Default>(step: CommitStep<S>, w: &'static str, cuts: &[usize], calls: &mut u64) -> OutC {
    use combine::error::{ParseError, ParseResult::*};
    use combine::StreamOnce;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut state = S::default();
        let mut at = 0;
        for (k, c) in cuts.iter().copied().chain(Some(w.len())).enumerate() {
            if c < at {
                return OutC::Panic;
            }
            let partial = k < cuts.len();
            let mut s: PI = MaybePartialStream(&w[at..c], partial);
            *calls += 1;
            let r = step(&mut s, &mut state);
            let end = c - s.0.len();
            let (e, com) = match r {
                CommitOk(v) => return OutC::Ok(v, end, true),
                PeekOk(v) => return OutC::Ok(v, end, false),
                CommitErr(e) => (e, true),
                PeekErr(e) => (e.error, false),
            };
            if !(partial && <<PI as StreamOnce>::Error as ParseError<char, &'static str, <PI as StreamOnce>::Position>>::is_unexpected_end_of_input(&e)) {
                return OutC::Err(com);
            }
            at = end;
        }
        unreachable!()
    }));
    r.unwrap_or(OutC::Panic)
}
