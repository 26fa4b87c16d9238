//! One session of each `decode!` macro: consecutive messages from one decoder and one reader.
use crate::script::{wk, Rd};
use combine::stream::buf_reader::BufReader;
use combine::stream::decoder::Error;
use combine::stream::position::{self, SourcePosition};
use combine::stream::{Decoder, MaybePartialStream, StreamOnce};
use combine::{decode, decode_futures_03, decode_tokio, decode_tokio_02, decode_tokio_03};
use mc_core::gram::G;
use mc_core::real::{build, DynState};
use mc_core::val::Val;
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll};

pub type S = position::Stream<MaybePartialStream<&'static str>, SourcePosition>;

#[derive(Debug, PartialEq, Clone)]
pub enum Got {
    Ok(Val),
    Parse,
    Io(SourcePosition),
}

fn text(i: MaybePartialStream<&[u8]>) -> MaybePartialStream<&'static str> {
    // Only used while the buffer is borrowed: the values and states of the grammars own their data.
    let s: &'static [u8] = unsafe { std::mem::transmute(i.0) };
    MaybePartialStream(std::str::from_utf8(s).expect("ASCII input"), i.1)
}
fn stream(i: MaybePartialStream<&[u8]>, p: SourcePosition) -> S {
    position::Stream::with_positioner(text(i), p)
}
fn got(r: Result<Val, Error<<S as StreamOnce>::Error, SourcePosition>>) -> Got {
    match r {
        Ok(v) => Got::Ok(v),
        Err(Error::Parse(_)) => Got::Parse,
        Err(Error::Io { position, error }) => {
            assert!(error.to_string() == "scripted", "another io error: {}", error);
            Got::Io(position)
        }
    }
}

pub trait Session {
    /// Decodes the next message. `cancel`: when the reader is not ready, drop the future and start
    /// the macro again instead of polling it again.
    fn next(&mut self, cancel: bool) -> Got;
    fn leftover(&self) -> Vec<u8>;
    fn position(&self) -> SourcePosition;
}

struct Own<'a> {
    d: Decoder<DynState, SourcePosition>,
    r: Rd,
    g: &'a Arc<G>,
}
struct Ext<'a> {
    d: Decoder<DynState, SourcePosition, combine::stream::buf_reader::Bufferless>,
    r: BufReader<Rd>,
    g: &'a Arc<G>,
}

/// Polls `f` until it is done, or until it is first not ready if `cancel`.
pub fn drive<T>(f: impl Future<Output = T>, cancel: bool) -> Option<T> {
    let mut f = Box::pin(f);
    let (cnt, waker) = wk::new();
    let mut cx = Context::from_waker(&waker);
    let mut polls = 0u64;
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(t) => return Some(t),
            Poll::Pending => {
                polls += 1;
                assert_eq!(cnt.0.load(std::sync::atomic::Ordering::SeqCst), polls, "the task's waker did not reach the reader");
                if cancel {
                    return None;
                }
            }
        }
    }
}

macro_rules! api {
    ($name: ident, $kind: ident, sync) => {
        struct $name<'a>($kind<'a>);
        impl Session for $name<'_> {
            fn next(&mut self, _: bool) -> Got {
                let g = self.0.g;
                got(decode!(self.0.d, self.0.r, build::<S>(g), stream))
            }
            api!(@rest $kind);
        }
    };
    ($name: ident, $kind: ident, $mac: ident) => {
        struct $name<'a>($kind<'a>);
        impl Session for $name<'_> {
            fn next(&mut self, cancel: bool) -> Got {
                loop {
                    let g = self.0.g;
                    let me = &mut self.0;
                    if let Some(r) = drive(async { $mac!(me.d, me.r, build::<S>(g), stream) }, cancel) {
                        return got(r);
                    }
                }
            }
            api!(@rest $kind);
        }
    };
    (@rest Own) => {
        fn leftover(&self) -> Vec<u8> { self.0.d.buffer().to_vec() }
        fn position(&self) -> SourcePosition { *self.0.d.position() }
    };
    (@rest Ext) => {
        fn leftover(&self) -> Vec<u8> { self.0.r.buffer().to_vec() }
        fn position(&self) -> SourcePosition { *self.0.d.position() }
    };
}
api!(SyncOwn, Own, sync);
api!(SyncExt, Ext, sync);
api!(T02Own, Own, decode_tokio_02);
api!(T02Ext, Ext, decode_tokio_02);
api!(T03Own, Own, decode_tokio_03);
api!(T03Ext, Ext, decode_tokio_03);
api!(T1Own, Own, decode_tokio);
api!(T1Ext, Ext, decode_tokio);
api!(FutOwn, Own, decode_futures_03);
api!(FutExt, Ext, decode_futures_03);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Api {
    Sync,
    Tokio02,
    Tokio03,
    Tokio,
    Futures03,
}
pub const APIS: [Api; 5] = [Api::Sync, Api::Tokio02, Api::Tokio03, Api::Tokio, Api::Futures03];

/// `cap`: the capacity of the external `BufReader`, or none for the decoder's own buffer.
pub fn session<'a>(api: Api, cap: Option<usize>, g: &'a Arc<G>, r: Rd) -> Box<dyn Session + 'a> {
    macro_rules! own { ($t: ident) => { Box::new($t(Own { d: Decoder::new(), r, g })) } }
    macro_rules! ext { ($t: ident, $c: expr) => { Box::new($t(Ext { d: Decoder::new_bufferless(), r: BufReader::with_capacity($c, r), g })) } }
    match (api, cap) {
        (Api::Sync, None) => own!(SyncOwn),
        (Api::Sync, Some(c)) => ext!(SyncExt, c),
        (Api::Tokio02, None) => own!(T02Own),
        (Api::Tokio02, Some(c)) => ext!(T02Ext, c),
        (Api::Tokio03, None) => own!(T03Own),
        (Api::Tokio03, Some(c)) => ext!(T03Ext, c),
        (Api::Tokio, None) => own!(T1Own),
        (Api::Tokio, Some(c)) => ext!(T1Ext, c),
        (Api::Futures03, None) => own!(FutOwn),
        (Api::Futures03, Some(c)) => ext!(FutExt, c),
    }
}
