//! `BufReader` by every interface, under every sequence of operations and every read schedule.
use crate::script::{Ev, Log, Rd};
use combine::stream::buf_reader::BufReader;
use std::cell::RefCell;
use std::io::{self, BufRead, Read};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Read(usize),
    Fill,
    /// consume as many buffered bytes, at most what is buffered
    Consume(usize),
    /// decode one byte with a decoder without its own buffer
    Decode,
    Write,
    Flush,
    Shut,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Sync,
    Tokio02,
    Tokio03,
    Tokio,
}
pub const KINDS: [Kind; 4] = [Kind::Sync, Kind::Tokio02, Kind::Tokio03, Kind::Tokio];

enum Res {
    Bytes(Vec<u8>),
    Pend,
    Fail,
    Unit,
    /// the decoded byte, or an end of input
    Dec(Option<u8>),
}

fn io(r: Poll<io::Result<Vec<u8>>>) -> Res {
    match r {
        Poll::Pending => Res::Pend,
        Poll::Ready(Err(_)) => Res::Fail,
        Poll::Ready(Ok(v)) => Res::Bytes(v),
    }
}

fn exec(kind: Kind, r: &mut BufReader<Rd>, op: Op) -> Res {
    let mut cx = Context::from_waker(Waker::noop());
    match (kind, op) {
        (Kind::Sync, Op::Read(k)) => {
            let mut b = vec![0xEE; k];
            io(Poll::Ready(Read::read(r, &mut b).map(|n| {
                assert!(b[n..].iter().all(|x| *x == 0xEE), "wrote past what it reported");
                b[..n].to_vec()
            })))
        }
        (Kind::Sync, Op::Fill) => io(Poll::Ready(BufRead::fill_buf(r).map(|b| b.to_vec()))),
        (Kind::Sync, Op::Consume(n)) => {
            BufRead::consume(r, n);
            Res::Unit
        }
        (Kind::Sync, Op::Decode) => {
            let mut d = combine::stream::Decoder::<_, combine::stream::PointerOffset<[u8]>, _>::new_bufferless();
            match combine::decode!(d, *r, combine::any()) {
                Ok(b) => Res::Dec(Some(b)),
                Err(combine::stream::decoder::Error::Io { .. }) => Res::Fail,
                Err(combine::stream::decoder::Error::Parse(_)) => Res::Dec(None),
            }
        }
        (Kind::Tokio02, Op::Read(k)) => {
            let mut b = vec![0xEE; k];
            io(tokio_02_dep::io::AsyncRead::poll_read(Pin::new(r), &mut cx, &mut b).map_ok(|n| {
                assert!(b[n..].iter().all(|x| *x == 0xEE), "wrote past what it reported");
                b[..n].to_vec()
            }))
        }
        (Kind::Tokio02, Op::Fill) => io(tokio_02_dep::io::AsyncBufRead::poll_fill_buf(Pin::new(r), &mut cx).map_ok(|b| b.to_vec())),
        (Kind::Tokio02, Op::Consume(n)) => {
            tokio_02_dep::io::AsyncBufRead::consume(Pin::new(r), n);
            Res::Unit
        }
        (Kind::Tokio02, Op::Write) => io(tokio_02_dep::io::AsyncWrite::poll_write(Pin::new(r), &mut cx, b"xyz").map_ok(|n| vec![n as u8])),
        (Kind::Tokio02, Op::Flush) => io(tokio_02_dep::io::AsyncWrite::poll_flush(Pin::new(r), &mut cx).map_ok(|_| vec![])),
        (Kind::Tokio02, Op::Shut) => io(tokio_02_dep::io::AsyncWrite::poll_shutdown(Pin::new(r), &mut cx).map_ok(|_| vec![])),
        (Kind::Tokio03, Op::Read(k)) => {
            // a buffer which already holds something
            let mut b = vec![0xEE; k + 2];
            let mut rb = tokio_03_dep::io::ReadBuf::new(&mut b);
            rb.put_slice(b"~~");
            io(tokio_03_dep::io::AsyncRead::poll_read(Pin::new(r), &mut cx, &mut rb).map_ok(|_| {
                assert!(rb.filled().starts_with(b"~~"), "overwrote what the caller's buffer held");
                rb.filled()[2..].to_vec()
            }))
        }
        (Kind::Tokio03, Op::Fill) => io(tokio_03_dep::io::AsyncBufRead::poll_fill_buf(Pin::new(r), &mut cx).map_ok(|b| b.to_vec())),
        (Kind::Tokio03, Op::Consume(n)) => {
            tokio_03_dep::io::AsyncBufRead::consume(Pin::new(r), n);
            Res::Unit
        }
        (Kind::Tokio03, Op::Write) => io(tokio_03_dep::io::AsyncWrite::poll_write(Pin::new(r), &mut cx, b"xyz").map_ok(|n| vec![n as u8])),
        (Kind::Tokio03, Op::Flush) => io(tokio_03_dep::io::AsyncWrite::poll_flush(Pin::new(r), &mut cx).map_ok(|_| vec![])),
        (Kind::Tokio03, Op::Shut) => io(tokio_03_dep::io::AsyncWrite::poll_shutdown(Pin::new(r), &mut cx).map_ok(|_| vec![])),
        (Kind::Tokio, Op::Read(k)) => {
            let mut b = vec![0xEE; k + 2];
            let mut rb = tokio_dep::io::ReadBuf::new(&mut b);
            rb.put_slice(b"~~");
            io(tokio_dep::io::AsyncRead::poll_read(Pin::new(r), &mut cx, &mut rb).map_ok(|_| {
                assert!(rb.filled().starts_with(b"~~"), "overwrote what the caller's buffer held");
                rb.filled()[2..].to_vec()
            }))
        }
        (Kind::Tokio, Op::Fill) => io(tokio_dep::io::AsyncBufRead::poll_fill_buf(Pin::new(r), &mut cx).map_ok(|b| b.to_vec())),
        (Kind::Tokio, Op::Consume(n)) => {
            tokio_dep::io::AsyncBufRead::consume(Pin::new(r), n);
            Res::Unit
        }
        (Kind::Tokio, Op::Write) => io(tokio_dep::io::AsyncWrite::poll_write(Pin::new(r), &mut cx, b"xyz").map_ok(|n| vec![n as u8])),
        (Kind::Tokio, Op::Flush) => io(tokio_dep::io::AsyncWrite::poll_flush(Pin::new(r), &mut cx).map_ok(|_| vec![])),
        (Kind::Tokio, Op::Shut) => io(tokio_dep::io::AsyncWrite::poll_shutdown(Pin::new(r), &mut cx).map_ok(|_| vec![])),
        (Kind::Sync, _) => Res::Unit,
        // one poll of the future, dropped if it is not ready
        (Kind::Tokio02, Op::Decode) => one(async { let mut d = combine::stream::Decoder::<_, combine::stream::PointerOffset<[u8]>, _>::new_bufferless(); dec(combine::decode_tokio_02!(d, *r, combine::any())) }, &mut cx),
        (Kind::Tokio03, Op::Decode) => one(async { let mut d = combine::stream::Decoder::<_, combine::stream::PointerOffset<[u8]>, _>::new_bufferless(); dec(combine::decode_tokio_03!(d, *r, combine::any())) }, &mut cx),
        (Kind::Tokio, Op::Decode) => one(async { let mut d = combine::stream::Decoder::<_, combine::stream::PointerOffset<[u8]>, _>::new_bufferless(); dec(combine::decode_tokio!(d, *r, combine::any())) }, &mut cx),
    }
}
fn dec<E>(r: Result<u8, combine::stream::decoder::Error<E, combine::stream::PointerOffset<[u8]>>>) -> Res {
    match r {
        Ok(b) => Res::Dec(Some(b)),
        Err(combine::stream::decoder::Error::Io { .. }) => Res::Fail,
        Err(combine::stream::decoder::Error::Parse(_)) => Res::Dec(None),
    }
}
fn one(f: impl std::future::Future<Output = Res>, cx: &mut Context<'_>) -> Res {
    match Box::pin(f).as_mut().poll(cx) {
        Poll::Ready(r) => r,
        Poll::Pending => Res::Pend,
    }
}

/// Runs `ops`; the number of operations executed, or what went wrong.
pub fn check(kind: Kind, cap: usize, data: &'static [u8], sched: &[Ev], ops: &[Op]) -> Result<u64, String> {
    let (rd, log): (Rd, Rc<RefCell<Log>>) = Rd::new(data, sched);
    let mut r = BufReader::with_capacity(cap, rd);
    // bytes the caller got so far
    let mut used = 0;
    let mut written = vec![];
    let (mut fl, mut sh) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        let say = |m: String| Err(format!("operation {} ({:?}): {}", i, op, m));
        let held = r.buffer().len();
        let (reads, fails, pends, eofs) = { let l = log.borrow(); (l.reads, l.fails, l.pends, l.eofs) };
        let op = match *op {
            Op::Consume(n) => Op::Consume(n.min(held)),
            o => o,
        };
        let res = exec(kind, &mut r, op);
        let l = log.borrow();
        match (op, res) {
            (Op::Read(k), Res::Bytes(b)) => {
                if b.len() > k || data[used..].len() < b.len() || data[used..used + b.len()] != b[..] {
                    return say(format!("got {:?} at {}", b, used));
                }
                if b.is_empty() && k > 0 && l.eofs == eofs {
                    return say("reported the end of input although the reader did not".into());
                }
                used += b.len();
            }
            (Op::Fill, Res::Bytes(b)) => {
                if b.is_empty() && l.eofs == eofs {
                    return say("an empty buffer although the reader is not at its end".into());
                }
                if b != r.buffer() {
                    return say("fill_buf and buffer disagree".into());
                }
            }
            (Op::Consume(n), Res::Unit) => used += n,
            (Op::Decode, Res::Dec(Some(b))) => {
                if data.get(used) != Some(&b) {
                    return say(format!("decoded {} at {}", b, used));
                }
                used += 1;
            }
            (Op::Decode, Res::Dec(None)) => {
                if used != data.len() {
                    return say(format!("decoded the end of input at {}", used));
                }
            }
            (Op::Write, Res::Bytes(n)) => {
                let n = n[0] as usize;
                written.extend(&b"xyz"[..n]);
                if l.written != written {
                    return say(format!("reported {} bytes written, the writer has {:?}", n, l.written));
                }
            }
            (Op::Flush, Res::Bytes(_)) => {
                fl += 1;
                if l.flushed != fl {
                    return say("not flushed".into());
                }
            }
            (Op::Shut, Res::Bytes(_)) => {
                sh += 1;
                if l.shut != sh {
                    return say("not shut down".into());
                }
            }
            (Op::Write | Op::Flush | Op::Shut, Res::Unit) => {}
            (_, Res::Fail) => {
                if l.fails != fails + 1 {
                    return say("failed although the reader did not".into());
                }
            }
            (_, Res::Pend) => {
                if l.pends != pends + 1 {
                    return say("not ready although the reader was not asked or was ready".into());
                }
            }
            _ => return say("an answer of the wrong kind".into()),
        }
        if held > 0 && l.reads != reads {
            return say("asked the reader although bytes are buffered".into());
        }
        if l.empty {
            return say("read into an empty buffer".into());
        }
        let b = r.buffer();
        if b != &data[used..l.given] {
            return say(format!("used {}, read {}, but {:?} is buffered", used, l.given, b));
        }
    }
    Ok(ops.len() as u64)
}
