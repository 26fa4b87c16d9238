//! A reader which follows a script: which read returns how many bytes, fails, or is not ready.
use std::cell::RefCell;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    /// up to this many bytes
    D(usize),
    /// not ready
    P,
    /// an error
    F,
}

#[derive(Default)]
pub struct Log {
    /// bytes handed out
    pub given: usize,
    pub reads: u64,
    pub eofs: u64,
    pub fails: u64,
    pub pends: u64,
    /// the code under test offered an empty buffer
    pub empty: bool,
    pub written: Vec<u8>,
    pub flushed: u32,
    pub shut: u32,
}

pub struct Rd {
    pub data: &'static [u8],
    pub sched: Vec<Ev>,
    pub at: usize,
    pub log: Rc<RefCell<Log>>,
}

pub const MANY: u64 = 4000;

impl Rd {
    pub fn new(data: &'static [u8], sched: &[Ev]) -> (Rd, Rc<RefCell<Log>>) {
        let log = Rc::new(RefCell::new(Log::default()));
        let mut sched = sched.to_vec();
        sched.reverse();
        (Rd { data, sched, at: 0, log: log.clone() }, log)
    }

    pub fn step(&mut self, buf: &mut [u8], may_pend: bool) -> Poll<io::Result<usize>> {
        let mut l = self.log.borrow_mut();
        l.reads += 1;
        assert!(l.reads < MANY, "the reader is polled without end");
        if buf.is_empty() {
            l.empty = true;
            return Poll::Ready(Ok(0));
        }
        loop {
            let ev = self.sched.pop();
            let n = match ev {
                Some(Ev::P) => {
                    if !may_pend {
                        continue;
                    }
                    l.pends += 1;
                    return Poll::Pending;
                }
                Some(Ev::F) => {
                    l.fails += 1;
                    return Poll::Ready(Err(io::Error::new(FAILURES[self.at % FAILURES.len()], "scripted")));
                }
                Some(Ev::D(n)) => n,
                None => usize::MAX,
            };
            let k = n.min(self.data.len() - self.at).min(buf.len());
            if k < n && k < self.data.len() - self.at {
                self.sched.push(Ev::D(n - k));
            }
            if k == 0 {
                l.eofs += 1;
            }
            buf[..k].copy_from_slice(&self.data[self.at..self.at + k]);
            self.at += k;
            l.given += k;
            return Poll::Ready(Ok(k));
        }
    }
}

impl io::Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.step(buf, false) {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
}
fn wake(cx: &mut Context<'_>, r: &Poll<io::Result<usize>>) {
    if r.is_pending() {
        cx.waker().wake_by_ref();
    }
}
impl futures_io::AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let r = self.step(buf, true);
        wake(cx, &r);
        r
    }
}
impl tokio_02_dep::io::AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let r = self.step(buf, true);
        wake(cx, &r);
        r
    }
}
macro_rules! read_buf {
    ($tokio: ident) => {
        impl $tokio::io::AsyncRead for Rd {
            fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut $tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
                let mut tmp = vec![0; buf.remaining()];
                let r = self.step(&mut tmp, true);
                wake(cx, &r);
                match r {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                    Poll::Ready(Ok(n)) => {
                        buf.put_slice(&tmp[..n]);
                        Poll::Ready(Ok(()))
                    }
                }
            }
        }
    };
}
read_buf!(tokio_03_dep);
read_buf!(tokio_dep);

macro_rules! write {
    ($tokio: ident) => {
        impl $tokio::io::AsyncWrite for Rd {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                // short writes of at most two bytes
                let n = buf.len().min(2);
                self.log.borrow_mut().written.extend(&buf[..n]);
                Poll::Ready(Ok(n))
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.log.borrow_mut().flushed += 1;
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.log.borrow_mut().shut += 1;
                Poll::Ready(Ok(()))
            }
        }
    };
}
write!(tokio_02_dep);
write!(tokio_03_dep);
write!(tokio_dep);

/// A waker which counts how often it was called.
pub mod wk {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::Arc;
    use std::task::{Wake, Waker};
    #[derive(Default)]
    pub struct Cnt(pub AtomicU64);
    impl Wake for Cnt {
        fn wake(self: Arc<Self>) {
            self.0.fetch_add(1, SeqCst);
        }
    }
    pub fn new() -> (Arc<Cnt>, Waker) {
        let c = Arc::new(Cnt::default());
        (c.clone(), c.into())
    }
}

/// Every way to cut `n` bytes into non-empty reads.
pub fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for m in 0..1u32 << (n - 1) {
        let mut c = vec![];
        let mut last = 0;
        for i in 1..n {
            if m >> (i - 1) & 1 == 1 {
                c.push(i - last);
                last = i;
            }
        }
        c.push(n - last);
        out.push(c);
    }
    out
}

/// Every way to insert at most `k` of the events `evs` before reads of `c` (the last place is before
/// the read which finds the end).
pub fn inject(c: &[usize], evs: &[Ev], k: usize) -> Vec<Vec<Ev>> {
    let mut out = vec![];
    fn go(c: &[usize], i: usize, evs: &[Ev], k: usize, cur: &mut Vec<Ev>, out: &mut Vec<Vec<Ev>>) {
        if i == c.len() {
            out.push(cur.clone());
        } else {
            cur.push(Ev::D(c[i]));
            go(c, i + 1, evs, k, cur, out);
            cur.pop();
        }
        if k > 0 {
            for e in evs {
                cur.push(*e);
                go(c, i, evs, k - 1, cur, out);
                cur.pop();
            }
        }
    }
    go(c, 0, evs, k, &mut vec![], &mut out);
    out
}

/// A failure is a failure, whatever its kind.
pub const FAILURES: [io::ErrorKind; 3] = [io::ErrorKind::UnexpectedEof, io::ErrorKind::Other, io::ErrorKind::WouldBlock];
