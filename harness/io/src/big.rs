//! Byte protocols through every form of every `decode!` macro, with messages and reads around the
//! sizes at which buffers grow.
use crate::dec::{drive, Api};
use crate::script::{Ev, Rd};
use combine::parser::byte::{num::be_u16, take_until_bytes};
use combine::parser::range::{recognize, take, take_until_range, take_while1};
use combine::parser::repeat::{count_min_max, many, skip_many1};
use combine::parser::token::{any, satisfy, token, value};
use combine::stream::buf_reader::BufReader;
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{state, Decoder, PointerOffset};
use combine::{decode, decode_futures_03, decode_tokio, decode_tokio_02, decode_tokio_03, Parser};
use combine::easy;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    /// three arguments: length-prefixed
    Len,
    /// three arguments with a trailing comma, a token loop
    Toks,
    /// four arguments: lines found with `take_until_range` through easy errors
    Lines,
    /// four arguments: searching for bytes
    Find,
    /// four arguments: an index positioner which continues over messages, recognizing
    Index,
    /// five arguments: a user state observed after every parse
    State,
}
pub const FORMS: [Form; 6] = [Form::Len, Form::Toks, Form::Lines, Form::Find, Form::Index, Form::State];

fn fill(seed: usize, i: usize) -> u8 {
    // never a line end, never zero
    let b = ((i * 7 + seed * 31 + i / 251) % 200 + 32) as u8;
    b
}

impl Form {
    pub fn encode(self, lens: &[usize]) -> (Vec<u8>, Vec<Vec<u8>>) {
        let mut out = vec![];
        let mut msgs = vec![];
        for (k, n) in lens.iter().enumerate() {
            let m: Vec<u8> = (0..*n).map(|i| fill(k, i)).collect();
            if self == Form::Len {
                out.extend((*n as u16).to_be_bytes());
                out.extend(&m);
            } else {
                out.extend(&m);
                out.extend(match self {
                    Form::Lines => &b"\r\n"[..],
                    Form::Find => &b"\r\r\n"[..],
                    _ => &b"\n"[..],
                });
            }
            msgs.push(m);
        }
        (out, msgs)
    }
}

pub struct Seen {
    pub msgs: Vec<Vec<u8>>,
    pub left: Vec<u8>,
    /// positions after each message, where the form tracks them
    pub pos: Vec<usize>,
    /// how many tokens the user state counted, where the form has one
    pub count: usize,
    pub err: Option<String>,
}

macro_rules! run_form {
    ($form: expr, $n: expr, $r: expr, $dec: ident, $left: expr, $mac: ident, $poll: ident) => {{
        let mut seen = Seen { msgs: vec![], left: vec![], pos: vec![], count: 0, err: None };
        match $form {
            Form::Len => {
                let mut r = $r;
                let mut d = Decoder::<_, PointerOffset<[u8]>, _>::$dec();
                for _ in 0..$n {
                    match $poll!($mac!(d, r, be_u16().then_partial(|n: &mut u16| take(*n as usize)).map(|b: &[u8]| b.to_vec()))) {
                        Ok(v) => seen.msgs.push(v),
                        Err(e) => { seen.err = Some(format!("{}", e)); break }
                    }
                }
                seen.left = $left(&d, &r);
            }
            Form::Toks => {
                let mut r = $r;
                let mut d = Decoder::<_, PointerOffset<[u8]>, _>::$dec();
                for _ in 0..$n {
                    match $poll!($mac!(d, r, many(satisfy(|b: u8| b != b'\n')).skip(token(b'\n')),)) {
                        Ok(v) => { let v: Vec<u8> = v; seen.msgs.push(v) }
                        Err(e) => { seen.err = Some(format!("{}", e)); break }
                    }
                }
                seen.left = $left(&d, &r);
            }
            Form::Lines => {
                let mut r = $r;
                let mut d = Decoder::<_, PointerOffset<[u8]>, _>::$dec();
                for _ in 0..$n {
                    // the error borrows from the decoder and must be turned into text before it leaves the future
                    match $poll!($mac!(
                        d,
                        r,
                        take_until_range(&b"\r\n"[..]).map(|b: &[u8]| b.to_vec()).skip(token(b'\r')).skip(token(b'\n')),
                        |input, _position| easy::Stream::from(input),
                    ).map_err(|e| format!("{:?}", combine::easy::Errors::<u8, &[u8], _>::from(e).errors))) {
                        Ok(v) => seen.msgs.push(v),
                        Err(e) => { seen.err = Some(e); break }
                    }
                }
                seen.left = $left(&d, &r);
            }
            Form::Find => {
                let mut r = $r;
                let mut d = Decoder::<_, PointerOffset<[u8]>, _>::$dec();
                for _ in 0..$n {
                    match $poll!($mac!(
                        d,
                        r,
                        take_until_bytes(b"\r\r\n").map(|b: &[u8]| b.to_vec()).skip(count_min_max(3, 3, any()).map(|v: Vec<u8>| v)),
                        |input, _position| input
                    )) {
                        Ok(v) => seen.msgs.push(v),
                        Err(e) => { seen.err = Some(format!("{}", e)); break }
                    }
                }
                seen.left = $left(&d, &r);
            }
            Form::Index => {
                let mut r = $r;
                let mut d = Decoder::<_, usize, _>::$dec();
                for _ in 0..$n {
                    match $poll!($mac!(
                        d,
                        r,
                        recognize(skip_many1(satisfy(|b: u8| b != b'\n'))).map(|b: &[u8]| b.to_vec()).or(value(vec![])).skip(token(b'\n')),
                        |input, position| position::Stream::with_positioner(input, IndexPositioner::new_with_position(position))
                    )) {
                        Ok(v) => seen.msgs.push(v),
                        Err(e) => { seen.err = Some(format!("{}", e)); break }
                    }
                    seen.pos.push(*d.position());
                }
                seen.left = $left(&d, &r);
            }
            Form::State => {
                let mut r = $r;
                let mut d = Decoder::<_, PointerOffset<[u8]>, _>::$dec();
                let mut total = 0usize;
                for _ in 0..$n {
                    let mut here = 0usize;
                    match $poll!($mac!(
                        d,
                        r,
                        many::<Vec8, _, _>(
                            take_while1(|b: u8| b != b'\n' && b != 77).map(|b: &[u8]| b.to_vec()).or(token(77u8).map(|b| vec![b]))
                                .map_input(|v: Vec<u8>, i: &mut state::Stream<_, usize>| { i.state += v.len(); v })
                                .map(Bytes)
                        ).map(|v: Vec8| v.0).skip(token(b'\n')),
                        |input, _position| state::Stream { stream: input, state: 0usize },
                        |s| here += s.state
                    )) {
                        Ok(v) => seen.msgs.push(v),
                        Err(e) => { seen.err = Some(format!("{}", e)); break }
                    }
                    total += here;
                }
                seen.count = total;
                seen.left = $left(&d, &r);
            }
        }
        seen
    }};
}

/// Extends a vector of bytes with several at once.
pub struct Bytes(Vec<u8>);
impl Extend<Bytes> for Vec8 {
    fn extend<T: IntoIterator<Item = Bytes>>(&mut self, t: T) {
        for b in t {
            self.0.extend(b.0);
        }
    }
}
#[derive(Default)]
pub struct Vec8(pub Vec<u8>);

macro_rules! poll_sync { ($e: expr) => { $e }; }
macro_rules! poll_async { ($e: expr) => { drive(async { $e }, false).unwrap() }; }

pub fn run(form: Form, api: Api, cap: Option<usize>, n: usize, data: &'static [u8], sched: &[Ev]) -> Seen {
    macro_rules! go {
        ($mac: ident, $poll: ident) => {
            match cap {
                None => run_form!(form, n, Rd::new(data, sched).0, new, (|d: &Decoder<_, _>, _: &Rd| d.buffer().to_vec()), $mac, $poll),
                Some(c) => run_form!(form, n, BufReader::with_capacity(c, Rd::new(data, sched).0), new_bufferless, (|_: &Decoder<_, _, _>, r: &BufReader<Rd>| r.buffer().to_vec()), $mac, $poll),
            }
        };
    }
    match api {
        Api::Sync => go!(decode, poll_sync),
        Api::Tokio02 => go!(decode_tokio_02, poll_async),
        Api::Tokio03 => go!(decode_tokio_03, poll_async),
        Api::Tokio => go!(decode_tokio, poll_async),
        Api::Futures03 => go!(decode_futures_03, poll_async),
    }
}
