//! P08: every kind of stream × every content × every sequence of stream operations, against a list.
use combine::easy;
use combine::stream::position::{self, IndexPositioner, Positioner, RangePositioner, SourcePosition};
use combine::stream::span::{self, Span};
use combine::stream::{state, CompleteStream, IteratorStream, MaybePartialStream, PartialStream, PointerOffset, SliceStream};
use mc_core::drv::*;
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, Viol, W};

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

/// One input in all the forms the streams take it.
struct Content {
    s: &'static str,
    chars: &'static [u32],
    strings: &'static [String],
}
impl Content {
    fn new(s: &'static str) -> Content {
        Content {
            s,
            chars: Box::leak(s.chars().map(|c| c as u32).collect::<Vec<_>>().into_boxed_slice()),
            strings: Box::leak(s.chars().map(|c| c.to_string()).collect::<Vec<_>>().into_boxed_slice()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum View {
    Str,
    Bytes,
    Items,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum PosM {
    /// distance from the start of the input, in units
    Ptr,
    Index,
    Source,
    /// (tokens taken, sum of their codes)
    Custom,
}

struct Kind {
    name: &'static str,
    view: View,
    posm: PosM,
    partial: bool,
    with: Box<dyn Fn(&Content, &mut dyn FnMut(&mut dyn Drv)) + Sync + Send>,
}

#[derive(Clone, Debug, Default)]
struct Custom(i64, i64);
impl Positioner<char> for Custom {
    type Position = (i64, i64);
    type Checkpoint = Custom;
    fn position(&self) -> (i64, i64) {
        (self.0, self.1)
    }
    fn update(&mut self, c: &char) {
        self.0 += 1;
        self.1 += *c as i64;
    }
    fn checkpoint(&self) -> Custom {
        self.clone()
    }
    fn reset(&mut self, c: Custom) {
        *self = c;
    }
}
impl RangePositioner<char, &'static str> for Custom {
    fn update_range(&mut self, r: &&'static str) {
        for c in r.chars() {
            self.update(&c)
        }
    }
}

fn ct(c: &char) -> u32 {
    *c as u32
}
fn bt(c: &u8) -> u32 {
    *c as u32
}
fn ut(c: &u32) -> u32 {
    *c
}
fn st(c: &String) -> u32 {
    c.chars().next().unwrap() as u32
}
fn rut(c: &&'static u32) -> u32 {
    **c
}
fn srcp(p: &SourcePosition) -> Pos {
    (p.line as i64, p.column as i64)
}
fn idxp(p: &usize) -> Pos {
    (*p as i64, 0)
}
fn cusp(p: &(i64, i64)) -> Pos {
    *p
}
fn spn<P: PartialEq>(f: impl Fn(&P) -> Pos) -> impl Fn(&Span<P>) -> Pos {
    move |s| if s.start == s.end { f(&s.start) } else { (-99, -99) }
}
fn strp(base: usize) -> impl Fn(&PointerOffset<str>) -> Pos {
    move |p| (p.0 as i64 - base as i64, 0)
}
fn slip<T>(base: usize) -> impl Fn(&PointerOffset<[T]>) -> Pos {
    move |p| ((p.0 as i64 - base as i64) / std::mem::size_of::<T>() as i64, 0)
}
fn strr(base: usize) -> impl Fn(&&'static str) -> Rg {
    move |r| Rg { toks: r.chars().map(|c| c as u32).collect(), at: Some(r.as_ptr() as i64 - base as i64) }
}
fn slir<T>(base: usize, t: fn(&T) -> u32) -> impl Fn(&&'static [T]) -> Rg {
    move |r| Rg { toks: r.iter().map(t).collect(), at: Some((r.as_ptr() as i64 - base as i64) / std::mem::size_of::<T>() as i64) }
}

fn kinds() -> Vec<Kind> {
    use PosM::*;
    use View::*;
    let mut v: Vec<Kind> = Vec::new();
    macro_rules! k {
        ($name:expr, $view:expr, $posm:expr, $partial:expr, |$c:ident, $b:ident| $base:expr, $s:expr, $t:expr, $r:expr, $p:expr) => {
            v.push(Kind {
                name: $name,
                view: $view,
                posm: $posm,
                partial: $partial,
                with: Box::new(|$c, k| {
                    let $b: usize = $base;
                    let _ = $b;
                    k(&mut Rng(Wr { s: $s, cps: vec![], t: $t, r: $r, p: $p }))
                }),
            })
        };
    }
    macro_rules! ks {
        ($name:expr, $posm:expr, $partial:expr, |$c:ident, $b:ident| $s:expr, $p:expr) => {
            k!($name, Str, $posm, $partial, |$c, $b| $c.s.as_ptr() as usize, $s, ct, strr($b), $p)
        };
    }
    fn pos(s: &'static str) -> position::Stream<&'static str, SourcePosition> {
        position::Stream::new(s)
    }
    ks!("&str", Ptr, false, |c, b| c.s, strp(b));
    ks!("PartialStream<&str>", Ptr, true, |c, b| PartialStream(c.s), strp(b));
    ks!("PartialStream from", Ptr, true, |c, b| PartialStream::from(c.s), strp(b));
    ks!("CompleteStream<&str>", Ptr, false, |c, b| CompleteStream(c.s), strp(b));
    ks!("CompleteStream<PartialStream<&str>>", Ptr, false, |c, b| CompleteStream::from(PartialStream(c.s)), strp(b));
    ks!("MaybePartialStream(&str, true)", Ptr, true, |c, b| MaybePartialStream(c.s, true), strp(b));
    ks!("MaybePartialStream(&str, false)", Ptr, false, |c, b| MaybePartialStream(c.s, false), strp(b));
    ks!("position::Stream<&str>", Source, false, |c, b| pos(c.s), srcp);
    ks!("position::Stream<PartialStream<&str>>", Source, true, |c, b| position::Stream::with_positioner(PartialStream(c.s), SourcePosition::new()), srcp);
    ks!("PartialStream<position::Stream<&str>>", Source, true, |c, b| PartialStream(pos(c.s)), srcp);
    ks!("position::Stream<&str, Custom>", Custom, false, |c, b| position::Stream::with_positioner(c.s, self::Custom::default()), cusp);
    ks!("position::Stream<&str, &mut Custom>", Custom, false, |c, b| position::Stream::with_positioner(c.s, &mut self::Custom::default()), cusp);
    ks!("position::Stream<&str, &mut SourcePosition>", Source, false, |c, b| position::Stream::with_positioner(c.s, &mut SourcePosition::default()), srcp);
    ks!("position::Stream<&str, Index>", Index, false, |c, b| position::Stream::with_positioner(c.s, IndexPositioner::new()), idxp);
    ks!("easy::Stream<&str>", Ptr, false, |c, b| easy::Stream(c.s), strp(b));
    ks!("easy::Stream<PartialStream<&str>>", Ptr, true, |c, b| easy::Stream::from(PartialStream(c.s)), strp(b));
    ks!("PartialStream<easy::Stream<&str>>", Ptr, true, |c, b| PartialStream(easy::Stream(c.s)), strp(b));
    ks!("easy::Stream<position::Stream<&str>>", Source, false, |c, b| easy::Stream(pos(c.s)), srcp);
    ks!("MaybePartial<easy<position<&str>>>", Source, true, |c, b| MaybePartialStream(easy::Stream(pos(c.s)), true), srcp);
    ks!("state::Stream<&str>", Ptr, false, |c, b| state::Stream { stream: c.s, state: 7u8 }, strp(b));
    ks!("state::Stream<PartialStream<position<&str>>>", Source, true, |c, b| state::Stream { stream: PartialStream(pos(c.s)), state: 7u8 }, srcp);
    ks!("easy<state<position<&str>>>", Source, false, |c, b| easy::Stream(state::Stream { stream: pos(c.s), state: () }), srcp);
    ks!("span::Stream<&str>", Ptr, false, |c, b| span::Stream::<_, easy::Errors<char, &'static str, Span<PointerOffset<str>>>>::from(c.s), spn(strp(b)));
    ks!("span::Stream<PartialStream<position>>", Source, true, |c, b| span::Stream::<_, easy::Errors<char, &'static str, Span<SourcePosition>>>::from(PartialStream(pos(c.s))), spn(srcp));
    ks!("span::Stream<easy<position>>", Source, false, |c, b| span::Stream::<_, easy::Errors<char, &'static str, Span<SourcePosition>>>::from(easy::Stream(pos(c.s))), spn(srcp));
    ks!("&mut &str", Ptr, false, |c, b| &mut { c.s }, strp(b));
    ks!("&mut PartialStream<position::Stream<&str>>", Source, true, |c, b| &mut PartialStream(pos(c.s)), srcp);
    ks!("&mut &mut easy::Stream<&str>", Ptr, false, |c, b| &mut &mut easy::Stream(c.s), strp(b));
    ks!("&mut CompleteStream from &mut PartialStream", Source, false, |c, b| <&mut CompleteStream<_>>::from(&mut PartialStream(pos(c.s))), srcp);
    ks!("PartialStream<&mut &str>", Ptr, true, |c, b| PartialStream(&mut { c.s }), strp(b));
    macro_rules! kb {
        ($name:expr, $posm:expr, $partial:expr, |$c:ident, $b:ident| $s:expr, $p:expr) => {
            k!($name, Bytes, $posm, $partial, |$c, $b| $c.s.as_ptr() as usize, $s, bt, slir($b, bt), $p)
        };
    }
    kb!("&[u8]", Ptr, false, |c, b| c.s.as_bytes(), slip(b));
    kb!("PartialStream<&[u8]>", Ptr, true, |c, b| PartialStream(c.s.as_bytes()), slip(b));
    kb!("position::Stream<&[u8]>", Index, false, |c, b| position::Stream::new(c.s.as_bytes()), idxp);
    kb!("position::Stream<&[u8], &mut Index>", Index, false, |c, b| position::Stream::with_positioner(c.s.as_bytes(), &mut IndexPositioner::new()), idxp);
    kb!("easy<MaybePartial<&[u8]>>", Ptr, true, |c, b| easy::Stream(MaybePartialStream(c.s.as_bytes(), true)), slip(b));
    kb!("easy<position<&[u8]>>", Index, false, |c, b| easy::Stream(position::Stream::new(c.s.as_bytes())), idxp);
    kb!("span<position<&[u8]>>", Index, false, |c, b| span::Stream::<_, easy::Errors<u8, &'static [u8], Span<usize>>>::from(position::Stream::new(c.s.as_bytes())), spn(idxp));
    k!("&[u32]", Items, Ptr, false, |c, b| c.chars.as_ptr() as usize, c.chars, ut, slir(b, ut), slip(b));
    k!("position::Stream<PartialStream<&[u32]>>", Items, Index, true, |c, b| c.chars.as_ptr() as usize, position::Stream::with_positioner(PartialStream(c.chars), IndexPositioner::new()), ut, slir(b, ut), idxp);
    k!("&[String]", Items, Ptr, false, |c, b| c.strings.as_ptr() as usize, c.strings, st, slir(b, st), slip(b));
    k!("easy::Stream<&[String]>", Items, Ptr, false, |c, b| c.strings.as_ptr() as usize, easy::Stream(c.strings), st, slir(b, st), slip(b));
    k!("SliceStream<u32>", Items, Ptr, false, |c, b| c.chars.as_ptr() as usize, SliceStream(c.chars), rut, slir(b, ut), slip(b));
    k!("position::Stream<SliceStream<u32>>", Items, Index, false, |c, b| c.chars.as_ptr() as usize, position::Stream::new(SliceStream(c.chars)), rut, slir(b, ut), idxp);
    k!("easy<PartialStream<SliceStream<u32>>>", Items, Ptr, true, |c, b| c.chars.as_ptr() as usize, easy::Stream(PartialStream(SliceStream(c.chars))), rut, slir(b, ut), slip(b));
    macro_rules! kt {
        ($name:expr, $view:expr, $posm:expr, $partial:expr, |$c:ident| $s:expr, $t:expr, $p:expr) => {
            v.push(Kind {
                name: $name,
                view: $view,
                posm: $posm,
                partial: $partial,
                with: Box::new(|$c, k| k(&mut Tok(Wr { s: $s, cps: vec![], t: $t, r: (), p: $p }))),
            })
        };
    }
    kt!("position<IteratorStream<Chars>>", Str, Index, false, |c| position::Stream::new(IteratorStream::new(c.s.chars())), ct, idxp);
    kt!("position<IteratorStream<Chars>, Source>", Str, Source, false, |c| position::Stream::with_positioner(IteratorStream::new(c.s.chars()), SourcePosition::new()), ct, srcp);
    kt!("PartialStream<position<IteratorStream<Bytes>>, Source>", Bytes, Source, true, |c| PartialStream(position::Stream::with_positioner(IteratorStream::new(c.s.bytes()), SourcePosition::new())), bt, srcp);
    kt!("position<&[u8], Source>", Bytes, Source, false, |c| position::Stream::with_positioner(c.s.as_bytes(), SourcePosition::new()), bt, srcp);
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Uncons,
    FUncons,
    Save,
    Reset(usize),
    Range(usize),
    FRange(usize),
    While(u8),
    While1(u8),
    FWhile(u8),
    FWhile1(u8),
}
/// The predicates given to the taking operations; the last one answers by how often it was called.
fn pred(p: u8, t: u32, nth: usize) -> bool {
    match p {
        0 => true,
        1 => false,
        2 => t == 'a' as u32,
        3 => t != 'b' as u32,
        _ => nth < 1,
    }
}
const PREDS: u8 = 5;

#[derive(Clone)]
struct Model<'a> {
    toks: &'a [(u32, usize)],
    i: usize,
    pos: Pos,
    cps: Vec<(usize, Pos)>,
    posm: PosM,
    partial: bool,
}
impl Model<'_> {
    fn units(&self, i: usize) -> usize {
        self.toks[..i].iter().map(|t| t.1).sum()
    }
    fn take(&mut self, n: usize, as_range: bool) -> Rg {
        let from = self.i;
        for k in 0..n {
            let (t, u) = self.toks[self.i + k];
            match self.posm {
                PosM::Ptr => self.pos.0 += u as i64,
                PosM::Index => self.pos.0 += if as_range { u as i64 } else { 1 },
                PosM::Source => {
                    if t == '\n' as u32 {
                        self.pos = (self.pos.0 + 1, 1)
                    } else {
                        self.pos.1 += 1
                    }
                }
                PosM::Custom => {
                    self.pos.0 += 1;
                    self.pos.1 += t as i64
                }
            }
        }
        self.i += n;
        Rg { toks: self.toks[from..self.i].iter().map(|t| t.0).collect(), at: Some(self.units(from) as i64) }
    }
    fn at_end(&self) -> bool {
        self.i == self.toks.len()
    }
    fn prefix(&self, p: u8) -> (usize, Vec<u32>) {
        let mut n = 0;
        let mut calls = vec![];
        for &(t, _) in &self.toks[self.i..] {
            calls.push(t);
            if !pred(p, t, calls.len() - 1) {
                break;
            }
            n += 1;
        }
        (n, calls)
    }
    /// What a range of `k` units is: tokens, or the kind of failure.
    fn range(&self, k: usize) -> Result<usize, EK> {
        let mut u = 0;
        for (n, t) in self.toks[self.i..].iter().enumerate() {
            if u == k {
                return Ok(n);
            }
            u += t.1;
            if u > k {
                return Err(EK::Other);
            }
        }
        if u == k {
            Ok(self.toks.len() - self.i)
        } else {
            Err(EK::Eoi)
        }
    }
}

fn ops(m: &Model, ranged: bool, total: usize) -> Vec<Op> {
    let mut v = vec![Op::Uncons, Op::FUncons];
    if m.cps.len() < 2 {
        v.push(Op::Save);
    }
    for k in 0..m.cps.len() {
        if m.cps[k].0 <= m.i {
            v.push(Op::Reset(k));
        }
    }
    if ranged {
        let rest = total - m.units(m.i);
        let ks: Vec<usize> = if rest <= 6 { (0..=rest + 1).collect() } else { vec![0, 1, 7, 8, rest - 1, rest, rest + 1] };
        for k in ks {
            v.push(Op::Range(k));
            v.push(Op::FRange(k));
        }
        for p in 0..PREDS {
            v.extend([Op::While(p), Op::While1(p), Op::FWhile(p), Op::FWhile1(p)]);
        }
    }
    v
}

fn mm<T: std::fmt::Debug + PartialEq>(what: &str, want: T, got: T) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: want {:?}, got {:?}", what, want, got))
    }
}
/// Positions in errors are compared only when the error type has one.
fn pr_eq<T: PartialEq + std::fmt::Debug>(want: PR<T>, got: PR<T>, any_kind: bool) -> Result<(), String> {
    let norm = |p: PR<T>, other: &PR<T>| match (p, other) {
        (PR::CommitErr(k, _), PR::CommitErr(_, None)) => PR::CommitErr(k, None),
        (PR::PeekErr(k, p), PR::PeekErr(k2, p2)) => PR::PeekErr(if any_kind { *k2 } else { k }, if p2.is_none() { None } else { p }),
        (p, _) => p,
    };
    let want = norm(want, &got);
    mm("result", want, got)
}

/// Performs `op` on both; `check` compares what the operation returned.
fn step(d: &mut dyn Drv, m: &mut Model, op: Op, check: bool) -> Result<(), String> {
    let partial = m.partial;
    fn eoi_err<T>(m: &Model) -> PR<T> {
        if m.partial { PR::CommitErr(EK::Eoi, Some(m.pos)) } else { PR::PeekErr(EK::Eoi, Some(m.pos)) }
    }
    let mut calls = Vec::new();
    let mut want_calls = None;
    let res = match op {
        Op::Uncons => {
            let want = if m.at_end() { Err(EK::Eoi) } else { Ok(m.take(1, false).toks[0]) };
            mm("token", want, d.uncons())
        }
        Op::FUncons => {
            let want = if m.at_end() { eoi_err(m) } else { PR::CommitOk(m.take(1, false).toks[0]) };
            pr_eq(want, d.f_uncons(), false)
        }
        Op::Save => {
            m.cps.push((m.i, m.pos));
            d.save();
            Ok(())
        }
        Op::Reset(k) => {
            m.i = m.cps[k].0;
            m.pos = m.cps[k].1;
            mm("reset succeeds", true, d.reset(k))
        }
        Op::Range(k) => {
            let want = m.range(k).map(|n| m.take(n, true));
            mm("range", want, d.uncons_range(k))
        }
        Op::FRange(k) => {
            let want = match m.range(k) {
                Ok(0) => PR::PeekOk(m.take(0, true)),
                Ok(n) => PR::CommitOk(m.take(n, true)),
                Err(EK::Eoi) => eoi_err(m),
                Err(e) => PR::PeekErr(e, Some(m.pos)),
            };
            pr_eq(want, d.f_range(k), false)
        }
        Op::While(p) => {
            let (n, cs) = m.prefix(p);
            want_calls = Some(cs);
            let want = Ok(m.take(n, false));
            let got = d.uncons_while(&mut |t| {
                calls.push(t);
                pred(p, t, calls.len() - 1)
            });
            mm("range", want, got)
        }
        Op::While1(p) => {
            let (n, cs) = m.prefix(p);
            want_calls = Some(cs);
            let want = if n > 0 { PR::CommitOk(m.take(n, false)) } else { PR::PeekErr(if m.at_end() { EK::Eoi } else { EK::Other }, None) };
            let got = d.uncons_while1(&mut |t| {
                calls.push(t);
                pred(p, t, calls.len() - 1)
            });
            pr_eq(want, got, false)
        }
        Op::FWhile(p) => {
            let (n, cs) = m.prefix(p);
            want_calls = Some(cs);
            let r = m.take(n, false);
            let want = if partial && m.at_end() {
                PR::CommitErr(EK::Eoi, Some(m.pos))
            } else if n == 0 {
                PR::PeekOk(r)
            } else {
                PR::CommitOk(r)
            };
            let got = d.f_while(&mut |t| {
                calls.push(t);
                pred(p, t, calls.len() - 1)
            });
            pr_eq(want, got, false)
        }
        Op::FWhile1(p) => {
            let (n, cs) = m.prefix(p);
            want_calls = Some(cs);
            let r = m.take(n, false);
            let want = if partial && m.at_end() {
                PR::CommitErr(EK::Eoi, Some(m.pos))
            } else if n == 0 {
                PR::PeekErr(EK::Other, Some(m.pos))
            } else {
                PR::CommitOk(r)
            };
            let got = d.f_while1(&mut |t| {
                calls.push(t);
                pred(p, t, calls.len() - 1)
            });
            pr_eq(want, got, m.at_end())
        }
    };
    if !check {
        return Ok(());
    }
    res?;
    if let Some(w) = want_calls {
        mm("tokens shown to the predicate", w, calls)?;
    }
    Ok(())
}
fn observe(d: &mut dyn Drv, m: &Model) -> Result<(), String> {
    mm("position", m.pos, d.pos())?;
    mm("is_partial", m.partial, d.partial())?;
    mm("at end of input", m.at_end(), d.at_eof())?;
    mm("position after asking for the end of input", m.pos, d.pos())?;
    if d.ranged() {
        for (k, c) in m.cps.iter().enumerate() {
            if c.0 <= m.i {
                mm("distance", m.units(m.i) - m.units(c.0), d.distance(k))?;
            }
        }
        let rest = Rg { toks: m.toks[m.i..].iter().map(|t| t.0).collect(), at: Some(m.units(m.i) as i64) };
        mm("remaining range", rest, d.range())?;
    }
    Ok(())
}

fn toks(c: &Content, v: View) -> Vec<(u32, usize)> {
    match v {
        View::Str => c.s.chars().map(|c| (c as u32, c.len_utf8())).collect(),
        View::Bytes => c.s.bytes().map(|b| (b as u32, 1)).collect(),
        View::Items => c.s.chars().map(|c| (c as u32, 1)).collect(),
    }
}

fn explore(w: &mut W, k: &Kind, c: &Content, depth: usize) -> Result<(), Viol> {
    let toks = toks(c, k.view);
    let total: usize = toks.iter().map(|t| t.1).sum();
    let start = match k.posm {
        PosM::Source => (1, 1),
        _ => (0, 0),
    };
    let m0 = Model { toks: &toks, i: 0, pos: start, cps: vec![], posm: k.posm, partial: k.partial };
    let mut ranged = true;
    (k.with)(c, &mut |d| ranged = d.ranged());
    let mut stack: Vec<(Vec<Op>, Model)> = vec![(vec![], m0.clone())];
    while let Some((seq, m)) = stack.pop() {
        for op in ops(&m, ranged, total) {
            let mut seq2 = seq.clone();
            seq2.push(op);
            let mut fin = None;
            let r = no_panic(|| {
                let mut out = Ok(());
                (k.with)(c, &mut |d| {
                    let mut m = m0.clone();
                    for o in &seq {
                        let _ = step(d, &mut m, *o, false);
                    }
                    out = step(d, &mut m, op, true).and_then(|_| observe(d, &m));
                    fin = Some((m.cps.len(), m));
                });
                out
            });
            w.transitions += 1;
            let bad = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(p) => Some(format!("panicked: {}", p)),
            };
            if let Some(e) = bad {
                return Err(viol(format!("{} {:?} {:?}", k.name, c.s, seq2), format!("{} over {:?}, operations {:?}: {}", k.name, c.s, seq2, e)));
            }
            if seq2.len() < depth {
                stack.push((seq2, fin.unwrap().1));
            } else {
                w.traces += 1;
            }
        }
        w.states += 1;
    }
    w.outcome(k.name);
    w.sample(|| format!("{} over {:?}: every operation sequence of length {}", k.name, c.s, depth));
    Ok(())
}

fn sweep(ctx: &mut Ctx, name: &str, contents: &[&'static str], depth: usize) {
    let ks = kinds();
    let cs: Vec<Content> = contents.iter().map(|s| Content::new(s)).collect();
    let mut items = vec![];
    for (i, k) in ks.iter().enumerate() {
        for (j, c) in cs.iter().enumerate() {
            // an index over multi-byte text counts characters or bytes depending on the operation
            // by design; it is specified for one-byte text only
            if !(k.posm == PosM::Index && k.view == View::Str && !c.s.is_ascii()) {
                items.push((i, j));
            }
        }
    }
    ctx.sweep(
        name,
        &items,
        |(i, j)| format!("{} over {:?}", ks[*i].name, cs[*j].s),
        |w, (i, j)| explore(w, &ks[*i], &cs[*j], depth),
    );
}

fn p08(ctx: &mut Ctx) {
    let q = ctx.quick();
    let (n, d) = if q { (2, 3) } else { (3, 3) };
    ctx.bound("contents", format!("all words over a, b, newline, é, € of length 0..={}; long contents of 7–25 tokens with one distinguished token at each place", n));
    ctx.bound("operations", format!("all sequences of {} operations (token, range of every length, take-while with five predicates, save, reset) on every stream kind", d));
    ctx.bound("stream kinds", kinds().len());
    ctx.assume("resets go back to an earlier or equal position; index positions over multi-byte text are out of scope");
    sweep(ctx, "short contents", &words("ab\né€", n), d);
    if !q {
        sweep(ctx, "deep", &words("a\né", 2), 4);
    }
    let mut long = vec![];
    let lens: &[usize] = if q { &[7, 8, 9, 16, 17] } else { &[7, 8, 9, 10, 15, 16, 17, 18, 23, 24, 25] };
    for &l in lens {
        for at in 0..=l {
            for ch in if q { &['b'][..] } else { &['b', 'é', '\n'][..] } {
                let s: String = (0..l).map(|i| if i == at { *ch } else { 'a' }).collect();
                long.push(&*Box::leak(s.into_boxed_str()));
            }
        }
    }
    sweep(ctx, "long contents", &long, 2);
}

fn main() {
    mc_rt::main(|p, c| match p {
        "P08" => p08(c),
        _ => panic!("unknown property {}", p),
    })
}
