//! P16: character and byte classes, literals and binary numbers over their whole domain.
//! P17: slice parsers over their whole parameter space, on every kind of slice stream.
use combine::easy;
use combine::error::ParseResult::{self, *};
use combine::parser::{byte, char, range};
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{decode, MaybePartialStream, Positioned, RangeStream, ResetStream, SliceStream, StreamOnce};
use combine::{EasyParser, Parser};
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, Viol, W};
use std::fmt::Debug;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

fn leak<T: Clone>(v: &[T]) -> &'static [T] {
    Box::leak(v.to_vec().into_boxed_slice())
}
fn parts<T, E>(r: ParseResult<T, E>) -> (Option<T>, bool) {
    match r {
        CommitOk(v) => (Some(v), true),
        PeekOk(v) => (Some(v), false),
        CommitErr(_) => (None, true),
        PeekErr(_) => (None, false),
    }
}

// ---------------------------------------------------------------- P16: classes

type CharP = Box<dyn Parser<&'static str, Output = char, PartialState = ()>>;
type ByteP = Box<dyn Parser<&'static [u8], Output = u8, PartialState = ()>>;

/// Name of the class as it is reported, its parser and its definition.
fn char_classes() -> Vec<(&'static str, &'static str, fn() -> CharP, fn(char) -> bool)> {
    vec![
        ("digit", "digit", || Box::new(char::digit()), |c| matches!(c, '0'..='9')),
        ("space", "whitespace", || Box::new(char::space()), |c| matches!(c as u32, 9..=13 | 32 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)),
        ("newline", "lf newline", || Box::new(char::newline()), |c| c == '\u{a}'),
        ("tab", "tab", || Box::new(char::tab()), |c| c == '\u{9}'),
        ("upper", "uppercase letter", || Box::new(char::upper()), |c| c.is_uppercase()),
        ("lower", "lowercase letter", || Box::new(char::lower()), |c| c.is_lowercase()),
        ("alpha_num", "letter or digit", || Box::new(char::alpha_num()), |c| c.is_alphabetic() || c.is_numeric()),
        ("letter", "letter", || Box::new(char::letter()), |c| c.is_alphabetic()),
        ("oct_digit", "octal digit", || Box::new(char::oct_digit()), |c| matches!(c, '0'..='7')),
        ("hex_digit", "hexadecimal digit", || Box::new(char::hex_digit()), |c| matches!(c, '0'..='9' | 'a'..='f' | 'A'..='F')),
    ]
}
fn byte_classes() -> Vec<(&'static str, &'static str, fn() -> ByteP, fn(u8) -> bool)> {
    vec![
        ("digit", "digit", || Box::new(byte::digit()), |c| matches!(c, 0x30..=0x39)),
        ("space", "space", || Box::new(byte::space()), |c| matches!(c, 9 | 10 | 12 | 13 | 32)),
        ("newline", "lf newline", || Box::new(byte::newline()), |c| c == 10),
        ("tab", "tab", || Box::new(byte::tab()), |c| c == 9),
        ("upper", "upper", || Box::new(byte::upper()), |c| matches!(c, 0x41..=0x5a)),
        ("lower", "lower", || Box::new(byte::lower()), |c| matches!(c, 0x61..=0x7a)),
        ("alpha_num", "alpha_num", || Box::new(byte::alpha_num()), |c| matches!(c, 0x30..=0x39 | 0x41..=0x5a | 0x61..=0x7a)),
        ("letter", "letter", || Box::new(byte::letter()), |c| matches!(c, 0x41..=0x5a | 0x61..=0x7a)),
        ("oct_digit", "octal digit", || Box::new(byte::oct_digit()), |c| matches!(c, 0x30..=0x37)),
        ("hex_digit", "hex_digit", || Box::new(byte::hex_digit()), |c| matches!(c, 0x30..=0x39 | 0x41..=0x46 | 0x61..=0x66)),
    ]
}

fn labels<T: PartialEq, R: PartialEq, P>(e: &easy::Errors<T, R, P>) -> Vec<&easy::Info<T, R>> {
    e.errors.iter().filter_map(|e| if let easy::Error::Expected(i) = e { Some(i) } else { None }).collect()
}

/// A parser over text whose language is the regular set `lang`: the longest prefix it takes.
fn text_checks(k: &mut W, w: &'static str, bw: &'static [u8]) -> Result<(), Viol> {
    let ch: Vec<char> = w.chars().collect();
    let is_space = |c: char| c.is_whitespace();
    let n = ch.iter().take_while(|c| is_space(**c)).map(|c| c.len_utf8()).sum::<usize>();
    let bad = |what: &str, got: String, want: String| viol(format!("{} {:?}", what, w), format!("{} on {:?}: {} instead of {}", what, w, got, want));
    let mut ck = |what: &str, got: (Option<usize>, bool), want: (Option<usize>, bool)| {
        k.transitions += 1;
        k.traces += 1;
        if got == want {
            Ok(())
        } else {
            Err(bad(what, format!("{:?}", got), format!("{:?}", want)))
        }
    };
    let mut i = w;
    let (v, com) = parts(char::spaces().parse_stream(&mut i));
    ck("spaces", (v.map(|_| w.len() - i.len()), com), (Some(n), n > 0))?;
    let mut i = w;
    let (v, com) = parts(char::crlf().parse_stream(&mut i));
    let crlf = (w.starts_with("\r\n").then_some(2), w.starts_with('\r'));
    ck("crlf", (v.map(|c| if c == '\n' { w.len() - i.len() } else { 99 }), com), crlf)?;
    // the same text as bytes
    let nb = bw.iter().take_while(|c| matches!(c, 9 | 10 | 12 | 13 | 32)).count();
    let mut i = bw;
    let (v, com) = parts(byte::spaces().parse_stream(&mut i));
    ck("byte::spaces", (v.map(|_| bw.len() - i.len()), com), (Some(nb), nb > 0))?;
    let mut i = bw;
    let (v, com) = parts(byte::crlf().parse_stream(&mut i));
    ck("byte::crlf", (v.map(|c| if c == b'\n' { bw.len() - i.len() } else { 99 }), com), crlf)?;
    Ok(())
}

/// Literals: succeed with the literal itself if the input starts with it (under the comparison).
fn literal_checks(k: &mut W, lit: &'static str, w: &'static str) -> Result<(), Viol> {
    let lb = lit.as_bytes();
    let wb = w.as_bytes();
    let common = |f: &dyn Fn(char, char) -> bool| {
        let mut n = 0;
        let mut wi = w.chars();
        for l in lit.chars() {
            match wi.next() {
                Some(c) if f(l, c) => n += 1,
                _ => return (None, n > 0),
            }
        }
        (Some((lit, w.len() - wi.as_str().len())), n > 0)
    };
    let eq = common(&|a, b| a == b);
    let ci = common(&|a, b| a.eq_ignore_ascii_case(&b));
    let bcommon = |f: &dyn Fn(u8, u8) -> bool| {
        let n = lb.iter().zip(wb).take_while(|(a, b)| f(**a, **b)).count();
        if n == lb.len() {
            (Some((lit, n)), n > 0)
        } else {
            (None, n > 0)
        }
    };
    let mut ck = |what: &str, got: (Option<(&str, usize)>, bool), want: (Option<(&str, usize)>, bool)| {
        k.transitions += 1;
        k.traces += 1;
        if got == want {
            Ok(())
        } else {
            Err(viol(format!("{} {:?} {:?}", what, lit, w), format!("{} {:?} on {:?}: {:?} instead of {:?}", what, lit, w, got, want)))
        }
    };
    macro_rules! s {
        ($what:expr, $p:expr, $want:expr) => {{
            let mut i = w;
            let (v, com) = parts($p.parse_stream(&mut i));
            ck($what, (v.map(|v: &str| (v, w.len() - i.len())), com), $want)?;
            // over an iterator of characters
            let mut i = position::Stream::with_positioner(w, IndexPositioner::default());
            let (v, com) = parts($p.parse_stream(&mut i));
            ck($what, (v.map(|v: &str| (v, w.len() - i.input.len())), com), $want)?;
        }};
    }
    s!("string", char::string(lit), eq);
    s!("string_cmp", char::string_cmp(lit, |a, b| a.eq_ignore_ascii_case(&b)), ci);
    s!("tokens", combine::tokens(|a: char, b: char| a == b, lit, lit.chars()).map(|_| lit), eq);
    s!("tokens_cmp", combine::tokens_cmp(lit.chars(), |a: char, b: char| a.eq_ignore_ascii_case(&b)).map(|_| lit), ci);
    let mut i = wb;
    let (v, com) = parts(byte::bytes(lb).parse_stream(&mut i));
    ck("bytes", (v.map(|v| (std::str::from_utf8(v).unwrap_or("?"), wb.len() - i.len())), com), bcommon(&|a, b| a == b))?;
    let mut i = wb;
    let (v, com) = parts(byte::bytes_cmp(lb, |a: u8, b: u8| a.eq_ignore_ascii_case(&b)).parse_stream(&mut i));
    ck("bytes_cmp", (v.map(|v| (std::str::from_utf8(v).unwrap_or("?"), wb.len() - i.len())), com), bcommon(&|a, b| a.eq_ignore_ascii_case(&b)))?;
    // a slice literal is all or nothing
    let all = (w.starts_with(lit).then_some((lit, lit.len())), w.starts_with(lit) && !lit.is_empty());
    let mut i = w;
    let (v, com) = parts(range::range(lit).parse_stream(&mut i));
    ck("range", (v.map(|v: &str| (v, w.len() - i.len())), com), all)?;
    let mut i = wb;
    let (v, com) = parts(range::range(lb).parse_stream(&mut i));
    ck("byte range", (v.map(|v: &[u8]| (std::str::from_utf8(v).unwrap_or("?"), wb.len() - i.len())), com), all)?;
    k.states += 1;
    Ok(())
}

// ---------------------------------------------------------------- P16: numbers

/// Value of the bytes, most significant first.
fn number(be: impl Iterator<Item = u8>) -> u64 {
    be.fold(0, |n, b| n << 8 | b as u64)
}

type NumP = fn(&mut MaybePartialStream<&'static [u8]>) -> Result<(Option<u64>, usize), String>;
fn nums() -> Vec<(&'static str, usize, bool, NumP)> {
    macro_rules! q {
        ($f:ident, $n:expr, $be:expr, $v:expr) => {
            (stringify!($f), $n, $be, (|i| {
                let mut p = byte::num::$f::<MaybePartialStream<&'static [u8]>>();
                match decode(&mut p, i, &mut Default::default()) {
                    Ok((v, n)) => Ok((v.map($v), n)),
                    Err(e) => Err(format!("{:?}", e)),
                }
            }) as NumP)
        };
    }
    vec![
        q!(be_u16, 2, true, |v| v as u64),
        q!(le_u16, 2, false, |v| v as u64),
        q!(be_i16, 2, true, |v| v as u16 as u64),
        q!(le_i16, 2, false, |v| v as u16 as u64),
        q!(be_u32, 4, true, |v| v as u64),
        q!(le_u32, 4, false, |v| v as u64),
        q!(be_i32, 4, true, |v| v as u32 as u64),
        q!(le_i32, 4, false, |v| v as u32 as u64),
        q!(be_u64, 8, true, |v| v),
        q!(le_u64, 8, false, |v| v),
        q!(be_i64, 8, true, |v| v as u64),
        q!(le_i64, 8, false, |v| v as u64),
        q!(be_f32, 4, true, |v: f32| v.to_bits() as u64),
        q!(le_f32, 4, false, |v: f32| v.to_bits() as u64),
        q!(be_f64, 8, true, |v: f64| v.to_bits()),
        q!(le_f64, 8, false, |v: f64| v.to_bits()),
    ]
}
fn num_check(k: &mut W, name: &str, n: usize, be: bool, p: NumP, bytes: &[u8]) -> Result<(), Viol> {
    let data = leak(bytes);
    let r = (|| {
        // complete, followed by something, and cut short
        for len in [n, n - 1, n / 2, 1, 0, n + 1] {
            let mut buf: Vec<u8> = bytes.iter().copied().chain([0xa5]).take(len).collect();
            buf.truncate(len);
            let input: &'static [u8] = if len == n { data } else { leak(&buf) };
            for partial in [false, true] {
                let mut i = MaybePartialStream(input, partial);
                let got = p(&mut i);
                k.transitions += 1;
                if len >= n {
                    let v = if be { number(bytes.iter().copied()) } else { number(bytes.iter().rev().copied()) };
                    if got != Ok((Some(v), n)) {
                        return Err(format!("{:?} gives {:?} instead of {:x}", input, got, v));
                    }
                } else if partial {
                    if got != Ok((None, 0)) {
                        return Err(format!("{:?} so far gives {:?}", input, got));
                    }
                } else if got.is_ok() {
                    return Err(format!("{:?} gives {:?}", input, got));
                }
            }
            if len != n {
                unsafe { drop(Box::from_raw(input as *const [u8] as *mut [u8])) }
            }
        }
        Ok(())
    })();
    unsafe { drop(Box::from_raw(data as *const [u8] as *mut [u8])) }
    k.states += 1;
    k.traces += 1;
    r.map_err(|m| viol(format!("{} {:?}", name, bytes), format!("{}: {}", name, m)))
}

fn p16(c: &mut Ctx) {
    let q = c.quick();
    let classes = char_classes();
    let chunks: Vec<(usize, u32)> = (0..classes.len()).flat_map(|i| (0..0x110000u32 / 0x4000).map(move |b| (i, b * 0x4000))).collect();
    c.bound("characters", "all 1112064");
    c.bound("bytes", "all 256");
    c.sweep("character classes", &chunks, |(i, b)| format!("{} {:x}", classes[*i].0, b), |k: &mut W, (i, b)| {
        let (name, _, p, f) = &classes[*i];
        let mut p = p();
        let mut buf = String::new();
        for c in (*b..*b + 0x4000).filter_map(char::from_u32) {
            buf.clear();
            buf.push(c);
            buf.push('x');
            // the parser wants a 'static input; this one is only looked at while it lives
            let w: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(&buf) };
            let mut i = w;
            let (v, com) = parts(p.parse_stream(&mut i));
            k.states += 1;
            k.transitions += 1;
            k.traces += 1;
            let want = if f(c) { (Some(c), true) } else { (None, false) };
            if (v, com) != want || (v.is_some() && i != "x") {
                return Err(viol(format!("{} {:x}", name, c as u32), format!("{} on {:?}: {:?} leaving {:?}", name, c, (v, com), i)));
            }
        }
        k.outcome(name);
        Ok(())
    });
    let all = || (0..=255u8).map(|b| leak(&[b, b'x'])).collect::<Vec<_>>();
    let bytes = all();
    c.sweep("byte classes", &byte_classes(), |x| x.0.to_string(), |k: &mut W, (name, _, p, f)| {
        for w in &bytes {
            let mut i = *w;
            let (v, com) = parts(p().parse_stream(&mut i));
            k.states += 1;
            k.transitions += 1;
            k.traces += 1;
            let want = if f(w[0]) { (Some(w[0]), true) } else { (None, false) };
            if (v, com) != want || (v.is_some() && i != b"x") {
                return Err(viol(format!("{} {:x}", name, w[0]), format!("byte::{} on {:?}: {:?} leaving {:?}", name, w, (v, com), i)));
            }
        }
        k.outcome("byte class");
        Ok(())
    });
    // what is reported where a class was expected
    c.sweep("class names", &[()], |_| "all".into(), |k: &mut W, _| {
        macro_rules! name {
            ($m:ident, $w:expr, $($f:ident $l:expr),*) => {$({
                let e = $m::$f().easy_parse($w).map(|_| ()).unwrap_err();
                k.transitions += 1;
                k.traces += 1;
                k.states += 1;
                let l = labels(&e);
                if l.len() != 1 || *l[0] != easy::Info::Static($l) {
                    return Err(viol(stringify!($f), format!("{}::{} expects {:?} instead of {:?}", stringify!($m), stringify!($f), l, $l)));
                }
            })*};
        }
        name!(char, "\u{1}", digit "digit", space "whitespace", newline "lf newline", crlf "crlf newline", tab "tab", upper "uppercase letter", lower "lowercase letter", alpha_num "letter or digit", letter "letter", oct_digit "octal digit", hex_digit "hexadecimal digit");
        let b: &'static [u8] = &[1];
        name!(byte, b, digit "digit", space "space", newline "lf newline", crlf "crlf newline", tab "tab", upper "upper", lower "lower", alpha_num "alpha_num", letter "letter", oct_digit "octal digit", hex_digit "hex_digit");
        k.outcome("reported");
        Ok(())
    });
    let texts = words(" \r\na\t\u{2003}\u{85}\u{b}\u{c}", if q { 4 } else { 5 });
    c.sweep("white space and line ends", &texts, |w| format!("{:?}", w), |k: &mut W, w| {
        k.states += 1;
        k.outcome("text");
        text_checks(k, w, w.as_bytes())
    });
    let lits = words("abBé", 3);
    let ws = words("aAbBé", if q { 4 } else { 5 });
    c.sweep("literals", &lits, |w| format!("{:?}", w), |k: &mut W, l| {
        for w in &ws {
            literal_checks(k, l, w)?;
        }
        k.outcome("literal");
        Ok(())
    });
    // numbers: every 16-bit value; wider ones with every combination of telling bytes, and every
    // value of every single byte
    let mut items: Vec<(usize, u32)> = vec![];
    let ps = nums();
    for (i, p) in ps.iter().enumerate() {
        for b in 0..(if p.1 == 8 { 64 } else { 16 }) {
            items.push((i, b));
        }
    }
    let tell: &[u8] = if q { &[0x00, 0x01, 0x80, 0xff] } else { &[0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff] };
    c.bound("bytes of wide numbers", format!("{:x?}, and every byte alone", tell));
    c.sweep("numbers", &items, |(i, b)| format!("{} {}", ps[*i].0, b), |k: &mut W, (i, b)| {
        let (name, n, be, p) = ps[*i];
        if n == 2 {
            for v in (*b * 0x1000)..(*b + 1) * 0x1000 {
                num_check(k, name, n, be, p, &[(v >> 8) as u8, v as u8])?;
            }
        } else {
            let m = tell.len();
            let total = m.pow(n as u32);
            let parts = if n == 8 { 64 } else { 16 };
            for x in (total * *b as usize / parts)..(total * (*b as usize + 1) / parts) {
                let mut x = x;
                let mut v = vec![0; n];
                for d in &mut v {
                    *d = tell[x % m];
                    x /= m;
                }
                num_check(k, name, n, be, p, &v)?;
            }
            for at in 0..n {
                for x in (256 * *b as usize / parts)..(256 * (*b as usize + 1) / parts) {
                    let mut v: Vec<u8> = (0x11..).take(n).collect();
                    v[at] = x as u8;
                    num_check(k, name, n, be, p, &v)?;
                }
            }
        }
        k.outcome("number");
        Ok(())
    });
}

// ---------------------------------------------------------------- P17: slices

/// A slice parser with its parameters.
#[derive(Clone, Debug)]
enum P {
    Take(usize),
    While(&'static str),
    While1(&'static str),
    Until(&'static str),
    Byte(&'static str),
    Bytes(&'static str),
    /// finds the literal; where it is absent, gives up all but this many units
    Fn(&'static str, usize),
    Range(&'static str),
    /// recognizes `many` of the set, `many1` of the set, the literal, or any two tokens
    RecMany(&'static str),
    RecMany1(&'static str),
    RecLit(&'static str),
    RecTwo,
    /// with the number of tokens it matched
    RecValue(&'static str),
    /// as many units as the first token says, `a` for 0, `b` for 1, ...
    Prefix,
}

/// The slice, in units, that `p` must hand out of the complete input `w`: (start, length, what is
/// consumed), or nothing if it must fail.
fn slice(p: &P, w: &str, units: &dyn Fn(&str) -> usize, cut: &dyn Fn(&str, usize) -> Option<usize>) -> Option<(usize, usize, usize)> {
    let run = |set: &str| w.chars().take_while(|c| set.contains(*c)).map(|c| c.len_utf8()).sum::<usize>();
    // (byte start, byte length, bytes consumed)
    let r = match p {
        P::Take(n) => cut(w, *n).map(|n| (0, n, n)),
        P::While(s) | P::RecMany(s) => Some((0, run(s), run(s))),
        P::While1(s) | P::RecMany1(s) | P::RecValue(s) => Some((0, run(s), run(s))).filter(|x| x.1 > 0),
        P::Until(s) | P::Bytes(s) | P::Fn(s, _) => w.find(s).map(|i| (0, i, i)),
        P::Byte(s) => w.find(|c| s.contains(c)).map(|i| (0, i, i)),
        P::Range(s) | P::RecLit(s) => w.starts_with(s).then_some((0, s.len(), s.len())),
        P::RecTwo => {
            let n: usize = w.chars().take(2).map(|c| c.len_utf8()).sum();
            (w.chars().count() >= 2).then_some((0, n, n))
        }
        P::Prefix => w.chars().next().and_then(|c| {
            let n = cut(&w[c.len_utf8()..], (c as usize).checked_sub('a' as usize).filter(|n| *n < 26)?)?;
            Some((c.len_utf8(), n, c.len_utf8() + n))
        }),
    }?;
    Some((units(&w[..r.0]), units(&w[r.0..r.0 + r.1]), units(&w[..r.2])))
}

/// One kind of input: text, bytes, or tokens of some other type.
trait Kind: 'static {
    type I: RangeStream<Range = Self::R> + 'static;
    type R: Copy + PartialEq + combine::stream::Range + 'static;
    const NAME: &'static str;
    /// `at..end` of the word, in units
    fn feed(w: &Word, at: usize, end: usize, partial: bool) -> Self::I;
    fn left(i: &Self::I) -> usize;
    fn view(r: Self::R) -> (*const u8, usize);
    fn base(w: &Word) -> *const u8;
    /// bytes of one unit in memory
    const SIZE: usize;
    fn toks(r: Self::R) -> usize;
    fn lit(s: &'static str) -> Self::R;
    fn ch(t: <Self::I as StreamOnce>::Token) -> char;
    fn find(r: Self::R, lit: &'static str) -> Option<usize>;
    fn bytes(p: &P) -> Option<BoxP<Self::I, Self::R>>;
    fn units(s: &str) -> usize;
    /// bytes of the first `n` units, if that is a boundary
    fn cut(s: &str, n: usize) -> Option<usize>;
}
struct Word {
    s: &'static str,
    c: &'static [char],
}

/// A parser to be used once per call, with its partial state kept between calls.
trait Obj<I: StreamOnce, R> {
    fn decode(&mut self, i: &mut I) -> Result<(Option<R>, usize), I::Error>;
    fn once(&mut self, i: &mut I) -> ParseResult<R, I::Error>;
}
type BoxP<I, R> = Box<dyn Obj<I, R>>;
struct O<P, S>(P, S);
impl<I: RangeStream, R, P: Parser<I, Output = R>> Obj<I, R> for O<P, P::PartialState> {
    fn decode(&mut self, i: &mut I) -> Result<(Option<R>, usize), I::Error> {
        decode(&mut self.0, i, &mut self.1)
    }
    fn once(&mut self, i: &mut I) -> ParseResult<R, I::Error> {
        self.0.parse_stream(i)
    }
}
fn o<I: RangeStream + 'static, R: 'static, P: Parser<I, Output = R> + 'static>(p: P) -> BoxP<I, R> {
    Box::new(O(p, Default::default()))
}

fn make<K: Kind>(p: &P) -> Option<BoxP<K::I, K::R>> {
    let is = |s: &'static str| move |t| s.contains(K::ch(t));
    Some(match p.clone() {
        P::Take(n) => o(range::take(n)),
        P::While(s) => o(range::take_while(is(s))),
        P::While1(s) => o(range::take_while1(is(s))),
        P::Until(s) => o(range::take_until_range(K::lit(s))),
        P::Byte(_) | P::Bytes(_) => return K::bytes(p),
        P::Fn(s, keep) => o(range::take_fn(move |r: K::R| match K::find(r, s) {
            Some(i) => range::TakeRange::Found(i),
            None => range::TakeRange::NotFound(combine::stream::Range::len(&r).saturating_sub(keep)),
        })),
        P::Range(s) => o(range::range(K::lit(s))),
        P::RecMany(s) => o(range::recognize(combine::skip_many(combine::satisfy(is(s))))),
        P::RecMany1(s) => o(range::recognize(combine::skip_many1(combine::satisfy(is(s))))),
        P::RecLit(s) => o(range::recognize(range::range(K::lit(s)))),
        P::RecTwo => o(range::recognize((combine::any(), combine::any()))),
        P::RecValue(s) => o(range::recognize_with_value(combine::many1::<Vec<_>, _, _>(combine::satisfy(is(s)))).map(|(r, v): (K::R, Vec<_>)| {
            // the value belongs to the slice
            assert_eq!(v.len(), K::toks(r), "the value and the slice");
            r
        })),
        P::Prefix => o(range::length_prefix(combine::satisfy_map(|t| (K::ch(t) as u32).checked_sub('a' as u32).filter(|n| *n < 26)))),
    })
}

macro_rules! kind {
    ($k:ident, $name:expr, $i:ty, $r:ty, $word:ident, $size:expr, |$s:ident, $p:ident| $mk:expr, |$l:ident| $left:expr, $ch:expr, lit $lit:expr, toks $toks:expr, find $find:expr, units $units:expr, cut $cut:expr, bytes $bytes:expr) => {
        struct $k;
        impl Kind for $k {
            type I = $i;
            type R = $r;
            const NAME: &'static str = $name;
            const SIZE: usize = $size;
            fn feed(w: &Word, at: usize, end: usize, $p: bool) -> $i {
                let $s: $r = $k::whole(w).get(at..end).unwrap();
                $mk
            }
            fn left($l: &$i) -> usize {
                $left
            }
            fn view(r: $r) -> (*const u8, usize) {
                (r.as_ptr() as *const u8, r.len())
            }
            fn base(w: &Word) -> *const u8 {
                $k::whole(w).as_ptr() as *const u8
            }
            fn lit(s: &'static str) -> $r {
                $lit(s)
            }
            fn toks(r: $r) -> usize {
                $toks(r)
            }
            fn ch(t: <$i as StreamOnce>::Token) -> char {
                $ch(t)
            }
            fn find(r: $r, lit: &'static str) -> Option<usize> {
                $find(r, lit)
            }
            fn bytes(p: &P) -> Option<BoxP<$i, $r>> {
                $bytes(p)
            }
            fn units(s: &str) -> usize {
                $units(s)
            }
            fn cut(s: &str, n: usize) -> Option<usize> {
                $cut(s, n)
            }
        }
        impl $k {
            fn whole(w: &Word) -> $r {
                whole::$word(w)
            }
        }
    };
}
mod whole {
    pub fn text(w: &super::Word) -> &'static str {
        w.s
    }
    pub fn bytes(w: &super::Word) -> &'static [u8] {
        w.s.as_bytes()
    }
    pub fn chars(w: &super::Word) -> &'static [char] {
        w.c
    }
}
fn chars_of(s: &'static str) -> &'static [char] {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static M: Mutex<Option<HashMap<&'static str, &'static [char]>>> = Mutex::new(None);
    M.lock().unwrap().get_or_insert_with(HashMap::new).entry(s).or_insert_with(|| leak(&s.chars().collect::<Vec<_>>()))
}
fn find_in<T: PartialEq>(r: &[T], lit: &[T]) -> Option<usize> {
    (0..=r.len()).find(|i| r[*i..].starts_with(lit))
}
fn byte_parsers<I>(p: &P) -> Option<BoxP<I, I::Range>>
where
    I: RangeStream + 'static,
    I::Range: AsRef<[u8]> + combine::stream::Range + 'static,
{
    Some(match p {
        P::Byte(s) => match *s.as_bytes() {
            [a] => o(byte::take_until_byte(a)),
            [a, b] => o(byte::take_until_byte2(a, b)),
            [a, b, c] => o(byte::take_until_byte3(a, b, c)),
            _ => return None,
        },
        P::Bytes(s) => o(byte::take_until_bytes(s.as_bytes())),
        _ => unreachable!(),
    })
}
fn byte_cut(s: &str, n: usize) -> Option<usize> {
    s.is_char_boundary(n).then_some(n)
}
fn char_cut(s: &str, n: usize) -> Option<usize> {
    s.char_indices().map(|x| x.0).chain([s.len()]).nth(n)
}
type SPos = position::SourcePosition;
kind!(Text, "text", easy::Stream<MaybePartialStream<&'static str>>, &'static str, text, 1, |s, p| easy::Stream(MaybePartialStream(s, p)), |i| i.0 .0.len(), |c: char| c,
    lit |s| s, toks |r: &str| r.chars().count(), find |r: &str, l| r.find(l), units |s: &str| s.len(), cut byte_cut, bytes byte_parsers);
kind!(TextPos, "text with positions", position::Stream<MaybePartialStream<&'static str>, SPos>, &'static str, text, 1, |s, p| position::Stream::with_positioner(MaybePartialStream(s, p), SPos::default()), |i| i.input.0.len(), |c: char| c,
    lit |s| s, toks |r: &str| r.chars().count(), find |r: &str, l| r.find(l), units |s: &str| s.len(), cut byte_cut, bytes byte_parsers);
kind!(Bytes, "bytes", easy::Stream<MaybePartialStream<&'static [u8]>>, &'static [u8], bytes, 1, |s, p| easy::Stream(MaybePartialStream(s, p)), |i| i.0 .0.len(), |c: u8| c as char,
    lit |s: &'static str| s.as_bytes(), toks |r: &[u8]| r.len(), find |r: &[u8], l: &str| find_in(r, l.as_bytes()), units |s: &str| s.len(), cut byte_cut, bytes byte_parsers);
kind!(BytesPos, "bytes with positions", position::Stream<MaybePartialStream<&'static [u8]>, IndexPositioner>, &'static [u8], bytes, 1, |s, p| position::Stream::with_positioner(MaybePartialStream(s, p), IndexPositioner::default()), |i| i.input.0.len(), |c: u8| c as char,
    lit |s: &'static str| s.as_bytes(), toks |r: &[u8]| r.len(), find |r: &[u8], l: &str| find_in(r, l.as_bytes()), units |s: &str| s.len(), cut byte_cut, bytes byte_parsers);
kind!(Slice, "slice of tokens", MaybePartialStream<&'static [char]>, &'static [char], chars, 4, |s, p| MaybePartialStream(s, p), |i| i.0.len(), |c: char| c,
    lit chars_of, toks |r: &[char]| r.len(), find |r: &[char], l: &'static str| find_in(r, chars_of(l)), units |s: &str| s.chars().count(), cut char_cut, bytes |_| None);
kind!(Refs, "slice by reference", easy::Stream<MaybePartialStream<SliceStream<'static, char>>>, &'static [char], chars, 4, |s, p| easy::Stream(MaybePartialStream(SliceStream(s), p)), |i| i.0 .0 .0.len(), |c: &char| *c,
    lit chars_of, toks |r: &[char]| r.len(), find |r: &[char], l: &'static str| find_in(r, chars_of(l)), units |s: &str| s.chars().count(), cut char_cut, bytes |_| None);

fn slice_check<K: Kind>(k: &mut W, p: &P, ws: &[Word], cuts_to: usize) -> Result<(), Viol> {
    if make::<K>(p).is_none() {
        return Ok(());
    }
    for w in ws {
        let want = slice(p, w.s, &K::units, &K::cut);
        let len = K::units(w.s);
        let bad = |how: String, m: String| viol(format!("{} {:?} {}", K::NAME, w.s, how), format!("{} {:?}, {}: {}", K::NAME, w.s, how, m));
        // what was handed out, as a part of the word
        let part = |r: K::R| {
            let (p, n) = K::view(r);
            let off = (p as isize - K::base(w) as isize) / K::SIZE as isize;
            (off, n)
        };
        let same = |r: K::R, base: usize, s: (usize, usize, usize)| {
            let (off, n) = part(r);
            n == s.1 && (off == (base + s.0) as isize || n == 0)
        };
        let (got, left) = no_panic(|| {
            let mut i = K::feed(w, 0, len, false);
            let mut q = make::<K>(p).unwrap();
            let r = parts(q.once(&mut i));
            (r, K::left(&i))
        })
        .map_err(|m| bad("at once".into(), format!("panicked: {}", m)))?;
        k.transitions += 1;
        k.states += 1;
        k.traces += 1;
        match (&got, want) {
            ((Some(r), com), Some(s)) => {
                if !same(*r, 0, s) || len - left != s.2 {
                    return Err(bad("at once".into(), format!("got {:?}, {} consumed; want {:?}", part(*r), len - left, s)));
                }
                if *com != (s.2 > 0) {
                    return Err(bad("at once".into(), format!("committed: {} after consuming {}", com, s.2)));
                }
                k.outcome("found");
            }
            ((None, _), None) => k.outcome("refused"),
            ((r, _), s) => return Err(bad("at once".into(), format!("got {:?}; want {:?}", r.map(|r| part(r)), s))),
        }
        // in pieces
        if w.c.len() > cuts_to {
            continue;
        }
        let ends: Vec<usize> = (0..=w.c.len()).map(|n| K::units(&w.s[..w.s.char_indices().nth(n).map_or(w.s.len(), |x| x.0)])).collect();
        for set in 0..1u32 << ends.len() {
            let how = || format!("in pieces {:b}", set);
            let run = || -> Result<(), String> {
                let mut q = make::<K>(p).unwrap();
                let mut at = 0;
                let steps = ends.iter().enumerate().filter(|(n, _)| set >> n & 1 == 1).map(|x| (*x.1, true)).chain([(len, false)]);
                for (end, partial) in steps {
                    let mut i = K::feed(w, at, end, partial);
                    match q.decode(&mut i) {
                        Ok((Some(r), n)) => {
                            at += n;
                            return match want {
                                // the slice is the end of what is consumed
                                Some(s) if part(r).1 == s.1 && (s.1 == 0 || part(r).0 == s.0 as isize) && at == s.2 => Ok(()),
                                s => Err(format!("got {:?}, {} consumed; want {:?}", part(r), at, s)),
                            };
                        }
                        Ok((None, n)) => {
                            if !partial {
                                return Err("asks for more at the end".into());
                            }
                            at += n;
                            if at > end {
                                return Err(format!("consumed {} of {}", at, end));
                            }
                        }
                        Err(_) => {
                            return match want {
                                None => Ok(()),
                                s => Err(format!("failed; want {:?}", s)),
                            }
                        }
                    }
                }
                Err("no answer".into())
            };
            k.states += 1;
            k.traces += 1;
            match no_panic(run) {
                Ok(Ok(())) => (),
                Ok(Err(m)) => return Err(bad(how(), m)),
                Err(m) => return Err(bad(how(), format!("panicked: {}", m))),
            }
        }
    }
    Ok(())
}

fn p17(c: &mut Ctx) {
    let q = c.quick();
    let mut ps: Vec<P> = (0..7).map(P::Take).collect();
    for s in ["", "a", "b", "ab"] {
        ps.extend([P::While(s), P::While1(s), P::RecMany(s), P::RecMany1(s), P::RecValue(s)]);
    }
    let lits = words("ab", if q { 4 } else { 5 });
    for l in &lits {
        ps.extend([P::Until(l), P::Bytes(l), P::Range(l), P::RecLit(l)]);
        // giving up more than what can start the literal would be the caller's mistake
        ps.extend((l.len().saturating_sub(1)..l.len() + 2).map(|n| P::Fn(l, n)));
    }
    for s in ["a", "b", "c", "ab", "bc", "cb", "abc", "cab", "cdb"] {
        ps.push(P::Byte(s));
    }
    ps.extend([P::RecTwo, P::Prefix]);
    let mk = |al, n| -> Vec<Word> { words(al, n).into_iter().map(|s| Word { s, c: chars_of(s) }).collect() };
    let long = mk("ab", if q { 9 } else { 12 });
    let abc = mk("abc", if q { 5 } else { 7 });
    let cuts = if q { 6 } else { 8 };
    c.bound("length of words over two tokens", if q { 9 } else { 12 });
    c.bound("length of words in pieces, every piece boundary", cuts);
    c.sweep("two tokens", &ps, |p| format!("{:?}", p), |k: &mut W, p| {
        slice_check::<Text>(k, p, &long, cuts)?;
        slice_check::<TextPos>(k, p, &long, 4)?;
        slice_check::<Bytes>(k, p, &long, cuts)?;
        slice_check::<BytesPos>(k, p, &long, 4)?;
        slice_check::<Slice>(k, p, &long, cuts)?;
        slice_check::<Refs>(k, p, &long, 4)
    });
    c.sweep("three tokens", &ps, |p| format!("{:?}", p), |k: &mut W, p| {
        slice_check::<Text>(k, p, &abc, 4)?;
        slice_check::<Bytes>(k, p, &abc, 4)?;
        slice_check::<Slice>(k, p, &abc, 4)
    });
    let mut multi: Vec<P> = (0..7).map(P::Take).collect();
    for s in ["a", "é", "aé", "€"] {
        multi.extend([P::While(s), P::While1(s), P::RecMany(s), P::RecMany1(s), P::RecValue(s)]);
    }
    for l in words("aé€", 2) {
        multi.extend([P::Until(l), P::Range(l), P::RecLit(l), P::Bytes(l), P::Fn(l, l.len()), P::Fn(l, l.len() + 2)]);
    }
    multi.extend([P::RecTwo, P::Prefix, P::Byte("a")]);
    let mw = mk("abé€", if q { 4 } else { 5 });
    c.sweep("multi-byte text", &multi, |p| format!("{:?}", p), |k: &mut W, p| {
        slice_check::<Text>(k, p, &mw, 4)?;
        slice_check::<TextPos>(k, p, &mw, 3)?;
        slice_check::<Slice>(k, p, &mw, 4)
    });
}

fn run_prop(prop: &str, c: &mut Ctx) {
    match prop {
        "P16" => p16(c),
        "P17" => p17(c),
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    mc_rt::main(run_prop)
}
