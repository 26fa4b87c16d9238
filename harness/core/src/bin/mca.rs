//! P14: what is recorded about a failure, and the algebra of parse results.
use combine::easy::{self, Errors, Info};
use combine::error::{self, Commit, ParseError, ParseErrorInto, ParseResult, StreamError, StreamErrorInto, StringStreamError, Tracked, UnexpectedParse};
use combine::error::ParseResult::*;
use combine::stream::read;
use mc_rt::{viol, Ctx, Viol, W};
use std::collections::BTreeSet;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

type E = easy::Error<char, &'static str>;
type Es = Errors<char, &'static str, usize>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum K {
    Unexpected,
    Expected,
    Message,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum I {
    Tok(char),
    Ran(&'static str),
    Static(&'static str),
    Fmt(&'static str),
}
/// One thing that can be said about a failure.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum X {
    Kind(K, I),
    Eoi,
    Other(&'static str),
}
use I::*;
use K::*;
use X::*;

#[derive(Debug)]
struct Msg(&'static str);
impl std::fmt::Display for Msg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Msg {}

const EOI: &str = "end of input";

/// What the error looks like to someone who reads it: kind, how it is quoted, text.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Seen {
    Kind(K, u8, String),
    Other(String),
}
fn seen(x: X) -> Seen {
    match x {
        Kind(k, Tok(c)) => Seen::Kind(k, 0, c.to_string()),
        Kind(k, Ran(s)) => Seen::Kind(k, 1, s.to_string()),
        Kind(k, Static(s) | Fmt(s)) => Seen::Kind(k, 2, s.to_string()),
        Eoi => Seen::Kind(Unexpected, 2, EOI.into()),
        Other(s) => Seen::Other(s.into()),
    }
}
fn seen_real<T: ToString, R: ToString>(e: &easy::Error<T, R>) -> Seen {
    let (k, i) = match e {
        easy::Error::Unexpected(i) => (Unexpected, i),
        easy::Error::Expected(i) => (Expected, i),
        easy::Error::Message(i) => (Message, i),
        easy::Error::Other(e) => return Seen::Other(e.to_string()),
    };
    match i {
        Info::Token(t) => Seen::Kind(k, 0, t.to_string()),
        Info::Range(t) => Seen::Kind(k, 1, t.to_string()),
        Info::Owned(t) => Seen::Kind(k, 2, t.to_string()),
        Info::Static(t) => Seen::Kind(k, 2, t.to_string()),
    }
}

/// Builds the error with the constructors a stream or a parser uses.
fn make<S: StreamError<char, &'static str>>(x: X) -> S {
    match x {
        Kind(Unexpected, Tok(c)) => S::unexpected_token(c),
        Kind(Unexpected, Ran(c)) => S::unexpected_range(c),
        Kind(Unexpected, Static(c)) => S::unexpected_static_message(c),
        Kind(Unexpected, Fmt(c)) => S::unexpected_format(c),
        Kind(Expected, Tok(c)) => S::expected_token(c),
        Kind(Expected, Ran(c)) => S::expected_range(c),
        Kind(Expected, Static(c)) => S::expected_static_message(c),
        Kind(Expected, Fmt(c)) => S::expected_format(c),
        Kind(Message, Tok(c)) => S::message_token(c),
        Kind(Message, Ran(c)) => S::message_range(c),
        Kind(Message, Static(c)) => S::message_static_message(c),
        Kind(Message, Fmt(c)) => S::message_format(c),
        Eoi => S::end_of_input(),
        Other(s) => S::other(Msg(s)),
    }
}
/// The same through `unexpected`, `expected` and `message` with an `ErrorInfo` value.
fn make_info<S: StreamError<char, &'static str>>(x: X, v: usize) -> S {
    macro_rules! by {
        ($f:ident, $i:expr) => {
            match $i {
                Tok(c) => match v {
                    0 => S::$f(c),
                    1 => S::$f(error::Token(c)),
                    2 => S::$f(&error::Token(c)),
                    _ => S::$f(error::Info::<char, &'static str, &'static str>::Token(c)),
                },
                Ran(r) => match v {
                    0 | 1 => S::$f(error::Range(r)),
                    2 => S::$f(&&error::Range(r)),
                    _ => S::$f(error::Info::<char, &'static str, &'static str>::Range(r)),
                },
                Static(s) => match v {
                    0 | 1 => S::$f(s),
                    2 => S::$f(&s),
                    _ => S::$f(error::Info::<char, &'static str, &'static str>::Static(s)),
                },
                Fmt(s) => match v {
                    0 | 1 => S::$f(error::Format(s)),
                    2 => S::$f(&error::Format(format!("{}", s))),
                    _ => S::$f(error::Info::<char, &'static str, String>::Format(s.to_string())),
                },
            }
        };
    }
    match x {
        Kind(Unexpected, i) => by!(unexpected, i),
        Kind(Expected, i) => by!(expected, i),
        Kind(Message, i) => by!(message, i),
        _ => make(x),
    }
}

fn pool() -> Vec<X> {
    let mut v = vec![Eoi];
    for k in [Unexpected, Expected, Message] {
        for i in [Tok('a'), Ran("a"), Static("a"), Fmt("a"), Static("b"), Ran("bc"), Tok('b')] {
            v.push(Kind(k, i));
        }
    }
    v.push(Other("a"));
    v
}

// ---------------------------------------------------------------- the model of a report

#[derive(Clone, Debug, PartialEq, Eq)]
struct M {
    pos: usize,
    errs: Vec<Seen>,
}
impl M {
    fn add(&mut self, s: Seen) {
        if matches!(s, Seen::Other(_)) || !self.errs.contains(&s) {
            self.errs.push(s);
        }
    }
    fn merge(mut self, o: M) -> M {
        if self.pos < o.pos {
            o
        } else {
            if self.pos == o.pos {
                for s in o.errs {
                    self.add(s);
                }
            }
            self
        }
    }
    fn eoi(&self) -> bool {
        self.errs.contains(&seen(Eoi))
    }
    fn text(&self) -> String {
        let q = |s: &Seen| match s {
            Seen::Kind(_, 2, t) | Seen::Other(t) => t.clone(),
            Seen::Kind(_, _, t) => format!("`{}`", t),
        };
        let of = |k: K| self.errs.iter().filter(move |s| matches!(s, Seen::Kind(x, ..) if *x == k)).map(q).collect::<Vec<_>>();
        let mut o = format!("Parse error at {}\n", self.pos);
        for u in of(Unexpected) {
            o += &format!("Unexpected {}\n", u);
        }
        let mut ex = of(Expected);
        if let Some(last) = ex.pop() {
            o += "Expected ";
            if !ex.is_empty() {
                o += &ex.join(", ");
                o += " or ";
            }
            o += &last;
            o += "\n";
        }
        for s in &self.errs {
            if !matches!(s, Seen::Kind(Unexpected | Expected, ..)) {
                o += &q(s);
                o += "\n";
            }
        }
        o
    }
}

#[derive(Clone, Debug)]
enum Op {
    Add(X),
    /// `add_unexpected`, `add_expected`, `add_message` of the trait
    AddInfo(X),
    At(usize),
    Merge(usize, Vec<X>),
    /// merged into another report instead of the other way around
    Merged(usize, Vec<X>),
    Clear,
    /// the trait function: errors added inside are replaced by the one given
    Set(X, Vec<X>),
    SetInherent(I),
    /// position and payloads mapped to something else and back
    MapBack,
    /// converted to the same kind of report
    Convert,
}

fn real_of(pos: usize, xs: &[X]) -> Es {
    let mut e = <Es as ParseError<char, &'static str, usize>>::empty(pos);
    for x in xs {
        ParseError::add(&mut e, make(*x));
    }
    e
}
fn model_of(pos: usize, xs: &[X]) -> M {
    let mut m = M { pos, errs: vec![] };
    for x in xs {
        m.add(seen(*x));
    }
    m
}

fn step(e: Es, m: M, op: &Op) -> (Es, M) {
    let (mut e, mut m) = (e, m);
    match op {
        Op::Add(x) => {
            ParseError::add(&mut e, make(*x));
            m.add(seen(*x));
        }
        Op::AddInfo(x) => {
            macro_rules! by {
                ($f:ident, $i:expr) => {
                    match $i {
                        Tok(c) => ParseError::$f(&mut e, error::Token(c)),
                        Ran(c) => ParseError::$f(&mut e, error::Range(c)),
                        Static(c) => ParseError::$f(&mut e, c),
                        Fmt(c) => ParseError::$f(&mut e, error::Format(c)),
                    }
                };
            }
            match *x {
                Kind(Unexpected, i) => by!(add_unexpected, i),
                Kind(Expected, i) => by!(add_expected, i),
                Kind(Message, i) => by!(add_message, i),
                x => e.add_error(make(x)),
            }
            m.add(seen(*x));
        }
        Op::At(p) => {
            ParseError::set_position(&mut e, *p);
            m.pos = *p;
        }
        Op::Merge(p, xs) => {
            e = ParseError::merge(e, real_of(*p, xs));
            m = m.merge(model_of(*p, xs));
        }
        Op::Merged(p, xs) => {
            e = real_of(*p, xs).merge(e);
            m = model_of(*p, xs).merge(m);
        }
        Op::Clear => {
            ParseError::clear_expected(&mut e);
            m.errs.retain(|s| !matches!(s, Seen::Kind(Expected, ..)));
        }
        Op::Set(x, inner) => {
            let mut t = Tracked::from(e);
            <Es as ParseError<_, _, _>>::set_expected(&mut t, make(*x), |t| {
                for i in inner {
                    ParseError::add(&mut t.error, make(*i));
                }
            });
            e = t.error;
            let n = m.errs.len();
            for i in inner {
                m.add(seen(*i));
            }
            let tail: Vec<Seen> = m.errs.drain(n..).filter(|s| !matches!(s, Seen::Kind(Expected, ..))).collect();
            m.errs.extend(tail);
            m.add(seen(*x));
        }
        Op::SetInherent(i) => {
            let info = match *i {
                Tok(c) => Info::Token(c),
                Ran(c) => Info::Range(c),
                Static(c) => Info::Static(c),
                Fmt(c) => Info::Owned(c.into()),
            };
            Es::set_expected(&mut e, info);
            m.errs.retain(|s| !matches!(s, Seen::Kind(Expected, ..)));
            m.errs.push(seen(Kind(Expected, *i)));
        }
        Op::MapBack => {
            e = e
                .map_token(|t| t as u32)
                .map_range(|r| (r.len(), r))
                .map_position(|p| (p, "x"))
                .map_range(|r| r.1)
                .map_token(|t| char::from_u32(t).unwrap())
                .map_position(|p| p.0);
        }
        Op::Convert => {
            let o: Errors<Big, String, At> = ParseErrorInto::<char, &'static str, usize>::into_other_error(e);
            m.errs = m.errs.into_iter().map(|s| if let Seen::Other(t) = s { Seen::Kind(Message, 2, t) } else { s }).fold(vec![], |mut v, s| {
                if !v.contains(&s) {
                    v.push(s)
                }
                v
            });
            e = o.map_position(|p| p.0).map_token(|t| t.0).map_range(|r| &*Box::leak(r.into_boxed_str()));
        }
    }
    (e, m)
}

/// Token and range types one converts into.
#[derive(Clone, Debug, PartialEq)]
struct Big(char);
impl From<char> for Big {
    fn from(c: char) -> Big {
        Big(c)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct At(usize);
impl From<usize> for At {
    fn from(p: usize) -> At {
        At(p)
    }
}

fn observe(e: &Es, m: &M) -> Result<(), String> {
    if e.position != m.pos || ParseError::position(e) != m.pos {
        return Err(format!("position {} instead of {}", e.position, m.pos));
    }
    let s: Vec<Seen> = e.errors.iter().map(seen_real).collect();
    if s != m.errs {
        return Err(format!("contains {:?} instead of {:?}", s, m.errs));
    }
    if ParseError::is_unexpected_end_of_input(e) != m.eoi() {
        return Err(format!("is_unexpected_end_of_input {} with {:?}", !m.eoi(), m.errs));
    }
    let t = format!("{}", e);
    if t != m.text() {
        return Err(format!("reads {:?} instead of {:?}", t, m.text()));
    }
    Ok(())
}
fn clone(e: &Es) -> Es {
    let i = |i: &Info<char, &'static str>| i.clone();
    Errors::from_errors(
        e.position,
        e.errors
            .iter()
            .map(|e| match e {
                easy::Error::Unexpected(x) => easy::Error::Unexpected(i(x)),
                easy::Error::Expected(x) => easy::Error::Expected(i(x)),
                easy::Error::Message(x) => easy::Error::Message(i(x)),
                easy::Error::Other(x) => easy::Error::Other(Box::new(Msg(Box::leak(x.to_string().into_boxed_str())))),
            })
            .collect(),
    )
}

// ---------------------------------------------------------------- errors which keep one thing only

/// Such an error remembers that the input ended; of everything else it keeps the latest.
fn single<S>(w: &mut W, name: &str, xs: &[X]) -> Result<(), String>
where
    S: StreamError<char, &'static str> + ParseError<char, &'static str, usize, StreamError = S> + std::fmt::Debug + std::fmt::Display,
{
    let eoi = |s: &S| ParseError::<char, &'static str, usize>::is_unexpected_end_of_input(s);
    for from_error in [false, true] {
        let mut it = xs.iter();
        let mut s: S;
        let mut latest;
        let mut want = false;
        if from_error {
            let Some(x) = it.next() else { return Ok(()) };
            s = S::from_error(3, make(*x));
            latest = Some(*x);
            want = *x == Eoi;
        } else {
            s = S::empty(3);
            latest = None;
        }
        for x in it {
            ParseError::add(&mut s, make(*x));
            want |= *x == Eoi;
            latest = if want { Some(Eoi) } else { Some(*x) };
            s.set_position(7);
            w.transitions += 1;
            if eoi(&s) != want {
                return Err(format!("{}: {:?} gives {:?}", name, xs, s));
            }
        }
        if eoi(&s) != want || StreamError::<char, &'static str>::is_unexpected_end_of_input(&s) != want {
            return Err(format!("{}: {:?} gives {:?}", name, xs, s));
        }
        if let Some(x) = latest {
            if s != make(x) && !matches!(x, Other(_)) {
                return Err(format!("{}: {:?} gives {:?} instead of the latest, {:?}", name, xs, s, make::<S>(x)));
            }
        }
        // a merge takes the error of the parser which failed last
        w.traces += 1;
    }
    Ok(())
}

/// Converting one error: every kind, payload and the end of input survive where the target can say them.
fn converts(x: X) -> Result<(), String> {
    let e = || make::<E>(x);
    let same = |r: Seen, what: &str| {
        let want = match seen(x) {
            Seen::Other(t) => Seen::Kind(Message, 2, t),
            s => s,
        };
        if r == want {
            Ok(())
        } else {
            Err(format!("{}: {:?} becomes {:?}", what, x, r))
        }
    };
    same(seen_real(&StreamError::into_other::<E>(e())), "StreamError::into_other")?;
    same(seen_real(&StreamErrorInto::<char, &'static str>::into_other_error::<easy::Error<Tk, String>, Tk, String>(e())), "StreamErrorInto")?;
    let p = ParseError::<char, &'static str, usize>::into_other::<Es>(e());
    same(seen_real(&p.errors[0]), "ParseError::into_other")?;
    let p: Es = ParseError::into_other(Errors::new(4usize, e()));
    same(seen_real(&p.errors[0]), "Errors::into_other")?;
    if p.position != 4 || p.errors.len() != 1 {
        return Err(format!("Errors::into_other: {:?}", p));
    }
    macro_rules! to_single {
        ($t:ty, $($path:expr => $v:expr),*) => {$({
            let s: $t = $v;
            if StreamError::<char, &'static str>::is_unexpected_end_of_input(&s) != (x == Eoi) {
                return Err(format!("{} to {}: {:?} becomes {:?}", $path, stringify!($t), x, s));
            }
            // and back: only the end of input is certain to survive
            let b: E = StreamError::<char, &'static str>::into_other(s);
            if StreamError::is_unexpected_end_of_input(&b) != (x == Eoi) || !matches!(b, easy::Error::Unexpected(_)) {
                return Err(format!("{} to {} and back: {:?} becomes {:?}", $path, stringify!($t), x, b));
            }
        })*};
    }
    macro_rules! all {
        ($($t:ty),*) => {$(to_single!($t,
            "StreamError::into_other" => StreamError::into_other(e()),
            "StreamErrorInto" => StreamErrorInto::<char, &'static str>::into_other_error::<$t, char, &'static str>(e()),
            "ParseError::into_other" => ParseError::<char, &'static str, usize>::into_other(e()),
            "Errors::into_other" => ParseError::into_other(Errors::new(4usize, e())),
            "ParseErrorInto" => ParseErrorInto::<char, &'static str, usize>::into_other_error::<$t, char, &'static str, usize>(Errors::new(4usize, e()))
        );)*};
    }
    all!(UnexpectedParse, StringStreamError, read::Error);
    macro_rules! between {
        ($($s:ty => $($t:ty),*);*) => {$($({
            let s: $t = StreamError::<char, &'static str>::into_other(make::<$s>(x));
            let p: $t = ParseError::<char, &'static str, usize>::into_other(make::<$s>(x));
            for r in [s, p] {
                if StreamError::<char, &'static str>::is_unexpected_end_of_input(&r) != (x == Eoi) {
                    return Err(format!("{} to {}: {:?} becomes {:?}", stringify!($s), stringify!($t), x, r));
                }
            }
        })*)*};
    }
    between!(UnexpectedParse => StringStreamError, read::Error, UnexpectedParse; StringStreamError => UnexpectedParse, read::Error, StringStreamError; read::Error => UnexpectedParse, StringStreamError, read::Error);
    Ok(())
}
#[derive(Clone, Debug, PartialEq)]
struct Tk(char);
impl From<char> for Tk {
    fn from(c: char) -> Tk {
        Tk(c)
    }
}
impl std::fmt::Display for Tk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Display for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

// ---------------------------------------------------------------- results

type PRes = ParseResult<u8, u8>;
fn results() -> Vec<PRes> {
    vec![CommitOk(1), PeekOk(1), CommitErr(2), PeekErr(Tracked::from(2))]
}
/// (ok?, committed?, payload)
fn flat<T: Copy, E: Copy + Into<u64>>(r: &ParseResult<T, E>) -> (bool, bool, u64)
where
    T: Into<u64>,
{
    match r {
        CommitOk(v) => (true, true, (*v).into()),
        PeekOk(v) => (true, false, (*v).into()),
        CommitErr(e) => (false, true, (*e).into()),
        PeekErr(e) => (false, false, e.error.into()),
    }
}

fn algebra(w: &mut W) -> Result<(), String> {
    macro_rules! eq {
        ($a:expr, $b:expr, $($why:tt)*) => {{
            w.traces += 1;
            w.transitions += 1;
            let (a, b) = ($a, $b);
            if a != b {
                return Err(format!("{}: {:?} instead of {:?}", format!($($why)*), a, b));
            }
        }};
    }
    for r in results() {
        let (ok, com, v) = flat(&r);
        w.states += 1;
        eq!(r.is_ok(), ok, "is_ok of {:?}", r);
        eq!(r.is_err(), !ok, "is_err of {:?}", r);
        eq!(flat(&r.map(|v| v + 10)), (ok, com, if ok { v + 10 } else { v }), "map of {:?}", r);
        eq!(flat(&r.map_err(|v| v + 10)), (ok, com, if ok { v } else { v + 10 }), "map_err of {:?}", r);
        let a = r.as_ref();
        eq!(a.map(|v| *v).map_err(|e| *e), r, "as_ref of {:?}", r);
        let s = r.into_result();
        eq!(
            match s {
                Ok((v, c)) => (true, !c.is_peek(), v as u64),
                Err(c) => (false, !c.is_peek(), c.into_inner().error as u64),
            },
            (ok, com, v),
            "into_result of {:?}",
            r
        );
        eq!(PRes::from(r.into_result()), r, "from into_result of {:?}", r);
        let s: Result<Commit<u8>, Commit<Tracked<u8>>> = r.into();
        eq!(
            match s {
                Ok(c) => (true, !c.is_peek(), c.into_inner() as u64),
                Err(c) => (false, !c.is_peek(), c.into_inner().error as u64),
            },
            (ok, com, v),
            "conversion of {:?}",
            r
        );
        for n in results() {
            let (ok2, com2, v2) = flat(&n);
            let want = if ok { (ok2, com || com2, v2) } else { (ok, com, v) };
            let mut called = 0;
            eq!(
                flat(&r.and_then(|x| {
                    called += 1;
                    assert_eq!(x as u64, v);
                    n
                })),
                want,
                "{:?} and_then {:?}",
                r,
                n
            );
            eq!(called, ok as u32, "calls of the continuation in {:?} and_then {:?}", r, n);
            for l in results() {
                let want = {
                    let (a, b, c) = want;
                    let (ok3, com3, v3) = flat(&l);
                    if a {
                        (ok3, b || com3, v3)
                    } else {
                        (a, b, c)
                    }
                };
                eq!(flat(&r.and_then(|_| n).and_then(|_| l)), want, "{:?}, {:?}, {:?}", r, n, l);
                eq!(flat(&r.and_then(|_| n.and_then(|_| l))), want, "{:?}, ({:?}, {:?})", r, n, l);
            }
        }
    }
    for com in [false, true] {
        let c = |v: u8| if com { Commit::Commit(v) } else { Commit::Peek(v) };
        let of = |c: Commit<u8>| (!c.is_peek(), c.into_inner());
        w.states += 1;
        eq!(of(c(5)), (com, 5), "{:?}", c(5));
        eq!(*c(5).as_ref(), 5, "as_ref");
        let mut x = c(5);
        *x.as_mut() += 1;
        eq!(of(x), (com, 6), "as_mut");
        eq!(of(c(5).map(|v| v + 1)), (com, 6), "map of {:?}", c(5));
        eq!(of(c(5).into_commit()), (true, 5), "into_commit of {:?}", c(5));
        eq!(of(c(5).into_peek()), (false, 5), "into_peek of {:?}", c(5));
        for o in [Commit::Commit(8), Commit::Peek(8)] {
            eq!(of(c(5).merge(o)), (com || !o.is_peek(), 8), "{:?} merge {:?}", c(5), o);
        }
        for n in results() {
            let (ok2, com2, v2) = flat(&n);
            let r = c(5).combine_commit(|x| {
                assert_eq!(x, 5);
                n
            });
            eq!(flat(&r), (ok2, com || com2, v2), "{:?} combine_commit {:?}", c(5), n);
            let r = PRes::from(c(5).combine(|_| n.into_result()));
            eq!(flat(&r), (ok2, com || com2, v2), "{:?} combine {:?}", c(5), n);
        }
    }
    w.outcome("laws");
    Ok(())
}

fn run_prop(prop: &str, c: &mut Ctx) {
    if prop != "P14" {
        panic!("unknown property {}", prop);
    }
    let q = c.quick();
    let pool = pool();
    c.assume("tokens and ranges are compared by their own equality; formatted and static texts with the same wording are the same error");
    // building and converting one error
    c.sweep("constructors", &pool, |x| format!("{:?}", x), |w: &mut W, x| {
        for v in 0..4 {
            let e = make_info::<E>(*x, v);
            w.transitions += 1;
            if seen_real(&e) != seen(*x) {
                return Err(viol("constructor", format!("{:?} through form {} gives {:?}", x, v, e)));
            }
        }
        if seen_real(&make::<E>(*x)) != seen(*x) {
            return Err(viol("constructor", format!("{:?} gives {:?}", x, make::<E>(*x))));
        }
        for y in [x].into_iter().chain(&pool) {
            w.states += 1;
            let same = seen(*x) == seen(*y) && !matches!(x, Other(_));
            if (make::<E>(*x) == make::<E>(*y)) != same {
                return Err(viol("equality", format!("{:?} and {:?} compare as {}", x, y, !same)));
            }
        }
        converts(*x).map_err(|m| viol("conversion", m))?;
        w.traces += 1;
        w.outcome("error");
        Ok(())
    });
    // errors which keep one thing
    let n = if q { 3 } else { 4 };
    let mut seqs: Vec<Vec<X>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| pool.iter().map(move |x| s.iter().copied().chain([*x]).collect())).collect();
        seqs.extend(last.iter().cloned());
    }
    c.bound("errors added to a one-value error", n);
    c.sweep("one-value errors", &seqs, |x| format!("{:?}", x), |w: &mut W, xs| {
        let r = single::<UnexpectedParse>(w, "UnexpectedParse", xs)
            .and_then(|_| single::<StringStreamError>(w, "StringStreamError", xs))
            .and_then(|_| single::<E>(w, "easy::Error", xs))
            .and_then(|_| single::<read::Error>(w, "read::Error", xs));
        w.states += 4;
        w.outcome(if xs.contains(&Eoi) { "with end of input" } else { "other" });
        r.map_err(|m| viol("one-value", m))
    });
    // reports
    let small: Vec<X> = vec![Eoi, Kind(Expected, Static("a")), Kind(Expected, Tok('a')), Kind(Unexpected, Tok('a')), Kind(Message, Fmt("a")), Kind(Expected, Fmt("b"))];
    let mut ops: Vec<Op> = pool.iter().map(|x| Op::Add(*x)).collect();
    ops.extend(pool.iter().step_by(2).map(|x| Op::AddInfo(*x)));
    ops.extend((0..3).map(Op::At));
    for p in 0..3 {
        for x in &small {
            ops.push(Op::Merge(p, vec![*x]));
        }
        ops.push(Op::Merge(p, vec![]));
        ops.push(Op::Merge(p, vec![Kind(Unexpected, Tok('a')), Kind(Expected, Static("a")), Eoi]));
        ops.push(Op::Merged(p, vec![]));
        ops.push(Op::Merged(p, vec![Kind(Expected, Static("b")), Kind(Unexpected, Tok('b'))]));
    }
    ops.push(Op::Clear);
    for x in [Kind(Expected, Static("a")), Kind(Expected, Tok('b'))] {
        ops.push(Op::Set(x, vec![]));
        for y in &small {
            ops.push(Op::Set(x, vec![*y]));
            ops.push(Op::Set(x, vec![Kind(Expected, Static("a")), *y, Kind(Message, Static("b"))]));
        }
    }
    ops.extend([Tok('a'), Ran("a"), Static("a"), Fmt("a")].map(Op::SetInherent));
    ops.push(Op::MapBack);
    ops.push(Op::Convert);
    let depth = if q { 3 } else { 4 };
    c.bound("operations on a report", depth);
    c.bound("kinds of operation", ops.len());
    let firsts: Vec<(usize, usize)> = (0..ops.len()).flat_map(|a| (0..ops.len()).map(move |b| (a, b))).collect();
    c.sweep("reports", &firsts, |(a, b)| format!("{:?}, {:?}", ops[*a], ops[*b]), |w: &mut W, (a, b)| {
        let mut e = real_of(1, &[]);
        let mut m = model_of(1, &[]);
        let mut path = vec![];
        fn go(w: &mut W, ops: &[Op], e: Es, m: M, path: &mut Vec<usize>, left: usize) -> Result<(), Viol> {
            if let Err(t) = observe(&e, &m) {
                let p: Vec<&Op> = path.iter().map(|i| &ops[*i]).collect();
                return Err(viol("report", format!("after {:?}: {}", p, t)));
            }
            w.states += 1;
            w.traces += 1;
            if left == 0 {
                return Ok(());
            }
            for i in 0..ops.len() {
                let (e2, m2) = step(clone(&e), m.clone(), &ops[i]);
                w.transitions += 1;
                path.push(i);
                go(w, ops, e2, m2, path, left - 1)?;
                path.pop();
            }
            Ok(())
        }
        for i in [*a, *b] {
            (e, m) = step(e, m, &ops[i]);
            path.push(i);
        }
        w.outcome("histories");
        go(w, &ops, e, m, &mut path, depth - 2)
    });
    // merging is associative, and what it keeps does not depend on the order
    let mut reps: Vec<(usize, Vec<X>)> = vec![];
    for p in 0..3 {
        for s in 0..(1u32 << small.len()) {
            if s.count_ones() <= 2 {
                reps.push((p, small.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|x| *x.1).collect()));
            }
        }
    }
    c.sweep("merging", &reps, |x| format!("{:?}", x), |w: &mut W, a| {
        let mk = |x: &(usize, Vec<X>)| real_of(x.0, &x.1);
        let set = |e: &Es| (e.position, e.errors.iter().map(|e| format!("{:?}", seen_real(e))).collect::<BTreeSet<_>>());
        if mk(a).merge(mk(a)) != mk(a) {
            return Err(viol("merge", format!("{:?} merged with itself", a)));
        }
        for b in &reps {
            let ab = mk(a).merge(mk(b));
            if set(&ab) != set(&mk(b).merge(mk(a))) {
                return Err(viol("merge", format!("{:?} and {:?} depend on the order", a, b)));
            }
            for d in &reps {
                w.states += 1;
                w.traces += 1;
                w.transitions += 4;
                if clone(&ab).merge(mk(d)) != mk(a).merge(mk(b).merge(mk(d))) {
                    return Err(viol("merge", format!("{:?}, {:?}, {:?} depend on grouping", a, b, d)));
                }
            }
        }
        w.outcome("triples");
        Ok(())
    });
    c.sweep("results", &[()], |_| "all".into(), |w: &mut W, _| algebra(w).map_err(|m| viol("algebra", m)));
}

fn main() {
    mc_rt::main(run_prop)
}
