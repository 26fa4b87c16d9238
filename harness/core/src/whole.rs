//! Recursive languages written the way users of the library write them, each with an independent
//! recursive-descent reader.
use crate::real::In;
use crate::val::Val;
use combine::parser::char::{digit, letter, spaces, string};
use combine::parser::choice::choice;
use combine::parser::combinator::{any_partial_state, any_send_sync_partial_state, attempt, opaque, AnyPartialState, AnySendSyncPartialState, FnOpaque};
use combine::parser::repeat::{chainl1, chainr1, many, many1, skip_many, sep_by, sep_end_by};
use combine::parser::sequence::between;
use combine::parser::token::{any, none_of, token, tokens_cmp, value};
use combine::Parser;

/// What a reader says: the value and its end, or where the input cannot go on.
pub type Rd = Result<(Val, usize), usize>;

fn n(s: String) -> Val {
    Val::N(s.parse().unwrap())
}
fn tag(s: &str, v: Val) -> Val {
    Val::pair(Val::S(s.into()), v)
}

// -- JSON, with `parser!` and a boxed `Send + Sync` state ---------------------------------------
fn lex<I: In, P: Parser<I>>(p: P) -> impl Parser<I, Output = P::Output, PartialState = impl Default + Send + Sync + 'static>
where
    P::PartialState: Send + Sync + 'static,
    P::Output: Send + Sync + 'static,
{
    p.skip(skip_many(token(' ')))
}
fn quoted<I: In>() -> impl Parser<I, Output = String, PartialState = impl Default + Send + Sync + 'static> {
    lex(between(token('"'), token('"'), many(none_of("\"\\".chars()).or(token('\\').with(any())))))
}
combine::parser! {
    type PartialState = AnySendSyncPartialState;
    pub fn json[I]()(I) -> Val
    where [I: In]
    {
        any_send_sync_partial_state(choice((
            quoted().map(Val::S),
            lex(many1::<String, _, _>(digit())).map(n),
            lex(tokens_cmp("nil".chars(), |a: char, b: char| a == b)).map(|_| Val::U),
            between(lex(token('[')), lex(token(']')), sep_by(json(), lex(token(',')))).map(Val::L),
            between(
                lex(token('{')),
                lex(token('}')),
                sep_by((quoted(), lex(token(':')), json()).map(|(k, _, v)| tag(&k, v)), lex(token(','))),
            ).map(|l: Vec<Val>| tag("obj", Val::L(l))),
        )))
    }
}

// -- arithmetic, with `parser!` and `opaque!` ----------------------------------------------------
type Op = fn(Val, Val) -> Val;
combine::parser! {
    type PartialState = AnyPartialState;
    pub fn expr[I]()(I) -> Val
    where [I: In]
    {
        fn op(c: char) -> Op {
            match c {
                '+' => |a, b| Val::L(vec![Val::C('+'), a, b]),
                '-' => |a, b| Val::L(vec![Val::C('-'), a, b]),
                '*' => |a, b| Val::L(vec![Val::C('*'), a, b]),
                _ => |a, b| Val::L(vec![Val::C('^'), a, b]),
            }
        }
        let atom = combine::opaque!(no_partial_choice());
        let power = chainr1(atom, token('^').map(op));
        let term = chainl1(power, token('*').map(op));
        any_partial_state(chainl1(term, token('+').or(token('-')).map(op)))
    }
}
fn no_partial_choice<I: In>() -> impl Parser<I, Output = Val, PartialState = AnyPartialState> {
    any_partial_state(choice((
        many1::<String, _, _>(digit()).map(n),
        between(token('('), token(')'), expr()),
        token('~').with(combine::opaque!(no_partial_choice())).map(|v| tag("~", v)),
    )))
}

// -- nested lists with a function returning `FnOpaque` -------------------------------------------
pub fn sexpr<I: In>() -> FnOpaque<I, Val, AnyPartialState> {
    opaque(|f| {
        let atom = many1::<String, _, _>(letter()).map(Val::S);
        let list = between(token('(').skip(spaces()), token(')'), many(sexpr::<I>())).map(Val::L);
        let quote = token('\'').with(sexpr::<I>()).map(|v| tag("'", v));
        f(&mut any_partial_state(choice((atom, list, quote)).skip(spaces())))
    })
}

// -- statements: keywords which share a prefix, backtracking, blocks -----------------------------
combine::parser! {
    type PartialState = AnyPartialState;
    pub fn stmt[I]()(I) -> Val
    where [I: In]
    {
        any_partial_state(choice([
            combine::parser::combinator::Either::Left(attempt(string("do")).with(block())),
            combine::parser::combinator::Either::Right(
                combine::parser::range::take_while1(|c: char| c == 'd' || c == 'o' || c == 'x').map(|s: &'static str| Val::S(s.into())),
            ),
        ]))
    }
}
fn block<I: In>() -> impl Parser<I, Output = Val, PartialState = AnyPartialState> {
    any_partial_state(between(token('{'), token('}'), sep_end_by(stmt(), token(';'))).map(Val::L).or(value(Val::U)))
}

pub struct Lang {
    pub name: &'static str,
    pub alphabet: &'static str,
    pub read: fn(&[char], usize) -> Rd,
    /// nested `n` deep
    pub nested: fn(usize) -> String,
}

fn ws(w: &[char], mut p: usize) -> usize {
    while w.get(p) == Some(&' ') {
        p += 1
    }
    p
}
fn want(w: &[char], p: usize, c: char) -> Result<usize, usize> {
    if w.get(p) == Some(&c) {
        Ok(p + 1)
    } else {
        Err(p)
    }
}
fn number(w: &[char], p: usize) -> Rd {
    let mut e = p;
    let mut v = 0i64;
    while let Some(d) = w.get(e).and_then(|c| c.to_digit(10)) {
        v = v * 10 + d as i64;
        e += 1;
    }
    if e == p {
        Err(p)
    } else {
        Ok((Val::N(v), e))
    }
}
fn jstr(w: &[char], p: usize) -> Result<(String, usize), usize> {
    let mut p = want(w, p, '"')?;
    let mut s = String::new();
    loop {
        match w.get(p) {
            Some('"') => return Ok((s, ws(w, p + 1))),
            Some('\\') => match w.get(p + 1) {
                Some(c) => {
                    s.push(*c);
                    p += 2;
                }
                None => return Err(p + 1),
            },
            Some(c) => {
                s.push(*c);
                p += 1;
            }
            None => return Err(p),
        }
    }
}
fn separated<T>(w: &[char], mut p: usize, close: char, item: impl Fn(usize) -> Result<(T, usize), usize>) -> Result<(Vec<T>, usize), usize> {
    let mut out = vec![];
    match item(p) {
        Err(e) if e == p => {}
        r => {
            let (v, e) = r?;
            out.push(v);
            p = e;
            while w.get(p) == Some(&',') {
                let (v, e) = item(ws(w, p + 1))?;
                out.push(v);
                p = e;
            }
        }
    }
    let p = want(w, p, close)?;
    Ok((out, ws(w, p)))
}
pub fn read_json(w: &[char], p: usize) -> Rd {
    match w.get(p) {
        Some('"') => jstr(w, p).map(|(s, e)| (Val::S(s), e)),
        Some('1') => number(w, p).map(|(v, e)| (v, ws(w, e))),
        Some('n') => {
            // a literal is reported where it starts
            if w[p..].starts_with(&['n', 'i', 'l']) {
                Ok((Val::U, ws(w, p + 3)))
            } else {
                Err(p)
            }
        }
        Some('[') => separated(w, ws(w, p + 1), ']', |p| read_json(w, p)).map(|(l, e)| (Val::L(l), e)),
        Some('{') => separated(w, ws(w, p + 1), '}', |p| {
            let (k, p) = jstr(w, p)?;
            let p = ws(w, want(w, p, ':')?);
            let (v, p) = read_json(w, p)?;
            Ok((tag(&k, v), p))
        })
        .map(|(l, e)| (tag("obj", Val::L(l)), e)),
        _ => Err(p),
    }
}
fn read_atom(w: &[char], p: usize) -> Rd {
    match w.get(p) {
        Some('(') => {
            let (v, p) = read_expr(w, p + 1)?;
            Ok((v, want(w, p, ')')?))
        }
        Some('~') => read_atom(w, p + 1).map(|(v, e)| (tag("~", v), e)),
        _ => number(w, p),
    }
}
fn bin(o: char, a: Val, b: Val) -> Val {
    Val::L(vec![Val::C(o), a, b])
}
fn read_power(w: &[char], p: usize) -> Rd {
    let (a, p) = read_atom(w, p)?;
    if w.get(p) == Some(&'^') {
        let (b, p) = read_power(w, p + 1)?;
        return Ok((bin('^', a, b), p));
    }
    Ok((a, p))
}
fn read_term(w: &[char], p: usize) -> Rd {
    let (mut a, mut p) = read_power(w, p)?;
    while w.get(p) == Some(&'*') {
        let (b, e) = read_power(w, p + 1)?;
        a = bin('*', a, b);
        p = e;
    }
    Ok((a, p))
}
pub fn read_expr(w: &[char], p: usize) -> Rd {
    let (mut a, mut p) = read_term(w, p)?;
    while let Some(o @ ('+' | '-')) = w.get(p) {
        let (b, e) = read_term(w, p + 1)?;
        a = bin(*o, a, b);
        p = e;
    }
    Ok((a, p))
}
pub fn read_sexpr(w: &[char], p: usize) -> Rd {
    match w.get(p) {
        Some('(') => {
            let mut l = vec![];
            let mut p = ws(w, p + 1);
            loop {
                match read_sexpr(w, p) {
                    Ok((v, e)) => {
                        l.push(v);
                        p = e;
                    }
                    Err(e) if e == p => break,
                    Err(e) => return Err(e),
                }
            }
            Ok((Val::L(l), ws(w, want(w, p, ')')?)))
        }
        Some('\'') => read_sexpr(w, p + 1).map(|(v, e)| (tag("'", v), e)),
        _ => {
            let mut e = p;
            while w.get(e).map_or(false, |c| c.is_alphabetic()) {
                e += 1;
            }
            if e == p {
                Err(p)
            } else {
                Ok((Val::S(w[p..e].iter().collect()), ws(w, e)))
            }
        }
    }
}
pub fn read_stmt(w: &[char], p: usize) -> Rd {
    if w[p..].starts_with(&['d', 'o']) {
        let mut p = p + 2;
        if w.get(p) != Some(&'{') {
            return Ok((Val::U, p));
        }
        p += 1;
        let mut l = vec![];
        loop {
            match read_stmt(w, p) {
                Ok((v, e)) => {
                    l.push(v);
                    p = e;
                    if w.get(p) != Some(&';') {
                        break;
                    }
                    p += 1;
                }
                Err(e) if e == p => break,
                Err(e) => return Err(e),
            }
        }
        return Ok((Val::L(l), want(w, p, '}')?));
    }
    let mut e = p;
    while matches!(w.get(e), Some('d' | 'o' | 'x')) {
        e += 1;
    }
    if e == p {
        Err(p)
    } else {
        Ok((Val::S(w[p..e].iter().collect()), e))
    }
}

pub const LANGS: [Lang; 4] = [
    Lang { name: "json", alphabet: "[]{},:\"1n\\ il", read: read_json, nested: |n| format!("{}1{}", "[".repeat(n), "]".repeat(n)) },
    Lang { name: "expr", alphabet: "1+-*^()~", read: read_expr, nested: |n| format!("{}1{}", "(".repeat(n), ")".repeat(n)) },
    Lang { name: "sexpr", alphabet: "(a) '", read: read_sexpr, nested: |n| format!("{}a{}", "(".repeat(n), ")".repeat(n)) },
    Lang { name: "stmt", alphabet: "dox{;}", read: read_stmt, nested: |n| format!("{}x{}", "do{".repeat(n), "}".repeat(n)) },
];

/// All words the reader cannot refuse before their end, each also with everything that could follow
/// it, by number of characters.
pub fn viable(l: &Lang, max: usize) -> Vec<String> {
    let mut out = vec![];
    let mut level: Vec<Vec<char>> = vec![vec![]];
    for n in 0..=max {
        let mut next = vec![];
        for w in level {
            out.push(w.iter().collect());
            let goes_on = match (l.read)(&w, 0) {
                Ok((_, e)) => e == w.len(),
                // a literal is refused at its start, so look for one that has only begun
                Err(e) => e == w.len() || (l.name == "json" && (w[e..] == ['n'] || w[e..] == ['n', 'i'])),
            };
            if goes_on && n < max {
                for c in l.alphabet.chars() {
                    let mut v = w.clone();
                    v.push(c);
                    next.push(v);
                }
            }
        }
        level = next;
    }
    out
}
