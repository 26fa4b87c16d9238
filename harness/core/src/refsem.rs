//! Reference semantics: a plain recursive interpreter of the term language over a complete input.
//!
//! It is the textbook LL(1)-with-`attempt` discipline and shares no code with combine.
use crate::acts::{self, act};
use crate::gram::{B, G, T, U};
use crate::val::Val;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum R {
    Ok { v: Val, end: usize, com: bool },
    /// `com`: input was committed, so no alternative may be tried.
    Err { com: bool },
}
use R::*;

pub const PEEK: R = Err { com: false };
pub const COMMIT: R = Err { com: true };

fn ok(v: Val, start: usize, end: usize) -> R {
    Ok { v, end, com: end > start }
}

pub fn cs(set: &str, c: char) -> bool {
    set.chars().any(|x| x == c)
}

/// The function handed to `then`-like combinators and `and_then`-like ones.
pub fn pick(v: &Val) -> bool {
    v.has_a()
}

pub const ESCAPE: char = 'b';

thread_local! {
    /// Set while the input is one whose source fails at its end instead of ending.
    pub static BROKEN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub struct Ref<'w> {
    pub w: &'w [char],
}

impl<'w> Ref<'w> {
    fn s(&self, a: usize, b: usize) -> Val {
        Val::S(self.w[a..b].iter().collect())
    }

    /// Sequencing: run `g` at `pos` after something that committed iff `com`.
    fn seq(&self, com: bool, r: R) -> R {
        match r {
            Ok { v, end, com: c } => Ok { v, end, com: com || c },
            Err { com: c } => Err { com: com || c },
        }
    }

    fn acted(&self, r: R, what: &str) -> R {
        if let (Ok { v, .. }, false) = (&r, what.is_empty()) {
            act(acts::depth(), what, v);
        }
        r
    }

    fn tokens(&self, s: &str, pos: usize) -> R {
        let mut p = pos;
        for c in s.chars() {
            match self.w.get(p) {
                Some(x) if *x == c => p += 1,
                _ => return Err { com: p > pos },
            }
        }
        ok(Val::S(s.to_string()), pos, p)
    }

    fn one(&self, pos: usize, f: impl Fn(char) -> bool) -> R {
        match self.w.get(pos) {
            Some(c) if f(*c) => ok(Val::C(*c), pos, pos + 1),
            _ => PEEK,
        }
    }

    /// Repeats `g` between `min` and `max` times.
    fn rep(&self, g: &G, pos: usize, min: usize, max: usize) -> Result<(Vec<Val>, usize, bool), R> {
        let (mut out, mut p, mut com) = (vec![], pos, false);
        while out.len() < max {
            match self.run(g, p) {
                Ok { v, end, com: c } => {
                    out.push(v);
                    p = end;
                    com |= c;
                }
                Err { com: true } => return Result::Err(COMMIT),
                Err { com: false } => break,
            }
        }
        if out.len() < min {
            return Result::Err(Err { com });
        }
        Result::Ok((out, p, com))
    }

    fn list(&self, r: Result<(Vec<Val>, usize, bool), R>) -> R {
        match r {
            Result::Ok((l, end, com)) => Ok { v: Val::L(l), end, com },
            Result::Err(e) => e,
        }
    }
    fn unit(&self, r: R) -> R {
        match r {
            Ok { end, com, .. } => Ok { v: Val::U, end, com },
            e => e,
        }
    }
    fn map(&self, r: R, f: impl FnOnce(Val) -> Val) -> R {
        match r {
            Ok { v, end, com } => Ok { v: f(v), end, com },
            e => e,
        }
    }

    pub fn choice(&self, gs: &[&G], pos: usize) -> R {
        for g in gs {
            match self.run(g, pos) {
                Err { com: false } => continue,
                r => return r,
            }
        }
        PEEK
    }

    pub fn seqn(&self, gs: &[&G], pos: usize) -> Result<(Vec<Val>, usize, bool), R> {
        let (mut out, mut p, mut com) = (vec![], pos, false);
        for g in gs {
            match self.run(g, p) {
                Ok { v, end, com: c } => {
                    out.push(v);
                    p = end;
                    com |= c;
                }
                Err { com: c } => return Result::Err(Err { com: com || c }),
            }
        }
        Result::Ok((out, p, com))
    }

    pub fn run(&self, g: &G, pos: usize) -> R {
        let w = self.w;
        match g {
            G::Tok(c) => self.one(pos, |x| x == *c),
            G::FnParser(c) => self.one(pos, |x| x == *c),
            G::Any => self.one(pos, |_| true),
            G::Satisfy(s) | G::OneOf(s) => self.one(pos, |x| cs(s, x)),
            G::SatisfyMap(s) => self.map(self.one(pos, |x| cs(s, x)), |v| Val::L(vec![v])),
            G::NoneOf(s) => self.one(pos, |x| !cs(s, x)),
            G::Tokens(s) | G::TokensCmp(s) | G::Str(s) | G::StrCmp(s) => self.tokens(s, pos),
            G::Range(s) => match self.tokens(s, pos) {
                Err { .. } => PEEK,
                r => r,
            },
            G::Take(n) => {
                // `n` counts the units of the range, bytes for a string
                let (mut p, mut bytes) = (pos, 0);
                while bytes < *n && p < w.len() {
                    bytes += w[p].len_utf8();
                    p += 1;
                }
                if bytes == *n {
                    ok(self.s(pos, p), pos, p)
                } else {
                    PEEK
                }
            }
            G::TakeWhile(s) | G::TakeWhile1(s) => {
                let mut p = pos;
                while p < w.len() && cs(s, w[p]) {
                    p += 1;
                }
                if p == pos && matches!(g, G::TakeWhile1(_)) {
                    PEEK
                } else {
                    ok(self.s(pos, p), pos, p)
                }
            }
            G::TakeUntilRange(s) | G::TakeUntilBytes(s) => {
                let n: Vec<char> = s.chars().collect();
                match (pos..=w.len()).find(|p| w[*p..].starts_with(&n)) {
                    Some(p) => ok(self.s(pos, p), pos, p),
                    // Whether running out of input counts as committed is not specified
                    None => Err { com: !matches!(g, G::TakeUntilRange(_)) && pos < w.len() },
                }
            }
            G::TakeFn(s) | G::TakeUntilByte(s) => match (pos..w.len()).find(|p| cs(s, w[*p])) {
                Some(p) => ok(self.s(pos, p), pos, p),
                None => Err { com: pos < w.len() },
            },
            G::Eof => {
                if pos == w.len() && !BROKEN.with(|b| b.get()) {
                    ok(Val::U, pos, pos)
                } else {
                    PEEK
                }
            }
            G::Value => ok(Val::N(7), pos, pos),
            G::Produce => ok(Val::N(8), pos, pos),
            G::Unexpected => PEEK,
            G::Rule(i) => self.run(&crate::rules::rule(*i), pos),
            G::U(u, a) => acts::inside(acts::retried(*u), || self.unary(*u, a, pos)),
            G::B(b, x, y) => acts::inside(acts::retried2(*b), || self.binary(*b, x, y, pos)),
            G::T(t, x, y, z) => {
                use T::*;
                match t {
                    Seq3 | Struct3 => self.list(self.seqn(&[x, y, z], pos)),
                    Choice3 | ChoiceArr3 | ChoiceSlice3 => self.choice(&[x, y, z], pos),
                    Between => match self.seqn(&[x, z, y], pos) {
                        Result::Ok((mut l, end, com)) => Ok { v: l.remove(1), end, com },
                        Result::Err(e) => e,
                    },
                    Then | ThenPartial | ThenRef => match self.acted(self.run(x, pos), match t { Then => "then", ThenRef => "then_ref", _ => "" }) {
                        Ok { v, end, com } => {
                            let next = if pick(&v) { y } else { z };
                            let r = self.seq(com, self.run(next, end));
                            if let ThenRef = t {
                                self.map(r, |v2| Val::pair(v, v2))
                            } else {
                                r
                            }
                        }
                        e => e,
                    },
                }
            }
        }
    }

    fn unary(&self, u: U, a: &G, pos: usize) -> R {
        use U::*;
        match u {
            Attempt => match self.run(a, pos) {
                Err { .. } => PEEK,
                r => r,
            },
            LookAhead => match self.run(a, pos) {
                Ok { v, .. } => Ok { v, end: pos, com: false },
                e => e,
            },
            Not => match self.run(a, pos) {
                Ok { .. } => PEEK,
                Err { .. } => ok(Val::U, pos, pos),
            },
            Optional => match self.run(a, pos) {
                Ok { v, end, com } => Ok { v: Val::O(Some(Box::new(v))), end, com },
                Err { com: false } => ok(Val::O(None), pos, pos),
                e => e,
            },
            Many | Iter => self.list(self.rep(a, pos, 0, usize::MAX)),
            Many1 => self.list(self.rep(a, pos, 1, usize::MAX)),
            SkipMany => self.unit(self.list(self.rep(a, pos, 0, usize::MAX))),
            SkipMany1 => self.unit(self.list(self.rep(a, pos, 1, usize::MAX))),
            Count0 => self.list(self.rep(a, pos, 0, 0)),
            Count1 => self.list(self.rep(a, pos, 0, 1)),
            Count2 => self.list(self.rep(a, pos, 0, 2)),
            SkipCount2 => self.unit(self.list(self.rep(a, pos, 0, 2))),
            CountMinMax02 => self.list(self.rep(a, pos, 0, 2)),
            CountMinMax12 => self.list(self.rep(a, pos, 1, 2)),
            CountMinMax22 => self.list(self.rep(a, pos, 2, 2)),
            CountMinMax23 => self.list(self.rep(a, pos, 2, 3)),
            SkipCountMinMax12 => self.unit(self.list(self.rep(a, pos, 1, 2))),
            SkipCountMinMax23 => self.unit(self.list(self.rep(a, pos, 2, 3))),
            Iterate2 => self.list(self.seqn(&[a, a], pos)),
            Recognize => match self.run(a, pos) {
                Ok { end, com, .. } => Ok { v: self.s(pos, end), end, com },
                e => e,
            },
            // the range forms re-take the recognized slice, so only its length counts
            RangeRecognize => match self.run(a, pos) {
                Ok { end, .. } => ok(self.s(pos, end), pos, end),
                e => e,
            },
            RecognizeWithValue => match self.run(a, pos) {
                Ok { v, end, .. } => ok(Val::pair(self.s(pos, end), v), pos, end),
                e => e,
            },
            TakeUntil | SkipUntil => {
                let mut p = pos;
                loop {
                    match self.run(a, p) {
                        Ok { com: c, .. } => {
                            // an `end` which committed counts as progress although it is not consumed
                            let v = if u == TakeUntil { self.s(pos, p) } else { Val::U };
                            return Ok { v, end: p, com: p > pos || c };
                        }
                        Err { com: true } => return COMMIT,
                        Err { com: false } => {
                            if p == self.w.len() {
                                return Err { com: p > pos };
                            }
                            p += 1;
                        }
                    }
                }
            }
            Map | MapInput => self.map(self.run(a, pos), |v| {
                act(acts::depth(), if u == Map { "map" } else { "map_input" }, &v);
                Val::L(vec![v])
            }),
            AndThen | FlatMap | FromStr => match self.acted(self.run(a, pos), if u == AndThen { "and_then" } else if u == FlatMap { "flat_map" } else { "from_str" }) {
                Ok { v, com, .. } if pick(&v) => Err { com },
                Ok { v, end, com } => Ok { v: if u == FromStr { Val::S(format!("{:?}", v)) } else { Val::L(vec![v]) }, end, com },
                e => e,
            },
            LengthPrefix => match self.acted(self.run(a, pos), "length") {
                Ok { v, end, com } => {
                    let n = if pick(&v) { 1 } else { 2 };
                    self.seq(com, self.run(&G::Take(n), end))
                }
                e => e,
            },
            Ignore => self.unit(self.run(a, pos)),
            Expected | Message | Silent | NoPartial | Lazy | Factory | Opaque | AnyState | AnySendState
            | AnySendSyncState | Boxed | ByRef | LeftEither | RightEither | Spanned => self.run(a, pos),
        }
    }

    fn binary(&self, b: B, x: &G, y: &G, pos: usize) -> R {
        use B::*;
        match b {
            Seq | Struct2 | SeqMacro2 => self.list(self.seqn(&[x, y], pos)),
            IterateVar => self.list(self.seqn(&[x, y, x], pos)),
            With => self.map(self.list(self.seqn(&[x, y], pos)), |v| second(v)),
            Skip => self.map(self.list(self.seqn(&[x, y], pos)), |v| first(v)),
            Or | Choice2 | ChoiceSlice2 | ChoiceMacro2 => self.choice(&[x, y], pos),
            Dispatch => match self.w.get(pos) {
                None => PEEK,
                Some(&'a') => self.run(x, pos),
                Some(_) => self.run(y, pos),
            },
            SepBy | SepBy1 => {
                let (mut out, mut p, mut com);
                match self.run(x, pos) {
                    Ok { v, end, com: c } => {
                        out = vec![v];
                        p = end;
                        com = c;
                    }
                    Err { com: false } if b == SepBy => return ok(Val::L(vec![]), pos, pos),
                    e => return e,
                }
                loop {
                    match self.seqn(&[y, x], p) {
                        Result::Ok((mut l, end, c)) => {
                            out.push(l.pop().unwrap());
                            p = end;
                            com |= c;
                        }
                        Result::Err(Err { com: false }) => return Ok { v: Val::L(out), end: p, com },
                        Result::Err(_) => return COMMIT,
                    }
                }
            }
            SepEndBy | SepEndBy1 => {
                let (mut out, mut p, mut com);
                match self.run(x, pos) {
                    Ok { v, end, com: c } => {
                        out = vec![v];
                        p = end;
                        com = c;
                    }
                    Err { com: false } if b == SepEndBy => return ok(Val::L(vec![]), pos, pos),
                    e => return e,
                }
                loop {
                    match self.run(y, p) {
                        Ok { end, com: c, .. } => {
                            p = end;
                            com |= c;
                        }
                        Err { com: false } => return Ok { v: Val::L(out), end: p, com },
                        Err { com: true } => return COMMIT,
                    }
                    match self.run(x, p) {
                        Ok { v, end, com: c } => {
                            out.push(v);
                            p = end;
                            com |= c;
                        }
                        Err { com: false } => return Ok { v: Val::L(out), end: p, com },
                        Err { com: true } => return COMMIT,
                    }
                }
            }
            ChainL1 | ChainR1 => {
                let mut vals = vec![];
                let mut ops = vec![];
                let (mut p, mut com);
                match self.run(x, pos) {
                    Ok { v, end, com: c } => {
                        vals.push(v);
                        p = end;
                        com = c;
                    }
                    e => return e,
                }
                loop {
                    match self.seqn(&[y, x], p) {
                        Result::Ok((mut l, end, c)) => {
                            vals.push(l.pop().unwrap());
                            ops.push(l.pop().unwrap());
                            p = end;
                            com |= c;
                        }
                        Result::Err(Err { com: false }) => break,
                        Result::Err(_) => return COMMIT,
                    }
                }
                let v = if b == ChainL1 {
                    let mut it = vals.into_iter();
                    let mut acc = it.next().unwrap();
                    for (o, r) in ops.into_iter().zip(it) {
                        acc = Val::L(vec![o, acc, r]);
                    }
                    acc
                } else {
                    let mut acc = vals.pop().unwrap();
                    while let (Some(l), Some(o)) = (vals.pop(), ops.pop()) {
                        acc = Val::L(vec![o, l, acc]);
                    }
                    acc
                };
                Ok { v, end: p, com }
            }
            RepeatUntil | RepeatSkipUntil => {
                let (mut out, mut p, mut com) = (vec![], pos, false);
                loop {
                    match self.run(y, p) {
                        Ok { com: c, .. } => {
                            let v = if b == RepeatUntil { Val::L(out) } else { Val::U };
                            return Ok { v, end: p, com: com || c };
                        }
                        Err { com: true } => return COMMIT,
                        Err { com: false } => match self.run(x, p) {
                            Ok { v, end, com: c } => {
                                out.push(v);
                                p = end;
                                com |= c;
                            }
                            Err { com: c } => return Err { com: com || c },
                        },
                    }
                }
            }
            Escaped => {
                let (mut p, mut com) = (pos, false);
                loop {
                    match self.run(x, p) {
                        Ok { end, com: c, .. } => {
                            p = end;
                            com |= c;
                        }
                        Err { com: true } => return COMMIT,
                        Err { com: false } => {
                            if self.w.get(p) == Some(&ESCAPE) {
                                com = true;
                                match self.run(y, p + 1) {
                                    Ok { end, .. } => p = end,
                                    Err { .. } => return COMMIT,
                                }
                            } else {
                                return Ok { v: Val::U, end: p, com };
                            }
                        }
                    }
                }
            }
        }
    }
}

fn first(v: Val) -> Val {
    match v {
        Val::L(l) => l.into_iter().next().unwrap(),
        _ => unreachable!(),
    }
}
fn second(v: Val) -> Val {
    match v {
        Val::L(l) => l.into_iter().nth(1).unwrap(),
        _ => unreachable!(),
    }
}
