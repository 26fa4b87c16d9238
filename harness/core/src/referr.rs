//! Reference for error reports: the textbook "farthest failure" bookkeeping. Every parser that
//! fails (or stops) at a position contributes what it would have accepted there; contributions are
//! kept as long as no further input is consumed.
use crate::gram::{B, G, T, U};
use crate::refsem::{cs, pick, Ref, ESCAPE, R};
use crate::spaces::is_rep;
use std::collections::BTreeSet;

pub type Set = BTreeSet<String>;

/// What a report at some position has to list as expected (`must`), what it may list in addition
/// (`may`), and whether it may say more still about other positions (`wild`).
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Exp {
    pub must: Set,
    pub may: Set,
    pub wild: bool,
    /// the report need not name the token found (a computation refused the value instead)
    pub other: bool,
    /// Bookkeeping limits of the library which its own tests pin down: once a sequence has passed a
    /// choice or another sequence without consuming anything (`fuzzy`), or if a sequence fails
    /// inside of another one before anything was consumed (`deep`), parts of the list may be missing.
    pub fuzzy: bool,
    pub deep: bool,
    /// a backtracked repetition may also describe the place it started from
    pub start: bool,
}
impl Exp {
    pub fn allows(&self, got: &Set) -> bool {
        self.must.is_subset(got) && (self.wild || got.iter().all(|x| self.must.contains(x) || self.may.contains(x)))
    }
    fn or(&self, o: &Exp) -> Exp {
        Exp {
            must: self.must.union(&o.must).cloned().collect(),
            may: self.may.union(&o.may).cloned().collect(),
            wild: self.wild || o.wild,
            other: self.other || o.other,
            fuzzy: self.fuzzy || o.fuzzy,
            deep: self.deep || o.deep,
            start: self.start || o.start,
        }
    }
    /// Everything becomes optional.
    fn soft(mut self) -> Exp {
        let m = std::mem::take(&mut self.must);
        self.may.extend(m);
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    /// `hints`: what was expected at `end` by parts which stopped there
    Ok { end: usize, com: bool, hints: Exp },
    Err { com: bool, pos: usize, exp: Exp },
}
use E::*;

pub struct RefErr<'w> {
    pub w: &'w [char],
}

fn set(s: &str) -> Exp {
    Exp { must: [s.to_string()].into_iter().collect(), ..Exp::default() }
}
fn none() -> Exp {
    Exp::default()
}
pub fn ok(end: usize, com: bool) -> E {
    Ok { end, com, hints: none() }
}

/// Two failures of alternatives: the farthest one counts, both count at the same position.
fn merge(a: (usize, Exp), b: (usize, Exp)) -> (usize, Exp) {
    use std::cmp::Ordering::*;
    match a.0.cmp(&b.0) {
        Less => b,
        Greater => a,
        Equal => (a.0, a.1.or(&b.1)),
    }
}

fn compound(g: &G) -> bool {
    g.any_node(&|g| match g {
        G::B(b, x, y) => !matches!(b, B::SepBy | B::SepBy1) || x.nullable() || y.nullable(),
        G::T(..) | G::U(U::FlatMap | U::SkipCount2 | U::SkipCountMinMax12 | U::SkipCountMinMax23 | U::SkipUntil | U::LengthPrefix, _) => true,
        _ => false,
    })
}

impl<'w> RefErr<'w> {
    fn one(&self, pos: usize, f: impl Fn(char) -> bool, exp: Exp) -> E {
        match self.w.get(pos) {
            Some(c) if f(*c) => ok(pos + 1, true),
            _ => Err { com: false, pos, exp },
        }
    }

    /// A literal is one unit: its failure is reported where it starts.
    fn literal(&self, s: &str, pos: usize, name: &str) -> E {
        let mut p = pos;
        for c in s.chars() {
            if self.w.get(p) != Some(&c) {
                let exp = if p > pos { Exp { other: true, ..set(name).soft() } } else { set(name) };
                return Err { com: p > pos, pos, exp };
            }
            p += 1;
        }
        ok(p, p > pos)
    }

    /// `a` then whatever `next` does at the end of `a`.
    pub fn then(&self, a: E, next: impl FnOnce(usize) -> E) -> E {
        match a {
            Ok { end, com, hints } => match next(end) {
                Ok { end: e2, com: c2, hints: h2 } => {
                    Ok { end: e2, com: com || c2, hints: if c2 { h2 } else { hints.or(&h2) } }
                }
                Err { com: c2, pos, mut exp } => {
                    if pos == end && !c2 {
                        if hints.fuzzy || exp.deep && !com {
                            exp = exp.soft();
                        }
                        exp.deep |= !com;
                        exp = hints.or(&exp);
                    } else if pos == end {
                        exp = hints.soft().or(&exp);
                    }
                    Err { com: com || c2, pos, exp }
                }
            },
            e => e,
        }
    }

    pub fn or(&self, a: E, start: usize, b: impl FnOnce() -> E) -> E {
        match a {
            Err { com: false, pos, exp } => match b() {
                Ok { end, com: false, hints } => {
                    Ok { end, com: false, hints: if pos == start { exp.or(&hints) } else { Exp { wild: hints.wild || exp.start, ..hints } } }
                }
                Err { com: false, pos: p2, exp: e2 } => {
                    let (pos, exp) = merge((pos, exp), (p2, e2));
                    Err { com: false, pos, exp }
                }
                r => r,
            },
            r => r,
        }
    }

    fn count(&self, g: &G, pos: usize, min: usize, max: usize) -> E {
        let mut r = ok(pos, false);
        for i in 0..max {
            let Ok { end, com, .. } = r else { return r };
            // how a counted item could have gone on may be missing
            match Self::silent_ok(self.run(g, end)) {
                // too few items: reported where the missing one would have been, or farther where a
                // backtracked attempt at it failed
                Err { com: false, pos, .. } if i < min => {
                    return Err { com, pos: pos.max(end), exp: Exp { wild: true, other: true, ..none() } }
                }
                // what one more item would have begun with may be listed
                Err { com: false, exp, .. } => {
                    return match r {
                        Ok { end, com, hints } => Ok { end, com, hints: hints.or(&exp.soft()) },
                        r => r,
                    }
                }
                next => r = self.then(r, |_| next),
            }
        }
        r
    }

    /// A part of a repetition. Where it is a repetition itself, how that one could have gone on may
    /// be missing from the report.
    fn item(&self, g: &G, p: usize) -> E {
        match self.run(g, p) {
            Ok { end, com, hints } if g.any_node(&is_rep) => Ok { end, com, hints: hints.soft() },
            r => r,
        }
    }

    fn many(&self, g: &G, start: E, max: usize) -> E {
        let mut r = start;
        for _ in 0..max {
            let Ok { end, .. } = r else { return r };
            let mut stop = false;
            let next = self.then(r, |p| {
                self.or(self.item(g, p), p, || {
                    stop = true;
                    ok(p, false)
                })
            });
            r = next;
            if let Ok { end: e2, .. } = &r {
                if stop || *e2 == end {
                    return r;
                }
            }
        }
        r
    }

    /// Stop here and remember what would have been accepted, or go on with `more`.
    fn opt(&self, r: E, more: impl FnOnce(usize) -> E, stop: &mut bool) -> E {
        self.then(r, |p| {
            self.or(more(p), p, || {
                *stop = true;
                ok(p, false)
            })
        })
    }

    pub fn run(&self, g: &G, pos: usize) -> E {
        match self.run0(g, pos) {
            Ok { end, com, hints } if compound(g) => Ok { end, com, hints: Exp { fuzzy: true, wild: true, ..hints.soft() } },
            r => r,
        }
    }

    /// Parsers which a closure makes and repetitions up to an end cannot say what they expect.
    fn silent(r: E) -> E {
        match r {
            Ok { end, com, hints } => Ok { end, com, hints: hints.soft() },
            Err { com, pos, exp } => Err { com, pos, exp: exp.soft() },
        }
    }

    /// Parsers made by a closure: only the one which fails is at hand, and only behind something.
    fn iterated(&self, pos: usize, l: &[&G]) -> E {
        let mut r = ok(pos, false);
        for g in l {
            let first = matches!(r, Ok { com: false, .. });
            r = Self::silent(r);
            r = self.then(r, |p| if first { match self.run(g, p) { e @ Err { com: false, .. } => Self::silent(e), e => e } } else { self.run(g, p) });
        }
        Self::silent_ok(r)
    }
    fn silent_ok(r: E) -> E {
        match r {
            r @ Ok { .. } => Self::silent(r),
            r => r,
        }
    }

    fn run0(&self, g: &G, pos: usize) -> E {
        let w = self.w;
        match g {
            G::Tok(c) => self.one(pos, |x| x == *c, set(&format!("'{}'", c))),
            G::Any => self.one(pos, |_| true, none()),
            G::Satisfy(s) | G::SatisfyMap(s) => self.one(pos, |x| cs(s, x), none()),
            G::OneOf(s) => {
                let l: Set = s.chars().map(|c| format!("'{}'", c)).collect();
                self.one(pos, |x| cs(s, x), Exp { must: l, ..none() })
            }
            G::NoneOf(s) => self.one(pos, |x| !cs(s, x), none()),
            G::Tokens(s) | G::Str(s) => self.literal(s, pos, s),
            G::TokensCmp(s) | G::StrCmp(s) => self.literal(s, pos, s),
            G::Range(_) | G::Take(_) | G::TakeWhile(_) | G::TakeWhile1(_) | G::TakeUntilRange(_) | G::TakeFn(_)
            | G::TakeUntilByte(_) | G::TakeUntilBytes(_) | G::FnParser(_) => match (Ref { w }).run(g, pos) {
                R::Ok { end, com, .. } => ok(end, com),
                R::Err { com } => {
                    // a search which finds nothing fails at the end of what it searched
                    let search = matches!(g, G::TakeFn(_) | G::TakeUntilByte(_) | G::TakeUntilBytes(_));
                    Err { com, pos: if search { w.len() } else { pos }, exp: Exp { wild: true, other: true, ..none() } }
                }
            },
            G::Eof => {
                if pos == w.len() {
                    Ok { end: pos, com: false, hints: set("end of input").soft() }
                } else {
                    Err { com: false, pos, exp: set("end of input") }
                }
            }
            G::Value | G::Produce => ok(pos, false),
            G::Unexpected => Err { com: false, pos, exp: Exp { other: true, ..none() } },
            G::Rule(i) => self.run(&crate::rules::rule(*i), pos),
            G::U(u, a) => self.unary(*u, a, pos),
            G::B(b, x, y) => self.binary(*b, x, y, pos),
            G::T(t, x, y, z) => {
                use T::*;
                match t {
                    Seq3 | Struct3 => self.then(self.then(self.run(x, pos), |p| self.run(y, p)), |p| self.run(z, p)),
                    Between => self.then(self.then(self.run(x, pos), |p| self.run(z, p)), |p| self.run(y, p)),
                    Choice3 | ChoiceArr3 | ChoiceSlice3 => {
                        self.or(self.or(self.run(x, pos), pos, || self.run(y, pos)), pos, || self.run(z, pos))
                    }
                    Then | ThenPartial | ThenRef => {
                        // what an optional part before the data-dependent step expected may be missing
                        let first = match self.run(x, pos) {
                            Ok { end, com, hints } => Ok { end, com, hints: hints.soft() },
                            e => e,
                        };
                        let next = match (Ref { w }).run(x, pos) {
                            R::Ok { v, .. } if pick(&v) => y,
                            _ => z,
                        };
                        self.then(first, |p| self.run(next, p))
                    }
                }
            }
            _ => panic!("not modelled {:?}", g),
        }
    }

    fn unary(&self, u: U, a: &G, pos: usize) -> E {
        use U::*;
        match u {
            Map | MapInput | Ignore | Opaque | AnyState | AnySendState | AnySendSyncState | Boxed | ByRef | LeftEither
            | RightEither | Lazy | Factory | NoPartial | Message | Spanned => self.run(a, pos),
            Attempt => match self.run(a, pos) {
                // a backtracked failure is reported where it happened; where the parse went back
                // to may be described as well
                Err { com, pos: p, exp } => {
                    Err { com: false, pos: p, exp: Exp { wild: exp.wild || com || p != pos, start: exp.start || is_rep(a), ..exp } }
                }
                r => r,
            },
            Optional => match self.run(a, pos) {
                Ok { end, com: true, hints } => Ok { end, com: true, hints: hints.soft() },
                r => self.or(r, pos, || ok(pos, false)),
            },
            Many | SkipMany => self.many(a, ok(pos, false), usize::MAX),
            // the items are parsed by a closure: what it stopped at need not be known
            Iter => match self.many(a, ok(pos, false), usize::MAX) {
                Ok { end, com, hints } => Ok { end, com, hints: hints.soft() },
                r => r,
            },
            Many1 | SkipMany1 => self.many(a, self.item(a, pos), usize::MAX),
            // an item which is never asked for may be listed
            Count0 => Ok { end: pos, com: false, hints: Exp { wild: true, ..none() } },
            Count1 => self.count(a, pos, 0, 1),
            Count2 | SkipCount2 => self.count(a, pos, 0, 2),
            Iterate2 => self.iterated(pos, &[a, a]),
            Expected => match self.run(a, pos) {
                Err { com: false, pos: p, exp } if p == pos => {
                    let e = exp.soft();
                    // eagerly reported backtracks keep their own description
                    let may = if a.any_node(&|g| matches!(g, G::U(Attempt, _) | G::T(..) | G::B(B::Or | B::Choice2 | B::ChoiceSlice2 | B::ChoiceMacro2 | B::Dispatch, ..))) { e.may } else { Set::new() };
                    Err { com: false, pos, exp: Exp { may, wild: e.wild, other: e.other, ..set("label") } }
                }
                Ok { end, com: false, hints } => {
                    let h = if hints.must.is_empty() { set("label").soft() } else { set("label") };
                    Ok { end, com: false, hints: Exp { wild: hints.wild, ..h } }
                }
                r => r,
            },
            Silent => match self.run(a, pos) {
                Err { com: false, pos: p, exp } if p == pos => {
                    Err { com: false, pos, exp: Exp { must: Set::new(), may: Set::new(), wild: exp.wild || exp.deep, ..exp } }
                }
                // whether a silent parser hides what it expects after consuming input is left open
                Err { com, pos, exp } => Err { com, pos, exp: exp.soft() },
                Ok { end, com: false, hints } => Ok { end, com: false, hints: Exp { must: Set::new(), ..hints } },
                Ok { end, com, hints } => Ok { end, com, hints: hints.soft() },
            },
            LookAhead => match self.run(a, pos) {
                // what a satisfied look-ahead looked for may be listed
                Ok { .. } => Ok { end: pos, com: false, hints: Exp { wild: true, ..none() } },
                r => r,
            },
            Not => {
                let r = match self.run(a, pos) {
                    Ok { .. } => Err { com: false, pos, exp: Exp { other: true, ..none() } },
                    Err { .. } => ok(pos, false),
                };
                r
            }
            Recognize | RangeRecognize | RecognizeWithValue => self.run(a, pos),
            CountMinMax02 => self.count(a, pos, 0, 2),
            CountMinMax12 | SkipCountMinMax12 => self.count(a, pos, 1, 2),
            CountMinMax22 => self.count(a, pos, 2, 2),
            CountMinMax23 | SkipCountMinMax23 => self.count(a, pos, 2, 3),
            TakeUntil | SkipUntil => {
                let (mut p, mut com) = (pos, false);
                loop {
                    match self.run(a, p) {
                        Ok { com: c, .. } => return Ok { end: p, com: com || c, hints: Exp { wild: true, ..none() } },
                        Err { com: false, .. } => {}
                        e => return e,
                    }
                    if p == self.w.len() {
                        return Err { com, pos: p, exp: none() };
                    }
                    p += 1;
                    com = true;
                }
            }
            // the position for the closure's error is looked up first: a sequence
            AndThen | FlatMap | FromStr => {
                let run = |a: &G, pos| if u == FlatMap { self.then(ok(pos, false), |p| self.run(a, p)) } else { self.run(a, pos) };
                let refused = matches!((Ref { w: self.w }).run(a, pos), R::Ok { v, .. } if pick(&v));
                match run(a, pos) {
                    Ok { com, .. } if refused => {
                        Err { com, pos, exp: Exp { wild: true, other: true, ..none() } }
                    }
                    r => r,
                }
            }
            LengthPrefix => {
                let n = match (Ref { w: self.w }).run(a, pos) {
                    R::Ok { v, .. } if pick(&v) => 1,
                    _ => 2,
                };
                let first = match self.run(a, pos) {
                    Ok { end, com, hints } => Ok { end, com, hints: hints.soft() },
                    e => e,
                };
                self.then(first, |p| self.run(&G::Take(n), p))
            }
        }
    }

    fn binary(&self, b: B, x: &G, y: &G, pos: usize) -> E {
        use B::*;
        match b {
            Seq | With | Skip | Struct2 | SeqMacro2 => self.then(self.run(x, pos), |p| self.run(y, p)),
            IterateVar => self.iterated(pos, &[x, y, x]),
            Or | Choice2 | ChoiceSlice2 | ChoiceMacro2 => self.or(self.run(x, pos), pos, || self.run(y, pos)),
            SepBy | SepBy1 => {
                let first = self.item(x, pos);
                let nothing = matches!(first, Err { com: false, .. });
                let mut r = if b == SepBy { self.or(first, pos, || ok(pos, false)) } else { first };
                if nothing {
                    return r;
                }
                loop {
                    let Ok { end, .. } = r else { return r };
                    let mut stop = false;
                    r = self.opt(r, |p| self.then(self.item(y, p), |q| self.item(x, q)), &mut stop);
                    if let Ok { end: e2, .. } = &r {
                        if stop || *e2 == end {
                            return r;
                        }
                    }
                }
            }
            SepEndBy | SepEndBy1 => {
                let first = self.item(x, pos);
                let nothing = matches!(first, Err { com: false, .. });
                let mut r = if b == SepEndBy { self.or(first, pos, || ok(pos, false)) } else { first };
                if nothing {
                    return r;
                }
                loop {
                    let Ok { end, .. } = r else { return r };
                    let mut stop = false;
                    r = self.opt(r, |p| self.item(y, p), &mut stop);
                    if stop {
                        return r;
                    }
                    r = self.opt(r, |p| self.item(x, p), &mut stop);
                    if let Ok { end: e2, .. } = &r {
                        if stop || *e2 == end {
                            return r;
                        }
                    }
                }
            }
            ChainL1 | ChainR1 => {
                let mut r = self.item(x, pos);
                loop {
                    let Ok { end, .. } = r else { return r };
                    let mut stop = false;
                    r = self.opt(r, |p| self.then(self.item(y, p), |q| self.item(x, q)), &mut stop);
                    if let Ok { end: e2, .. } = &r {
                        if stop || *e2 == end {
                            return r;
                        }
                    }
                }
            }
            RepeatUntil | RepeatSkipUntil => {
                let mut r = ok(pos, false);
                loop {
                    let Ok { end, .. } = r else { return r };
                    let mut done = true;
                    r = self.then(r, |p| {
                        match self.run(y, p) {
                            Ok { com, .. } => Ok { end: p, com, hints: Exp { wild: true, ..none() } },
                            // why the end was not there is not part of the report
                            Err { com: false, .. } => {
                                done = false;
                                Self::silent(self.run(x, p))
                            }
                            e => Self::silent(e),
                        }
                    });
                    if done {
                        return r;
                    }
                    if let Ok { end: e2, .. } = &r {
                        if *e2 == end {
                            return r;
                        }
                    }
                }
            }
            Escaped => {
                let mut r = ok(pos, false);
                loop {
                    let Ok { end, .. } = r else { return r };
                    let mut stop = false;
                    r = self.opt(
                        r,
                        |p| {
                            self.or(self.item(x, p), p, || {
                                self.then(self.one(p, |c| c == ESCAPE, none()), |q| self.item(y, q))
                            })
                        },
                        &mut stop,
                    );
                    if let Ok { end: e2, .. } = &r {
                        if stop || *e2 == end {
                            return r;
                        }
                    }
                }
            }
            Dispatch => match self.w.get(pos) {
                None => Err { com: false, pos, exp: none() },
                Some('a') => self.run(x, pos),
                Some(_) => self.run(y, pos),
            },
        }
    }
}
