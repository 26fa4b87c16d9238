//! The bounded space of grammars: a small term language over combine's combinators.
//!
//! A term is enumerated by size, printed as an S-expression (used in replay files) and read back.
use std::fmt;
use std::sync::Arc;

pub type Set = &'static str;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum G {
    // leaves
    Tok(char),
    Any,
    Satisfy(Set),
    SatisfyMap(Set),
    OneOf(Set),
    NoneOf(Set),
    Tokens(Set),
    TokensCmp(Set),
    Str(Set),
    StrCmp(Set),
    Range(Set),
    Take(usize),
    TakeWhile(Set),
    TakeWhile1(Set),
    TakeUntilRange(Set),
    TakeFn(Set),
    TakeUntilByte(Set),
    TakeUntilBytes(Set),
    Eof,
    Value,
    Produce,
    Unexpected,
    FnParser(char),
    /// one of the rules of a recursive grammar, see `rules`
    Rule(u8),
    // one child
    U(U, Arc<G>),
    // two children
    B(B, Arc<G>, Arc<G>),
    // three children
    T(T, Arc<G>, Arc<G>, Arc<G>),
}

macro_rules! ops {
    ($name:ident { $($v:ident),* $(,)? }) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
        pub enum $name { $($v),* }
        impl $name {
            pub const ALL: &'static [$name] = &[$($name::$v),*];
            pub fn name(self) -> &'static str { match self { $($name::$v => stringify!($v)),* } }
            pub fn from_name(s: &str) -> Option<$name> { match s { $(stringify!($v) => Some($name::$v),)* _ => None } }
        }
    };
}

ops!(U {
    Attempt, LookAhead, Not, Optional,
    Many, Many1, SkipMany, SkipMany1,
    Count0, Count1, Count2, SkipCount2, CountMinMax02, CountMinMax12, CountMinMax22, CountMinMax23, SkipCountMinMax12, SkipCountMinMax23,
    Recognize, RangeRecognize, RecognizeWithValue,
    TakeUntil, SkipUntil,
    Map, MapInput, AndThen, FlatMap, Expected, Message, Silent, Ignore,
    NoPartial, Lazy, Factory, Opaque, AnyState, AnySendState, AnySendSyncState, Boxed, ByRef, LeftEither, RightEither,
    Spanned, Iterate2, Iter, FromStr, LengthPrefix,
});
ops!(B {
    Seq, With, Skip, Or, Choice2, ChoiceSlice2, ChoiceMacro2, Dispatch,
    SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1, ChainR1, RepeatUntil, RepeatSkipUntil, Escaped,
    Struct2, SeqMacro2, IterateVar,
});
ops!(T { Seq3, Choice3, ChoiceArr3, ChoiceSlice3, Between, Then, ThenPartial, ThenRef, Struct3, });

impl fmt::Debug for G {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            G::Tok(c) => write!(f, "'{}", c),
            G::Any => write!(f, "Any"),
            G::Satisfy(s) => write!(f, "(Satisfy {})", s),
            G::SatisfyMap(s) => write!(f, "(SatisfyMap {})", s),
            G::OneOf(s) => write!(f, "(OneOf {})", s),
            G::NoneOf(s) => write!(f, "(NoneOf {})", s),
            G::Tokens(s) => write!(f, "(Tokens {})", s),
            G::TokensCmp(s) => write!(f, "(TokensCmp {})", s),
            G::Str(s) => write!(f, "(Str {})", s),
            G::StrCmp(s) => write!(f, "(StrCmp {})", s),
            G::Range(s) => write!(f, "(Range {})", s),
            G::Take(n) => write!(f, "(Take {})", n),
            G::TakeWhile(s) => write!(f, "(TakeWhile {})", s),
            G::TakeWhile1(s) => write!(f, "(TakeWhile1 {})", s),
            G::TakeUntilRange(s) => write!(f, "(TakeUntilRange {})", s),
            G::TakeFn(s) => write!(f, "(TakeFn {})", s),
            G::TakeUntilByte(s) => write!(f, "(TakeUntilByte {})", s),
            G::TakeUntilBytes(s) => write!(f, "(TakeUntilBytes {})", s),
            G::Eof => write!(f, "Eof"),
            G::Value => write!(f, "Value"),
            G::Produce => write!(f, "Produce"),
            G::Unexpected => write!(f, "Unexpected"),
            G::FnParser(c) => write!(f, "(FnParser {})", c),
            G::Rule(i) => write!(f, "(Rule {})", i),
            G::U(u, a) => write!(f, "({} {:?})", u.name(), a),
            G::B(b, x, y) => write!(f, "({} {:?} {:?})", b.name(), x, y),
            G::T(t, x, y, z) => write!(f, "({} {:?} {:?} {:?})", t.name(), x, y, z),
        }
    }
}

fn intern(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

impl G {
    pub fn parse(s: &str) -> Result<G, String> {
        let mut toks = Vec::new();
        let mut cur = String::new();
        for c in s.chars() {
            match c {
                '(' | ')' | ' ' => {
                    if !cur.is_empty() {
                        toks.push(std::mem::take(&mut cur));
                    }
                    if c != ' ' {
                        toks.push(c.to_string());
                    }
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() {
            toks.push(cur);
        }
        let mut i = 0;
        let g = Self::rd(&toks, &mut i)?;
        if i != toks.len() {
            return Err(format!("trailing tokens at {} in {}", i, s));
        }
        Ok(g)
    }
    fn rd(t: &[String], i: &mut usize) -> Result<G, String> {
        let x = t.get(*i).ok_or("eof")?.clone();
        *i += 1;
        if x != "(" {
            return Ok(match &x[..] {
                "Any" => G::Any,
                "Eof" => G::Eof,
                "Value" => G::Value,
                "Produce" => G::Produce,
                "Unexpected" => G::Unexpected,
                x if x.starts_with('\'') => G::Tok(x.chars().nth(1).ok_or("tok")?),
                x => return Err(format!("leaf {}", x)),
            });
        }
        let op = t.get(*i).ok_or("eof")?.clone();
        *i += 1;
        let arg = |i: &mut usize| -> Result<&'static str, String> {
            let r = t.get(*i).ok_or("eof")?;
            if r == ")" { return Ok("") }
            *i += 1;
            Ok(intern(r))
        };
        let g = match &op[..] {
            "Satisfy" => G::Satisfy(arg(i)?),
            "SatisfyMap" => G::SatisfyMap(arg(i)?),
            "OneOf" => G::OneOf(arg(i)?),
            "NoneOf" => G::NoneOf(arg(i)?),
            "Tokens" => G::Tokens(arg(i)?),
            "TokensCmp" => G::TokensCmp(arg(i)?),
            "Str" => G::Str(arg(i)?),
            "StrCmp" => G::StrCmp(arg(i)?),
            "Range" => G::Range(arg(i)?),
            "Take" => G::Take(arg(i)?.parse().map_err(|_| "num")?),
            "TakeWhile" => G::TakeWhile(arg(i)?),
            "TakeWhile1" => G::TakeWhile1(arg(i)?),
            "TakeUntilRange" => G::TakeUntilRange(arg(i)?),
            "TakeFn" => G::TakeFn(arg(i)?),
            "TakeUntilByte" => G::TakeUntilByte(arg(i)?),
            "TakeUntilBytes" => G::TakeUntilBytes(arg(i)?),
            "FnParser" => G::FnParser(arg(i)?.chars().next().ok_or("chr")?),
            "Rule" => G::Rule(arg(i)?.parse().map_err(|_| "num")?),
            o => {
                if let Some(u) = U::from_name(o) {
                    G::U(u, Arc::new(Self::rd(t, i)?))
                } else if let Some(b) = B::from_name(o) {
                    G::B(b, Arc::new(Self::rd(t, i)?), Arc::new(Self::rd(t, i)?))
                } else if let Some(b) = T::from_name(o) {
                    G::T(b, Arc::new(Self::rd(t, i)?), Arc::new(Self::rd(t, i)?), Arc::new(Self::rd(t, i)?))
                } else {
                    return Err(format!("op {}", o));
                }
            }
        };
        if t.get(*i).map(|s| &s[..]) != Some(")") {
            return Err(format!("expected ) at {}", i));
        }
        *i += 1;
        Ok(g)
    }

    pub fn size(&self) -> usize {
        match self {
            G::U(_, a) => 1 + a.size(),
            G::B(_, a, b) => 1 + a.size() + b.size(),
            G::T(_, a, b, c) => 1 + a.size() + b.size() + c.size(),
            _ => 1,
        }
    }

    pub fn any_node(&self, f: &dyn Fn(&G) -> bool) -> bool {
        f(self)
            || match self {
                G::U(_, a) => a.any_node(f),
                G::B(_, a, b) => a.any_node(f) || b.any_node(f),
                G::T(_, a, b, c) => a.any_node(f) || b.any_node(f) || c.any_node(f),
                _ => false,
            }
    }

    /// May succeed without moving the input (conservative).
    pub fn nullable(&self) -> bool {
        match self {
            G::Tok(_) | G::Any | G::Satisfy(_) | G::SatisfyMap(_) | G::OneOf(_) | G::NoneOf(_) | G::FnParser(_) => false,
            G::Tokens(s) | G::TokensCmp(s) | G::Str(s) | G::StrCmp(s) | G::Range(s) => s.is_empty(),
            G::Take(n) => *n == 0,
            G::TakeWhile1(_) => false,
            G::TakeWhile(_) | G::TakeUntilRange(_) | G::TakeFn(_) | G::TakeUntilByte(_) | G::TakeUntilBytes(_) => true,
            G::Eof | G::Value | G::Produce => true,
            G::Unexpected => false,
            G::Rule(i) => crate::rules::nullable(*i),
            G::U(u, a) => {
                use U::*;
                match u {
                    LookAhead | Not | Optional | Many | SkipMany | Count0 | Count1 | Count2 | SkipCount2 | CountMinMax02 | TakeUntil
                    | SkipUntil | Iterate2 | Iter | LengthPrefix => true,
                    Attempt | Many1 | SkipMany1 | Recognize | RangeRecognize | RecognizeWithValue | Map | MapInput
                    | AndThen | FlatMap | Expected | Message | Silent | Ignore | NoPartial | Lazy | Factory | Opaque
                    | AnyState | AnySendState | AnySendSyncState | Boxed | ByRef | LeftEither | RightEither | Spanned
                    | CountMinMax12 | CountMinMax22 | CountMinMax23 | SkipCountMinMax12 | SkipCountMinMax23 | FromStr => a.nullable(),
                }
            }
            G::B(b, x, y) => {
                use B::*;
                match b {
                    Seq | With | Skip | Struct2 | SeqMacro2 => x.nullable() && y.nullable(),
                    Or | Choice2 | ChoiceSlice2 | ChoiceMacro2 | Dispatch => x.nullable() || y.nullable(),
                    SepBy | SepEndBy | RepeatUntil | RepeatSkipUntil | Escaped | IterateVar => true,
                    SepBy1 | SepEndBy1 | ChainL1 | ChainR1 => x.nullable(),
                }
            }
            G::T(t, x, y, z) => {
                use T::*;
                match t {
                    Seq3 | Between | Struct3 => x.nullable() && y.nullable() && z.nullable(),
                    Choice3 | ChoiceArr3 | ChoiceSlice3 => x.nullable() || y.nullable() || z.nullable(),
                    Then | ThenPartial | ThenRef => x.nullable() && (y.nullable() || z.nullable()),
                }
            }
        }
    }

    /// The documented precondition of repetition: the repeated part must consume.
    pub fn terminates(&self) -> bool {
        !self.any_node(&|g| match g {
            G::U(u, a) => {
                matches!(u, U::Many | U::Many1 | U::SkipMany | U::SkipMany1 | U::Iter) && a.nullable()
            }
            G::B(b, x, y) => match b {
                B::SepBy | B::SepBy1 | B::SepEndBy | B::SepEndBy1 | B::ChainL1 | B::ChainR1 => {
                    x.nullable() && y.nullable()
                }
                B::RepeatUntil | B::RepeatSkipUntil | B::Escaped => x.nullable(),
                _ => false,
            },
            _ => false,
        })
    }
}

/// Which operators and leaves a sweep enumerates, and to which size.
#[derive(Clone)]
pub struct Space {
    pub leaves: Vec<G>,
    pub u: Vec<U>,
    pub b: Vec<B>,
    pub t: Vec<T>,
}

impl Space {
    /// All terms of exactly each size `1..=max`.
    pub fn upto(&self, max: usize) -> Vec<Vec<Arc<G>>> {
        let mut by: Vec<Vec<Arc<G>>> = vec![vec![]];
        by.push(self.leaves.iter().cloned().map(Arc::new).collect());
        for n in 2..=max {
            let mut v = Vec::new();
            for &u in &self.u {
                for a in &by[n - 1] {
                    v.push(Arc::new(G::U(u, a.clone())));
                }
            }
            for &b in &self.b {
                for i in 1..n - 1 {
                    let j = n - 1 - i;
                    for x in &by[i] {
                        for y in &by[j] {
                            v.push(Arc::new(G::B(b, x.clone(), y.clone())));
                        }
                    }
                }
            }
            if n >= 4 {
                for &t in &self.t {
                    for i in 1..n - 2 {
                        for j in 1..n - 1 - i {
                            let k = n - 1 - i - j;
                            for x in &by[i] {
                                for y in &by[j] {
                                    for z in &by[k] {
                                        v.push(Arc::new(G::T(t, x.clone(), y.clone(), z.clone())));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            v.retain(|g| g.terminates());
            by.push(v);
        }
        by
    }
}
