//! What an easy error report says, and its comparison with the reference's.
use crate::referr::{Exp, Set};
use combine::easy::{Error, Info};
use combine::stream::position;
use combine::{EasyParser, Parser};
use mc_rt::no_panic;

pub type P = position::Stream<&'static str, position::IndexPositioner>;
pub type I = combine::easy::Stream<P>;

pub struct Rep {
    pub pos: usize,
    pub expected: Set,
    pub unexpected: Vec<String>,
    pub messages: Vec<String>,
}
pub fn report<Q: Parser<I>>(p: &mut Q, w: &'static str) -> Result<Option<Rep>, String> {
    no_panic(|| match p.easy_parse(position::Stream::with_positioner(w, position::IndexPositioner::default())) {
        Ok(_) => None,
        Err(e) => {
            let f = |i: &Info<char, &str>| match i {
                Info::Token(c) => format!("'{}'", c),
                Info::Range(r) => r.to_string(),
                Info::Static(s) => s.to_string(),
                Info::Owned(s) => s.clone(),
            };
            let mut r = Rep { pos: e.position, expected: Set::new(), unexpected: vec![], messages: vec![] };
            for x in &e.errors {
                match x {
                    Error::Expected(i) => {
                        r.expected.insert(f(i));
                    }
                    Error::Unexpected(i) => r.unexpected.push(f(i)),
                    Error::Message(i) => r.messages.push(f(i)),
                    Error::Other(e) => r.messages.push(e.to_string()),
                }
            }
            Some(r)
        }
    })
}

pub fn check_sets(ch: &[char], pos: usize, exp: &Exp, r: &Rep) -> Result<(), String> {
    if !exp.allows(&r.expected) {
        return Err(format!("at {} should be expected {:?} (optionally {:?}), reported {:?}", pos, exp.must, exp.may, r.expected));
    }
    let found = ch.get(pos).map_or("end of input".to_string(), |c| format!("'{}'", c));
    if !exp.other && !(if exp.wild { r.unexpected.contains(&found) } else { r.unexpected == [found.clone()] }) {
        return Err(format!("at {} the input has {}, reported as unexpected: {:?}", pos, found, r.unexpected));
    }
    Ok(())
}

