//! P24: what a printed report says.
use combine::easy::{self, Error, Info};
use combine::error::{StreamError, StringStreamError, UnexpectedParse};
use combine::stream::position::{self, SourcePosition};
use combine::stream::{decoder, read};
use combine::EasyParser;
use mc_core::gram::*;
use mc_core::real::build;
use mc_core::spaces::*;
use mc_core::words::words;
use mc_rt::{no_panic, viol, Ctx, W};
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Unexpected,
    Expected,
    Message,
    Other,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Token(char),
    Range(&'static str),
    Static(&'static str),
    Owned(&'static str),
}
type Entry = (Kind, What);
use Kind::*;

fn entry(e: Entry) -> Error<char, &'static str> {
    let info = match e.1 {
        What::Token(c) => Info::Token(c),
        What::Range(r) => Info::Range(r),
        What::Static(s) => Info::Static(s),
        What::Owned(s) => Info::Owned(s.to_string()),
    };
    match e.0 {
        Unexpected => Error::Unexpected(info),
        Expected => Error::Expected(info),
        Message => Error::Message(info),
        Other => Error::Other(Box::new(StringStreamError::CharacterBoundary)),
    }
}
/// The text of an entry: tokens and ranges are quoted, texts are not.
fn text(w: What) -> String {
    match w {
        What::Token(c) => format!("`{}`", c),
        What::Range(r) => format!("`{}`", r),
        What::Static(s) | What::Owned(s) => s.to_string(),
    }
}
/// The documented text: the place, a line for each unexpected entry, one line listing everything expected,
/// a line for each message.
fn page(at: &str, l: &[Entry]) -> String {
    let mut o = format!("Parse error at {}\n", at);
    for e in l.iter().filter(|e| e.0 == Unexpected) {
        o += &format!("Unexpected {}\n", text(e.1));
    }
    let x: Vec<String> = l.iter().filter(|e| e.0 == Expected).map(|e| text(e.1)).collect();
    match x.split_last() {
        None => (),
        Some((a, [])) => o += &format!("Expected {}\n", a),
        Some((a, rest)) => o += &format!("Expected {} or {}\n", rest.join(", "), a),
    }
    for e in l.iter().filter(|e| e.0 == Message || e.0 == Other) {
        match e.0 {
            Other => o += "unexpected slice on character boundary\n",
            _ => o += &format!("{}\n", text(e.1)),
        }
    }
    o
}
fn lists(alphabet: &[Entry], n: usize) -> Vec<Vec<Entry>> {
    let mut all = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|l: &Vec<Entry>| alphabet.iter().map(move |e| [&l[..], &[*e]].concat())).collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn printed(c: &mut Ctx, name: &str, l: &[Vec<Entry>]) {
    c.sweep(name, l, |l| format!("{:?}", l), |k: &mut W, l| {
        for (line, column) in [(1, 1), (2, 1), (1, 12), (30, 4)] {
            let errors: Vec<_> = l.iter().map(|e| entry(*e)).collect();
            let e = easy::Errors::from_errors(SourcePosition { line, column }, errors);
            let at = format!("line: {}, column: {}", line, column);
            let check = |n: &str, got: String, want: String| if got == want { Ok(()) } else { Err(viol(n, format!("{}: want {:?}, got {:?}", n, want, got))) };
            check("display", e.to_string(), page(&at, l))?;
            check("position mapped", e.map_position(|p| p.column).to_string(), page(&column.to_string(), l))?;
            let e = easy::Errors::from_errors(3usize, l.iter().map(|e| entry(*e)).collect());
            check("tokens and ranges mapped", e.map_token(|c| format!("<{}>", c)).map_range(|r| format!("[{}]", r)).to_string(), {
                let m: Vec<Entry> = l.iter().map(|e| (e.0, match e.1 {
                    What::Token(c) => What::Range(leak(format!("<{}>", c))),
                    What::Range(r) => What::Range(leak(format!("[{}]", r))),
                    w => w,
                })).collect();
                page("3", &m)
            })?;
            let e = easy::Errors::from_errors(3usize, l.iter().map(|e| entry(*e)).collect());
            check("decoder error", decoder::Error::<_, usize>::Parse(e).to_string(), page("3", l))?;
            k.transitions += 4;
            k.traces += 4;
        }
        for e in l {
            let want = match e.0 {
                Unexpected => format!("Unexpected {}", text(e.1)),
                Expected => format!("Expected {}", text(e.1)),
                Message => text(e.1),
                Other => "unexpected slice on character boundary".into(),
            };
            let got = entry(*e).to_string();
            if got != want {
                return Err(viol("entry", format!("want {:?}, got {:?}", want, got)));
            }
        }
        k.states += 1;
        k.outcome(["nothing expected", "one thing expected", "several expected"][l.iter().filter(|e| e.0 == Expected).count().min(2)]);
        Ok(())
    })
}
fn leak(s: String) -> &'static str {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local!(static M: RefCell<HashMap<String, &'static str>> = Default::default());
    M.with(|m| *m.borrow_mut().entry(s.clone()).or_insert_with(|| Box::leak(s.into_boxed_str())))
}

fn parsed(c: &mut Ctx, name: &str, gs: &[Arc<G>], ws: &[&'static str]) {
    type S = easy::Stream<position::Stream<&'static str, SourcePosition>>;
    c.sweep(name, gs, |g| format!("{:?}", g), |k: &mut W, g| {
        for w in ws {
            let e = no_panic(|| build::<S>(g).easy_parse(position::Stream::new(*w)).err()).map_err(|m| viol(format!("{:?}", w), m))?;
            k.transitions += 1;
            k.states += 1;
            k.traces += 1;
            k.outcome(if e.is_some() { "report" } else { "success" });
            let Some(e) = e else { continue };
            let l: Vec<Entry> = e.errors.iter().map(|e| {
                let (k, i) = match e {
                    Error::Unexpected(i) => (Unexpected, i),
                    Error::Expected(i) => (Expected, i),
                    Error::Message(i) => (Message, i),
                    Error::Other(_) => unreachable!(),
                };
                (k, match i {
                    Info::Token(c) => What::Token(*c),
                    Info::Range(r) => What::Range(r),
                    Info::Static(s) => What::Static(s),
                    Info::Owned(s) => What::Owned(leak(s.clone())),
                })
            }).collect();
            let (line, column) = (e.position.line, e.position.column);
            let want = page(&format!("line: {}, column: {}", line, column), &l);
            if e.to_string() != want {
                return Err(viol(format!("{:?}", w), format!("on {:?}: want {:?}, got {:?}", w, want, e.to_string())));
            }
            if l.iter().enumerate().any(|(i, e)| e.0 == Expected && l[..i].iter().any(|f| f.0 == Expected && text(f.1) == text(e.1) && f.1 == e.1)) {
                return Err(viol(format!("{:?} repeated", w), format!("on {:?} something expected is listed twice: {:?}", w, want)));
            }
        }
        Ok(())
    })
}

fn small(c: &mut Ctx) {
    let io = |s: &str| std::io::Error::new(std::io::ErrorKind::Other, s.to_string());
    let l: Vec<(&str, String, String)> = vec![
        ("StringStreamError::UnexpectedParse", StringStreamError::UnexpectedParse.to_string(), "unexpected parse".into()),
        ("StringStreamError::Eoi", StringStreamError::Eoi.to_string(), "unexpected end of input".into()),
        ("StringStreamError::CharacterBoundary", StringStreamError::CharacterBoundary.to_string(), "unexpected slice on character boundary".into()),
        ("UnexpectedParse::Unexpected", UnexpectedParse::Unexpected.to_string(), "unexpected parse".into()),
        ("UnexpectedParse::Eoi", UnexpectedParse::Eoi.to_string(), "unexpected end of input".into()),
        ("read::Error::Unexpected", read::Error::Unexpected.to_string(), "unexpected parse".into()),
        ("read::Error::EndOfInput", read::Error::EndOfInput.to_string(), "unexpected end of input".into()),
        ("read::Error::Io", read::Error::Io(io("no disk")).to_string(), "no disk".into()),
        ("decoder Io", decoder::Error::<UnexpectedParse, usize>::Io { position: 3, error: io("no disk") }.to_string(), "no disk".into()),
        ("decoder Io as report", {
            let e: easy::Errors<u8, &'static [u8], usize> = decoder::Error::Io { position: 3, error: io("no disk") }.into();
            e.map_range(|r| format!("{:?}", r)).to_string()
        }, "Parse error at 3\nno disk\n".into()),
        ("end of input", easy::Errors::<char, &str, usize>::end_of_input(4).to_string(), "Parse error at 4\nUnexpected end of input\n".into()),
        ("message", easy::Error::<char, &str>::message_static_message("no").to_string(), "no".into()),
        ("format", easy::Error::<char, &str>::expected_format(format_args!("{}!", 1)).to_string(), "Expected 1!".into()),
        ("new", easy::Errors::<char, &str, usize>::new(1, Error::Expected('a'.into())).to_string(), "Parse error at 1\nExpected `a`\n".into()),
        ("empty", easy::Errors::<char, &str, usize>::empty(1).to_string(), "Parse error at 1\n".into()),
    ];
    c.sweep("other errors", &l, |x| x.0.to_string(), |k: &mut W, (n, got, want)| {
        k.states += 1;
        k.traces += 1;
        k.outcome("text");
        if got == want { Ok(()) } else { Err(viol(*n, format!("want {:?}, got {:?}", want, got))) }
    })
}

fn run_prop(prop: &str, c: &mut Ctx) {
    let q = c.quick();
    match prop {
        "P24" => {
            let w = [What::Token('a'), What::Range("bc"), What::Static("digit"), What::Owned("a number")];
            let mut all: Vec<Entry> = [Unexpected, Expected, Message].iter().flat_map(|k| w.iter().map(move |w| (*k, *w))).collect();
            all.push((Other, What::Static("")));
            c.bound("entries", all.len());
            printed(c, "reports of every kind of entry", &lists(&all, if q { 4 } else { 6 }));
            let few = [(Unexpected, What::Token('x')), (Expected, What::Token('a')), (Expected, What::Static("b")), (Message, What::Owned("c"))];
            printed(c, "long reports", &lists(&few, if q { 8 } else { 10 }));
            small(c);
            parsed(c, "reports of parsers, all operators and leaves, size <= 3", &upto(&all_space(), 3, |_| true), &words("ab\n", if q { 3 } else { 5 }));
        }
        _ => panic!("unknown property {}", prop),
    }
}
fn all_space() -> Space {
    all()
}

fn main() {
    mc_rt::main(run_prop)
}
