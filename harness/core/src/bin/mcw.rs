//! P18: sequences and choices of every width, in every written form, and their nesting.
use combine::stream::MaybePartialStream;
use combine::Parser;
use mc_core::gram::*;
use mc_core::partial::{run_by, run_commit_by, Out, OutC, PI};
use mc_core::real::{d, DynState, D};
use mc_core::referr::{self, RefErr, E};
use mc_core::refsem::{Ref, R};
use mc_core::rep::{check_sets, report, I};
use mc_core::val::Val;
use mc_core::wide::{wide, Form, Form::*};
use mc_rt::{no_panic, viol, Ctx, W};
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

fn letter(i: usize) -> char {
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().nth(i).unwrap()
}
fn partner(i: usize) -> char {
    "0123456789+-*/=<>,.;:?_&%$#@~^|(){}[]αβγδεζηθικλμνξοπρστυφχ".chars().nth(i).unwrap()
}

/// What may stand at one place, and a sentence for it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum El {
    Tok,
    Opt,
    Val,
    Seq,
    Or,
    Many,
    AttemptSeq,
    Eps,
    Fail,
    Str,
}
const SEQ_ELS: &[El] = &[El::Opt, El::Val, El::Seq, El::Or, El::Many, El::AttemptSeq, El::Str];
const CH_ELS: &[El] = &[El::Seq, El::AttemptSeq, El::Eps, El::Fail, El::Str, El::Opt];
impl El {
    fn g(self, i: usize) -> Arc<G> {
        let (a, b) = (letter(i), partner(i));
        let t = |c| Arc::new(G::Tok(c));
        let u = |u, g| Arc::new(G::U(u, g));
        match self {
            El::Tok => t(a),
            El::Opt => u(U::Optional, t(a)),
            El::Val => Arc::new(G::Value),
            El::Seq => Arc::new(G::B(B::Seq, t(a), t(b))),
            El::Or => Arc::new(G::B(B::Or, t(a), t(b))),
            El::Many => u(U::Many, t(a)),
            El::AttemptSeq => u(U::Attempt, Arc::new(G::B(B::Seq, t(a), t(b)))),
            El::Eps => Arc::new(G::Produce),
            El::Fail => Arc::new(G::Unexpected),
            El::Str => Arc::new(G::Str(leak(format!("{}{}", a, b)))),
        }
    }
    fn sentences(self, i: usize) -> Vec<String> {
        let (a, b) = (letter(i), partner(i));
        match self {
            El::Tok => vec![a.to_string()],
            El::Opt => vec![a.to_string(), String::new()],
            El::Val | El::Eps | El::Fail => vec![String::new()],
            El::Seq | El::AttemptSeq | El::Str => vec![format!("{}{}", a, b)],
            El::Or => vec![a.to_string(), b.to_string()],
            El::Many => vec![format!("{}{}", a, a), String::new()],
        }
    }
}
fn leak(s: String) -> &'static str {
    thread_local! { static SEEN: std::cell::RefCell<std::collections::HashSet<&'static str>> = Default::default(); }
    SEEN.with(|m| {
        if let Some(x) = m.borrow().get(&*s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.into_boxed_str());
        m.borrow_mut().insert(l);
        l
    })
}

#[derive(Clone)]
struct Item {
    form: Form,
    els: Vec<El>,
}
impl Item {
    fn parts(&self) -> Vec<Arc<G>> {
        self.els.iter().enumerate().map(|(i, e)| e.g(i)).collect()
    }
}
fn desc(x: &Item) -> String {
    let l: Vec<String> = x.els.iter().enumerate().filter(|e| *e.1 != El::Tok).map(|(i, e)| format!("{}={:?}", i, e)).collect();
    format!("{:?} width {} {}", x.form, x.els.len(), l.join(" "))
}

/// The sentences, and everything one edit away from the first of them.
fn seq_words(els: &[El]) -> Vec<String> {
    let mut out = vec![];
    let mut all: Vec<String> = vec![String::new()];
    for (i, e) in els.iter().enumerate() {
        let s = e.sentences(i);
        all = all.iter().flat_map(|w| s.iter().map(move |x| format!("{}{}", w, x))).collect();
    }
    let first: Vec<char> = all[0].chars().collect();
    out.extend(all);
    for k in 0..=first.len() {
        out.push(first[..k].iter().collect());
        if k < first.len() {
            let mut w = first.clone();
            w[k] = '!';
            out.push(w.iter().collect());
            w.remove(k);
            out.push(w.iter().collect());
            let mut w = first.clone();
            w.insert(k, w[k]);
            out.push(w.iter().collect());
        }
    }
    out.push(format!("{}!", out[0]));
    out.sort();
    out.dedup();
    out
}
fn choice_words(els: &[El]) -> Vec<String> {
    let mut out = vec![String::new(), "!".into()];
    for i in 0..els.len() {
        let (a, b) = (letter(i), partner(i));
        out.extend([format!("{}", a), format!("{}{}", a, b), format!("{}!", a)]);
    }
    out
}

fn want(x: &Item, parts: &[Arc<G>], ch: &[char]) -> R {
    let refs: Vec<&G> = parts.iter().map(|g| &**g).collect();
    let r = Ref { w: ch };
    if let DispatchNum(k) = x.form {
        return match r.run(refs[k], 0) {
            R::Ok { v, end, com } => R::Ok { v: Val::L(vec![v]), end, com },
            e => e,
        };
    }
    if x.form.is_choice() {
        return r.choice(&refs, 0);
    }
    match r.seqn(&refs, 0) {
        Ok((l, end, com)) => {
            let n = l.len();
            R::Ok { v: Val::L(l.into_iter().enumerate().filter(|(i, _)| x.form.keeps(*i, n)).map(|x| x.1).collect()), end, com }
        }
        Err(R::Err { .. }) if x.form == AttemptTuple => R::Err { com: false },
        Err(e) => e,
    }
}
fn want_err(x: &Item, parts: &[Arc<G>], ch: &[char]) -> E {
    let r = RefErr { w: ch };
    if let DispatchNum(k) = x.form {
        return r.run(&parts[k], 0);
    }
    if x.form.is_choice() {
        if parts.is_empty() {
            return E::Err { com: false, pos: 0, exp: Default::default() };
        }
        let mut e = r.run(&parts[0], 0);
        for g in &parts[1..] {
            e = r.or(e, 0, || r.run(g, 0));
        }
        return e;
    }
    // a nested sequence has the same report as the flat one, up to what the reference allows for nesting
    match x.form {
        WithChain | SkipChain | LeftNest | AttemptTuple => {
            let mut g = parts[0].clone();
            for p in &parts[1..] {
                g = Arc::new(G::B(B::Seq, g, p.clone()));
            }
            if x.form == AttemptTuple {
                g = Arc::new(G::U(U::Attempt, g));
            }
            r.run(&g, 0)
        }
        RightNest => {
            let mut it = parts.iter().rev();
            let mut g = it.next().unwrap().clone();
            for p in it {
                g = Arc::new(G::B(B::Seq, p.clone(), g));
            }
            r.run(&g, 0)
        }
        _ => {
            let mut e = referr::ok(0, false);
            for g in parts {
                e = r.then(e, |p| r.run(g, p));
            }
            e
        }
    }
}
fn byte_end(w: &str, n: usize) -> usize {
    w.char_indices().nth(n).map_or(w.len(), |x| x.0)
}

/// Cut sets: none, every single one, every pair, and a cut everywhere.
fn cuts_of(w: &str, pairs: bool) -> Vec<Vec<usize>> {
    let pts: Vec<usize> = (0..=w.len()).filter(|i| w.is_char_boundary(*i)).collect();
    let mut out = vec![vec![]];
    for (i, a) in pts.iter().enumerate() {
        out.push(vec![*a]);
        if pairs {
            for b in &pts[i + 1..] {
                out.push(vec![*a, *b]);
            }
        }
    }
    out.push(pts);
    out
}

fn check(k: &mut W, x: &Item, reports: bool, pairs: bool) -> Result<(), mc_rt::Viol> {
    let parts = Arc::new(x.parts());
    let ws = if x.form.is_choice() { choice_words(&x.els) } else { seq_words(&x.els) };
    let mut p: D<PI> = wide(x.form, &parts);
    let mut pe: D<I> = wide(x.form, &parts);
    for w in ws {
        let w = leak(w);
        let ch: Vec<char> = w.chars().collect();
        let want = want(x, &parts, &ch);
        let bad = |what: &str, d: String| viol(format!("{} {:?}", what, w), format!("{} input {:?}: {}", what, w, d));
        k.states += 1;
        // in one go
        for how in 0..2 {
            let mut st = DynState::default();
            let got = no_panic(|| {
                let mut i = MaybePartialStream(w, false);
                let r = if how == 0 { p.parse_stream(&mut i) } else { p.parse_stream_partial(&mut i, &mut st) };
                let end = w[..w.len() - i.0.len()].chars().count();
                use combine::error::ParseResult::*;
                match r {
                    CommitOk(v) => R::Ok { v, end, com: true },
                    PeekOk(v) => R::Ok { v, end, com: false },
                    CommitErr(_) => R::Err { com: true },
                    PeekErr(_) => R::Err { com: false },
                }
            });
            k.transitions += 1;
            k.traces += 1;
            if got != Ok(want.clone()) {
                return Err(bad(["whole", "whole, resumable"][how], format!("want {:?}, got {:?}", want, got)));
            }
        }
        // in pieces
        let (wo, wc) = match want {
            R::Ok { v, end, com } => (Out::Ok(v.clone(), byte_end(w, end)), OutC::Ok(v, byte_end(w, end), com)),
            R::Err { com } => (Out::Err, OutC::Err(com)),
        };
        for cuts in cuts_of(w, pairs) {
            let got = run_by(&mut p, w, &cuts, &mut DynState::default(), 0, &mut k.transitions);
            if got != wo {
                return Err(bad("chunked", format!("cut at {:?}: want {:?}, got {:?}", cuts, wo, got)));
            }
            let got = run_commit_by(&mut p, w, &cuts, &mut k.transitions);
            if got != wc {
                return Err(bad("chunked", format!("cut at {:?}, with commit status: want {:?}, got {:?}", cuts, wc, got)));
            }
            k.traces += 2;
        }
        // what is reported
        if reports {
            let want = want_err(x, &parts, &ch);
            let got = report(&mut pe, w).map_err(|m| bad("report", m))?;
            k.transitions += 1;
            k.traces += 1;
            match (want, got) {
                (E::Ok { .. }, None) => k.outcome("success"),
                (E::Err { pos, exp, .. }, Some(r)) => {
                    if r.pos != pos {
                        return Err(bad("report", format!("the failure is at {}, reported at {}", pos, r.pos)));
                    }
                    check_sets(&ch, pos, &exp, &r).map_err(|m| bad("report", m))?;
                    k.outcome(if exp.wild || exp.other { "report compared in part" } else { "report compared exactly" });
                }
                (want, got) => return Err(bad("report", format!("want {:?}, got {}", want, got.is_some()))),
            }
        }
    }
    k.sample(|| desc(x));
    Ok(())
}

fn items(form: Form, els: &[El], max_special: usize, widths: impl Fn(usize) -> bool) -> Vec<Item> {
    let mut out = vec![];
    for n in form.widths().filter(|n| widths(*n)) {
        let base = vec![El::Tok; n];
        out.push(Item { form, els: base.clone() });
        for i in 0..n {
            for a in els {
                let mut x = base.clone();
                x[i] = *a;
                out.push(Item { form, els: x.clone() });
                if max_special < 2 {
                    continue;
                }
                for j in i + 1..n {
                    for b in els {
                        x[j] = *b;
                        out.push(Item { form, els: x.clone() });
                        x[j] = El::Tok;
                        if max_special < 3 {
                            continue;
                        }
                        x[j] = *b;
                        for l in j + 1..n {
                            for c in els {
                                x[l] = *c;
                                out.push(Item { form, els: x.clone() });
                                x[l] = El::Tok;
                            }
                        }
                        x[j] = El::Tok;
                    }
                }
            }
        }
    }
    out
}

/// Every combination of elements, for short sequences.
fn dense(form: Form, els: &[El], n: usize) -> Vec<Item> {
    if !form.widths().contains(&n) {
        return vec![];
    }
    let mut out: Vec<Vec<El>> = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|v| els.iter().chain([&El::Tok]).map(move |e| [v.clone(), vec![*e]].concat())).collect();
    }
    out.into_iter().map(|els| Item { form, els }).collect()
}

/// Nesting of sequences and choices to a depth, mixed with the two ways to lean.
fn deep(c: &mut Ctx, max: usize) {
    let kinds = ["left sequence", "right sequence", "left choice", "right choice", "optional", "attempt", "boxed sequence"];
    let depths: Vec<(usize, usize)> = (0..kinds.len()).flat_map(|k| (1..=max).map(move |n| (k, n))).collect();
    c.sweep("deep nesting", &depths, |(k, n)| format!("{} depth {}", kinds[*k], n), |k: &mut W, &(kind, n)| {
        fn mk<J: mc_core::real::In>(kind: usize, n: usize) -> D<J> {
            let t = |c: char| d::<J, _>(combine::token(c).map(Val::C));
            let pair = |a: D<J>, b: D<J>| d((a, b).map(|_| Val::U));
            let mut p = t('z');
            for i in 0..n {
                let c = if i % 2 == 0 { 'a' } else { 'b' };
                p = match kind {
                    0 => pair(p, t(c)),
                    1 => pair(t(c), p),
                    2 => d(p.or(t(c))),
                    3 => d(t(c).or(p)),
                    4 => d(combine::optional(p).map(|_| Val::U)),
                    5 => d(combine::attempt(pair(t(c), p))),
                    _ => pair(t(c), d(Box::new(p) as Box<dyn Parser<J, Output = Val, PartialState = DynState>>)),
                };
            }
            p
        }
        let tail: Vec<char> = (0..n).map(|i| if i % 2 == 0 { 'a' } else { 'b' }).collect();
        let full: Vec<char> = match kind {
            0 => std::iter::once('z').chain(tail).collect(),
            1 | 5 | 6 => tail.into_iter().rev().chain(Some('z')).collect(),
            _ => vec!['z'],
        };
        let mut pe: D<I> = mk(kind, n);
        let mut p: D<PI> = mk(kind, n);
        let step = 1 + full.len() / 24;
        for at in (0..=full.len()).step_by(step).chain([full.len()]) {
            let w: String = full[..at].iter().chain(if at < full.len() { Some(&'!') } else { None }).collect();
            let w = leak(w);
            let bad = |d: String| viol(format!("{} {}", kind, at), format!("{:?}: {}", w, d));
            k.states += 1;
            k.transitions += 2;
            k.traces += 2;
            let ok = at == full.len() || kind == 4;
            let r = report(&mut pe, w).map_err(|m| bad(m))?;
            match &r {
                None if ok => k.outcome("accepted"),
                Some(r) if !ok => {
                    let found = w.chars().nth(at).map_or("end of input".into(), |c| format!("'{}'", c));
                    // the place an `attempt` backtracks from is where the input stopped matching
                    if r.pos != at || !r.unexpected.contains(&found) || (kind != 5 && r.unexpected.len() > 1) {
                        return Err(bad(format!("reported at {}, unexpected {:?}", r.pos, r.unexpected)));
                    }
                    let exp = format!("'{}'", full[at]);
                    if !r.expected.contains(&exp) {
                        return Err(bad(format!("expected {:?} does not mention {}", r.expected, exp)));
                    }
                    if kind < 2 && r.expected.len() != 1 {
                        return Err(bad(format!("expected {:?} instead of {}", r.expected, exp)));
                    }
                    k.outcome("rejected")
                }
                r => return Err(bad(format!("should be {}, got {}", ok, r.is_none()))),
            }
            let end = if ok && kind == 4 && at == 0 { 0 } else { full.len() };
            for cuts in [vec![], vec![at], vec![at / 2, at], (0..=w.len()).collect()] {
                let got = run_by(&mut p, w, &cuts, &mut DynState::default(), 0, &mut k.transitions);
                k.traces += 1;
                let good = match got {
                    Out::Ok(_, e) => ok && e == end,
                    // an optional parser with nothing left: reported as the end of the stream
                    Out::Err => !ok,
                    _ => false,
                };
                if !good {
                    return Err(bad(format!("cut at {:?}: {:?}", cuts, got)));
                }
            }
        }
        Ok(())
    });
}

fn run_prop(_: &str, c: &mut Ctx) {
    let q = c.quick();
    c.bound("widths", "tuples and structs 1-20, tuple structs 1-14, chains 2-26, tuple choices 1-25, arrays 0-32, slices 0-40, dispatch 1-8");
    c.bound("words", "all sentences; every prefix, substitution, deletion and doubling of the first");
    c.bound("cuts", if q { "none, each one, everywhere (plus all pairs with one special element)" } else { "none, each one, all pairs, everywhere" });
    let seqs = [
        Tuple, Struct, StructSkip, TupleStruct, TupleStructSkip, WithChain, SkipChain, LeftNest, RightNest, MacroTuple, MacroState, OpaqueTuple,
        AttemptTuple,
    ];
    let choices = [ChoiceTuple, ChoiceArray, ChoiceSlice, ChoiceMacro, OrLeft, OrRight, MacroChoice];
    let mut one = vec![];
    for f in seqs {
        one.extend(items(f, SEQ_ELS, 1, |_| true));
    }
    c.sweep("sequences, one special element", &one, desc, |k, x| check(k, x, true, x.els.len() < if q { 7 } else { 21 }));
    let mut one = vec![];
    for f in choices {
        one.extend(items(f, CH_ELS, 1, |_| true));
        one.extend(items(f, CH_ELS, 2, |n| !q || n < 7 || n == 12));
    }
    c.sweep("choices, two special alternatives", &one, desc, |k, x| check(k, x, true, true));
    let mut one = vec![];
    for f in (0..8).map(DispatchNum) {
        let DispatchNum(k) = f else { unreachable!() };
        one.extend(items(f, SEQ_ELS, 2, |n| n > k));
    }
    c.sweep("dispatch, two special branches", &one, desc, |k, x| check(k, x, true, true));
    let mut two = vec![];
    for f in seqs {
        let main = matches!(f, Tuple | StructSkip | LeftNest | RightNest | MacroTuple);
        two.extend(items(f, SEQ_ELS, 2, |n| !q || if main { n <= 6 || n == 14 } else { n <= 4 }));
    }
    c.sweep("sequences, two special elements", &two, desc, |k, x| check(k, x, true, !q && x.els.len() < 8));
    let mut three = vec![];
    for n in 2..=if q { 4 } else { 5 } {
        three.extend(dense(Tuple, SEQ_ELS, n));
        if !q {
            three.extend(dense(LeftNest, SEQ_ELS, n));
            three.extend(dense(RightNest, SEQ_ELS, n));
        }
        for f in [ChoiceTuple, ChoiceSlice, ChoiceArray, OrLeft] {
            three.extend(dense(f, CH_ELS, n));
        }
    }
    c.sweep("every combination of elements", &three, desc, |k, x| check(k, x, true, true));
    deep(c, if q { 300 } else { 600 });
}

fn main() {
    mc_rt::main(run_prop)
}
