use combine::easy::{Error, Info};
use combine::stream::position;
use combine::EasyParser;
use mc_core::gram::*;
use mc_core::referr::{RefErr, E, Set as ESet};
use mc_core::spaces::*;
use mc_core::words::words;
use std::collections::BTreeMap;
use std::sync::Arc;
type P = position::Stream<&'static str, position::IndexPositioner>;
fn sig(g: &G) -> String {
    let mut v = vec![];
    fn go(g: &G, v: &mut Vec<String>) {
        match g {
            G::U(u, a) => { v.push(u.name().into()); go(a, v) }
            G::B(b, x, y) => { v.push(b.name().into()); go(x, v); go(y, v) }
            G::T(b, x, y, z) => { v.push(b.name().into()); go(x, v); go(y, v); go(z, v) }
            _ => {}
        }
    }
    go(g, &mut v); v.sort(); v.join("+")
}
fn main() {
    let n: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let skip: Vec<String> = std::env::args().skip(2).collect();
    use U::*; use B::*; use T::*;
    let us: Vec<U> = if std::env::var("POSONLY").is_ok() { U::ALL.to_vec() } else { vec![Map, Attempt, Optional, Many, Many1, SkipMany, SkipMany1, Expected, Silent, LookAhead, Message, Ignore, Opaque, AnyState, Boxed, ByRef, LeftEither, RightEither, Lazy, Factory, NoPartial, Not, AndThen, Count0, Count1, Count2, SkipCount2, Iterate2, AnySendState] }.into_iter().filter(|u| !skip.contains(&u.name().to_string())).collect();
    let bs: Vec<B> = if std::env::var("POSONLY").is_ok() { B::ALL.to_vec() } else { vec![Seq, With, Skip, Struct2, SeqMacro2, Or, Choice2, ChoiceSlice2, ChoiceMacro2, SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1, ChainR1, RepeatUntil, RepeatSkipUntil, IterateVar] }.into_iter().filter(|u| !skip.contains(&u.name().to_string())).collect();
    let ts: Vec<T> = [Seq3, Choice3, Between, ChoiceArr3, ChoiceSlice3, Then, ThenPartial, ThenRef, Struct3].into_iter().filter(|u| !skip.contains(&u.name().to_string())).collect();
    let sp = space(&std::env::var("LEAVES").unwrap_or("'a|'b|Eof|Value".into()), &us, &bs, &ts);
    let terms = upto(&sp, n, |_| true);
    let ws = words("abc", 4);
    let mut m: BTreeMap<String, (usize, Vec<(Arc<G>, String)>)> = BTreeMap::new();
    for g in &terms {
        for w in &ws {
            let ch: Vec<char> = w.chars().collect();
            let want = RefErr { w: &ch }.run(g, 0);
            let E::Err { pos, exp, .. } = want else { continue };
            let mut p = mc_core::real::build::<combine::easy::Stream<P>>(g);
            let e = match p.easy_parse(position::Stream::with_positioner(*w, position::IndexPositioner::default())) { Err(e) => e, Ok(_) => panic!("ok {:?} {:?}", g, w) };
            let mut ge = ESet::new();
            let mut un = vec![];
            let f = |i: &Info<char, &str>| match i { Info::Token(c) => format!("'{}'", c), Info::Range(r) => r.to_string(), Info::Static(s) => s.to_string(), Info::Owned(s) => s.clone() };
            for x in &e.errors { match x { Error::Expected(i) => { ge.insert(f(i)); } Error::Unexpected(i) => un.push(f(i)), _ => {} } }
            let wu = ch.get(pos).map_or("end of input".to_string(), |c| format!("'{}'", c));
            if e.position != pos || std::env::var("POSONLY").is_err() && (!exp.allows(&ge) || !(exp.other || if exp.wild { un.contains(&wu) } else { un == vec![wu.clone()] })) {
                let x = m.entry(sig(g)).or_default();
                x.0 += 1; x.1.push((g.clone(), format!("{:?} want {} {:?} {:?} got {} {:?} {:?}", w, pos, wu, exp, e.position, un, ge)));
                break;
            }
        }
    }
    let mut l: Vec<_> = m.into_iter().collect();
    l.sort_by_key(|x| x.0.matches('+').count());
    let all: Vec<Vec<String>> = l.iter().map(|x| x.0.split('+').map(|s| s.to_string()).collect()).collect();
    let keep: Vec<bool> = (0..l.len()).map(|i| !(0..i).any(|j| all[j].len() < all[i].len() && all[j].iter().all(|s| all[i].contains(s)))).collect();
    let mut ki = keep.iter();
    l.retain(|_| *ki.next().unwrap());
    println!("{} terms, {} signatures", terms.len(), l.len());
    for (s, (n, v)) in l.iter().take(25) {
        let (g, m) = v.iter().min_by_key(|x| x.0.size()).unwrap();
        println!("{} x{}: {:?}  {}", s, n, g, m);
    }
}
