//! P19: the regex parsers agree with the regex engine on every small pattern and input.
use combine::error::ParseResult::{self, *};
use combine::parser::regex::{captures, captures_many, find, find_many, match_};
use combine::stream::{position, RangeStream};
use combine::{Parser, StreamOnce};
use mc_rt::{no_panic, viol, Ctx, W};

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

/// Every pattern built from the atoms with up to `n` operators.
fn patterns(n: usize, atoms: &[&str]) -> Vec<String> {
    // (pattern, needs parentheses when repeated, needs parentheses when concatenated)
    let mut by: Vec<Vec<(String, bool, bool)>> = vec![atoms.iter().map(|a| (a.to_string(), false, false)).collect()];
    for k in 1..=n {
        let mut v = vec![];
        for (p, r, _) in &by[k - 1] {
            let q = if *r { format!("(?:{})", p) } else { p.clone() };
            for op in ["*", "+", "?", "*?"] {
                v.push((format!("{}{}", q, op), true, false));
            }
            v.push((format!("({})", p), false, false));
            v.push((format!("^(?:{})", p), true, false));
            v.push((format!("(?:{})$", p), true, false));
        }
        for i in 0..k {
            for (p, _, pc) in &by[i] {
                for (q, _, qc) in &by[k - 1 - i] {
                    let w = |s: &String, c: bool| if c { format!("(?:{})", s) } else { s.clone() };
                    v.push((format!("{}{}", w(p, *pc), w(q, *qc)), true, false));
                    v.push((format!("{}|{}", p, q), true, true));
                }
            }
        }
        by.push(v);
    }
    let mut out: Vec<String> = by.into_iter().flatten().map(|x| x.0).collect();
    out.sort();
    out.dedup();
    // an operator applied to nothing is not a pattern
    out.retain(|p| regex::Regex::new(p).is_ok());
    out
}
fn words(al: &[&str], max: usize) -> Vec<&'static str> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|w| al.iter().map(move |a| format!("{}{}", w, a))).collect();
        out.extend(last.iter().cloned());
    }
    out.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
}

type Got<T> = (Option<T>, bool, usize);
/// Value, commit status and how much was consumed.
fn go<I, P>(mut p: P, mut i: I, left: impl Fn(&I) -> usize) -> Got<P::Output>
where
    I: RangeStream,
    P: Parser<I>,
{
    let n = left(&i);
    let r: ParseResult<P::Output, <I as StreamOnce>::Error> = p.parse_stream(&mut i);
    let k = n - left(&i);
    match r {
        CommitOk(v) => (Some(v), true, k),
        PeekOk(v) => (Some(v), false, k),
        CommitErr(_) => (None, true, k),
        PeekErr(_) => (None, false, k),
    }
}

macro_rules! on {
    ($name:ident, $re:path, $t:ty, $conv:expr) => {
        fn $name(k: &mut W, re: &$re, w: &'static str) -> Result<(), String> {
            let s: &'static $t = $conv(w);
            let all: Vec<(usize, &'static $t)> = re.find_iter(s).map(|m| (m.end(), &s[m.start()..m.end()])).collect();
            let caps: Vec<(usize, Vec<&'static $t>)> = re
                .captures_iter(s)
                .map(|c| (c.get(0).unwrap().end(), c.iter().flatten().map(|m| &s[m.start()..m.end()]).collect()))
                .collect();
            let first = all.first();
            let end = all.last().map_or(0, |m| m.0);
            let fm = |n: usize| n > 0;
            macro_rules! same {
                ($what:expr, $p:expr, $want:expr) => {
                    let want = $want;
                    let got = no_panic(|| go($p, s, |i: &&'static $t| i.len())).map_err(|m| format!("{}: panicked: {}", $what, m))?;
                    if got != want {
                        return Err(format!("{}: want {:?}, got {:?}", $what, want, got));
                    }
                    let got = no_panic(|| go($p, position::Stream::with_positioner(s, position::IndexPositioner::default()), |i| i.input.len()))
                        .map_err(|m| format!("{}: panicked: {}", $what, m))?;
                    if got != want {
                        return Err(format!("{} with positions: want {:?}, got {:?}", $what, want, got));
                    }
                    k.transitions += 2;
                    k.traces += 2;
                };
            }
            let none = (None, false, 0);
            same!("match_", match_(re), if first.is_some() { (Some(s), false, 0) } else { none });
            let none = (None, false, 0);
            same!("find", find(re), first.map_or(none, |m| (Some(m.1), fm(m.0), m.0)));
            same!("find_many", find_many::<Vec<_>, _, _>(re), (Some(all.iter().map(|m| m.1).collect::<Vec<_>>()), fm(end), end));
            let none = (None, false, 0);
            same!("captures", captures::<Vec<_>, _, _>(re), caps.first().map_or(none, |m| (Some(m.1.clone()), fm(m.0), m.0)));
            same!(
                "captures_many",
                captures_many::<Vec<_>, Vec<_>, _, _>(re),
                (Some(caps.iter().map(|m| m.1.clone()).collect::<Vec<_>>()), fm(end), end)
            );
            // by value as well as by reference, and in front of something else
            same!("find by value", find(re.clone()), first.map_or((None, false, 0), |m| (Some(m.1), fm(m.0), m.0)));
            same!(
                "find then the rest",
                (find(re), combine::parser::range::take_while(|_| true)),
                first.map_or((None, false, 0), |m| (Some((m.1, &s[m.0..])), fm(s.len()), s.len()))
            );
            same!(
                "attempt(find, never) or nothing",
                combine::attempt(find(re).skip(combine::unexpected_any::<_, _, ()>("never"))).map(|_: &'static $t| 1).or(combine::value(2)),
                (Some(2), false, 0)
            );
            same!("lookahead", combine::look_ahead(find(re)), first.map_or((None, false, 0), |m| (Some(m.1), false, 0)));
            k.states += 1;
            k.outcome(if first.is_some() { "found" } else { "not found" });
            Ok(())
        }
    };
}
on!(on_str, regex::Regex, str, |w| w);
on!(on_bytes, regex::bytes::Regex, [u8], |w: &'static str| w.as_bytes());

fn run_prop(_: &str, c: &mut Ctx) {
    let q = c.quick();
    c.assume("the regex crate's own matching is the definition of what a pattern matches");
    let mut ps = patterns(if q { 2 } else { 3 }, if q { &["a", "b", ".", "", "[^a]", r"\b"] } else { &["a", "b", ".", ""] });
    // groups which take part in a match or not, before and after each other
    ps.extend(patterns(2, &["(a)", "(b)?", "(a)|(b)", "(?P<n>a|(b))", "((.))"]));
    ps.sort();
    ps.dedup();
    let ws = words(&["a", "b", "é"], if q { 5 } else { 6 });
    c.bound("patterns", format!("all {} with up to {} operators", ps.len(), if q { 2 } else { 3 }));
    c.bound("words", format!("all {} over a, b, é", ws.len()));
    c.sweep("text", &ps, |p| p.clone(), |k: &mut W, p| {
        let re = regex::Regex::new(p).map_err(|e| viol("pattern", e.to_string()))?;
        for w in &ws {
            on_str(k, &re, w).map_err(|m| viol(format!("{:?}", w), format!("/{}/ on {:?}: {}", p, w, m)))?;
        }
        k.sample(|| format!("/{}/ on {} words", p, ws.len()));
        Ok(())
    });
    c.sweep("bytes", &ps, |p| p.clone(), |k: &mut W, p| {
        for p in [p.clone(), format!("(?-u){}", p)] {
            let Ok(re) = regex::bytes::Regex::new(&p) else { continue };
            for w in &ws {
                on_bytes(k, &re, w).map_err(|m| viol(format!("{:?}", w), format!("/{}/ on {:?}: {}", p, w, m)))?;
            }
        }
        Ok(())
    });
}
fn main() {
    mc_rt::main(run_prop)
}
