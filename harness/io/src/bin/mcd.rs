//! P12: the `decode!` family under every read schedule. P13: `BufReader` under every schedule.
use combine::stream::position::SourcePosition;
use mc_core::gram::*;
use mc_core::refsem::{Ref, R};
use mc_core::spaces::*;
use mc_core::val::Val;
use mc_core::words::words;
use mc_io::big::{run, Form, FORMS};
use mc_io::dec::*;
use mc_io::script::*;
use mc_rt::{no_panic, viol, Ctx, W};
use std::sync::Arc;

#[global_allocator]
static A: mc_rt::Guard = mc_rt::Guard;

use B::*;
use T::*;
use U::*;

type Words = Vec<(&'static str, Vec<char>)>;
fn ws(al: &str, n: usize) -> Words {
    words(al, n).into_iter().map(|w| (w, w.chars().collect())).collect()
}
fn desc(g: &Arc<G>) -> String {
    format!("{:?}", g)
}

/// What consecutive messages of `w` must be: values with their ends, then whether an error follows.
fn reference(g: &G, ch: &[char], max: usize) -> (Vec<(Val, usize)>, bool) {
    let mut out = vec![];
    let mut pos = 0;
    while out.len() < max {
        match (Ref { w: ch }).run(g, pos) {
            R::Ok { v, end, .. } => {
                out.push((v, end));
                if end == pos {
                    return (out, false);
                }
                pos = end;
            }
            R::Err { .. } => return (out, true),
        }
    }
    (out, false)
}

fn source_pos(ch: &[char]) -> SourcePosition {
    let mut p = SourcePosition::default();
    for c in ch {
        if *c == '\n' {
            p.line += 1;
            p.column = 1;
        } else {
            p.column += 1;
        }
    }
    p
}

/// The least number of characters which decides the message at `pos`: however the input continues,
/// the outcome is the same.
fn decided(g: &G, ch: &[char], pos: usize, al: &[Vec<char>]) -> usize {
    let want = Ref { w: ch }.run(g, pos);
    let R::Ok { end, .. } = want else { return usize::MAX };
    'p: for p in end..=ch.len() {
        for e in al {
            let mut x = ch[..p].to_vec();
            x.extend(e);
            if (Ref { w: &x }).run(g, pos) != want {
                continue 'p;
            }
        }
        return p;
    }
    usize::MAX
}

/// Runs one session and compares it with the reference.
fn check(
    g: &Arc<G>,
    w: &'static str,
    ch: &[char],
    want: &(Vec<(Val, usize)>, bool),
    need: Option<&[usize]>,
    api: Api,
    cap: Option<usize>,
    sched: &[Ev],
    cancel: bool,
    calls: &mut u64,
) -> Result<(), String> {
    let (rd, log) = Rd::new(w.as_bytes(), sched);
    let mut s = session(api, cap, g, rd);
    let fails = sched.iter().filter(|e| **e == Ev::F).count() as u64;
    let mut failed = 0;
    let mut prev = 0;
    let mut tell = |s: &mut Box<dyn Session + '_>, prev: usize| -> Result<Got, String> {
        loop {
            *calls += 1;
            let r = s.next(cancel);
            if let Got::Io(p) = r {
                failed += 1;
                if p != s.position() {
                    return Err(format!("the io error carries {:?}, the decoder is at {:?}", p, s.position()));
                }
                let l = log.borrow();
                if l.fails != failed {
                    return Err("an io error out of nowhere".into());
                }
                let left = s.leftover();
                if left.len() > l.given - prev || &w.as_bytes()[l.given - left.len()..l.given] != &left[..] {
                    return Err(format!("after an io error, {:?} is left of the {} bytes read, message started at {}", left, l.given, prev));
                }
                if p != source_pos(&ch[..l.given - left.len()]) {
                    return Err(format!("after an io error, at {:?} with {} bytes used", p, l.given - left.len()));
                }
                continue;
            }
            return Ok(r);
        }
    };
    for (i, (v, end)) in want.0.iter().enumerate() {
        let before = log.borrow().given;
        let r = tell(&mut s, prev)?;
        if r != Got::Ok(v.clone()) {
            return Err(format!("message {}: want {:?}, got {:?}", i, v, r));
        }
        let l = log.borrow();
        let left = s.leftover();
        if l.given < *end || left != w.as_bytes()[*end..l.given] {
            return Err(format!("message {}: ends at {}, {} bytes read, {:?} left in the buffer", i, end, l.given, left));
        }
        let p = s.position();
        if p != source_pos(&ch[..*end]) {
            return Err(format!("message {}: ends at {}, the decoder is at {:?}", i, end, p));
        }
        if let Some(need) = need {
            let n = need[i];
            // the first moment at which enough was read
            let mut have = 0;
            let mut first = None;
            for e in sched {
                if let Ev::D(k) = e {
                    if have >= before && have >= n {
                        first = Some(have);
                        break;
                    }
                    have += k;
                }
            }
            if let Some(f) = first {
                if l.given > f.max(before) {
                    return Err(format!("message {}: decided after {} bytes, {} were read", i, f.max(before), l.given));
                }
            }
        }
        if l.empty {
            return Err("read into an empty buffer".into());
        }
        prev = *end;
    }
    if want.1 {
        let r = tell(&mut s, prev)?;
        if r != Got::Parse {
            return Err(format!("want a parse error after {} messages, got {:?}", want.0.len(), r));
        }
    }
    let l = log.borrow();
    if l.empty {
        return Err("read into an empty buffer".into());
    }
    if l.eofs > 1 {
        return Err(format!("{} reads at the end of input", l.eofs));
    }
    let _ = fails;
    Ok(())
}

struct Plan {
    sched: Vec<Ev>,
    cancel: bool,
}

fn plans(n: usize, evs: &[Ev], k: usize) -> Vec<Plan> {
    let mut out = vec![];
    for c in compositions(n) {
        for s in inject(&c, evs, k) {
            if s.contains(&Ev::P) {
                out.push(Plan { sched: s.clone(), cancel: true });
            }
            out.push(Plan { sched: s, cancel: false });
        }
    }
    out
}

fn sessions(c: &mut Ctx, name: &str, terms: &[Arc<G>], ws: &Words, evs: &[Ev], inj: usize, caps: &[Option<usize>], prompt: bool) {
    let longest = ws.iter().map(|w| w.1.len()).max().unwrap_or(0);
    let by_len: Vec<Vec<Plan>> = (0..=longest).map(|n| plans(n, evs, inj)).collect();
    let al: Vec<Vec<char>> = words("abc\n", 2).iter().map(|w| w.chars().collect()).collect();
    c.sweep(name, terms, desc, |k: &mut W, g| {
        for (w, ch) in ws {
            let want = reference(g, ch, 3);
            let need: Option<Vec<usize>> = prompt.then(|| {
                let mut p = 0;
                want.0
                    .iter()
                    .map(|(_, e)| {
                        let d = decided(g, ch, p, &al);
                        p = *e;
                        d
                    })
                    .collect()
            });
            let mut n = 0;
            for plan in &by_len[ch.len()] {
                for api in APIS {
                    if api == Api::Sync && (plan.cancel || plan.sched.contains(&Ev::P)) {
                        continue;
                    }
                    for cap in caps {
                        let r = no_panic(|| check(g, w, ch, &want, need.as_deref(), api, *cap, &plan.sched, plan.cancel, &mut k.transitions));
                        n += 1;
                        let r = match r {
                            Ok(r) => r,
                            Err(p) => Err(format!("panicked: {}", p)),
                        };
                        if let Err(e) = r {
                            return Err(viol(
                                format!("{:?} {:?}", w, api),
                                format!("{:?}, input {:?}, reads {:?}, cancel {}, external buffer {:?}: {}", api, w, plan.sched, plan.cancel, cap, e),
                            ));
                        }
                    }
                }
            }
            k.states += n;
            k.traces += n;
            *k.outcomes.entry(format!("{} messages{}", want.0.len(), if want.1 { ", then an error" } else { "" })).or_default() += n;
        }
        k.sample(|| format!("{:?}: sessions over {} words", g, ws.len()));
        Ok(())
    })
}

/// Byte protocols through every form of the macros, around the sizes at which buffers grow.
fn big(c: &mut Ctx, lens: &[usize], reads: &[usize], caps: &[Option<usize>]) {
    let mut items = vec![];
    for form in FORMS {
        for api in APIS {
            for a in lens {
                for b in lens {
                    items.push((form, api, [*a, *b, 3]));
                }
            }
        }
    }
    c.bound("large messages: message lengths", format!("{:?}", lens));
    c.bound("large messages: bytes per read", format!("{:?} (0: as many as fit)", reads));
    c.sweep("large messages", &items, |i| format!("{:?}", i), |k: &mut W, (form, api, lens)| {
        let (data, msgs) = form.encode(lens);
        let leaked: *mut [u8] = Box::into_raw(data.into_boxed_slice());
        let data: &'static [u8] = unsafe { &*leaked };
        let mut bad = None;
        'o: for rs in reads {
            let sched: Vec<Ev> = if *rs == 0 { vec![] } else { (0..data.len().div_ceil(*rs)).map(|_| Ev::D(*rs)).collect() };
            if sched.len() as u64 + 40 > MANY {
                continue;
            }
            for cap in caps {
                // one message less than there are, then all of them, then one too many
                for n in 2..=4 {
                    let want = n.min(3);
                    k.transitions += n as u64;
                    let s = match no_panic(|| run(*form, *api, *cap, n, data, &sched)) {
                        Ok(s) => s,
                        Err(p) => {
                            bad = Some(format!("reads of {}, buffer {:?}, {} messages: panicked: {}", rs, cap, n, p));
                            break 'o;
                        }
                    };
                    let mut used = 0;
                    let mut ends = vec![];
                    for m in &msgs[..want] {
                        used += m.len() + match form { Form::Len | Form::Lines => 2, Form::Find => 3, _ => 1 };
                        ends.push(used);
                    }
                    let sum: usize = msgs[..want].iter().map(|m| m.len()).sum();
                    let tail = s.left.len() <= data.len() - used && s.left[..] == data[used..used + s.left.len()];
                    let ok = s.msgs == msgs[..want]
                        && s.err.is_some() == (n == 4)
                        && tail
                        && (*form != Form::Index || s.pos == ends)
                        && (*form != Form::State || s.count == sum);
                    if !ok {
                        bad = Some(format!(
                            "reads of {}, buffer {:?}, {} messages of {:?}: got lengths {:?} (equal: {:?}), error {:?}, {} bytes left (right ones: {}), positions {:?}, counted {}",
                            rs, cap, n, lens, s.msgs.iter().map(|m| m.len()).collect::<Vec<_>>(),
                            s.msgs.iter().zip(&msgs).map(|(a, b)| a == b).collect::<Vec<_>>(), s.err, s.left.len(), tail, s.pos, s.count
                        ));
                        break 'o;
                    }
                    k.states += 1;
                    k.traces += 1;
                }
            }
        }
        k.outcome("sessions");
        drop(unsafe { Box::from_raw(leaked) });
        match bad {
            Some(b) => Err(viol(format!("{:?}", lens), b)),
            None => Ok(()),
        }
    })
}

fn run_prop(prop: &str, c: &mut Ctx) {
    let q = c.quick();
    c.assume("readers are deterministic scripts; a read after the last scripted one returns the rest");
    match prop {
        "P12" => {
            sessions(c, "all operators, size <= 2", &upto(&all(), 2, |_| true), &ws("abc", 4), &[], 0, &[None, Some(3)], false);
            sessions(c, "all operators, size 3", &exactly(&all(), 3, |_| true), &ws("ab", 3), &[], 0, &[None, Some(3)], false);
            sessions(c, "line counting", &upto(&space("Any|'a|(TakeWhile a)|(Take 2)", &[Many1, Optional, Count2], &[Seq, SepBy], &[]), 3, |_| true), &ws("a\n", 4), &[Ev::F], 1, &[None, Some(3)], false);
            big(c, if q { &[0, 1, 8094, 8190, 8191, 8192, 16385] } else { &[0, 1, 62, 63, 64, 65, 4095, 4096, 8093, 8094, 8095, 8096, 8189, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 40000] },
                if q { &[0, 4096, 8191] } else { &[0, 100, 511, 1000, 4096, 8095, 8191, 8192, 9000] }, if q { &[None, Some(8096)] } else { &[None, Some(0), Some(64), Some(8096), Some(8192)] });
            let exact = space("'a|Any|(Tokens ab)|(Str ab)|(Take 2)|(NoneOf a)|(TakeWhile1 a)", &[Attempt, Map, Count1, Count2, CountMinMax12, Many, Many1, LengthPrefix, Boxed, NoPartial, FlatMap, AnySendState],
                &[Seq, With, Skip, Or, Choice2, ChoiceSlice2, SepBy, SepEndBy1, ChainL1], &[Between]);
            sessions(c, "no message waits for input it does not need", &upto(&exact, 3, |_| true), &ws("ab", 4), &[], 0, &[None, Some(3)], true);
            let red = space("'a|(Str ab)|(TakeWhile a)|(Take 2)|(TakeUntilRange ab)|Eof", &[Attempt, LookAhead, Optional, Many, Count2, LengthPrefix, RangeRecognize], &[Seq, Or, SepEndBy1], &[]);
            sessions(c, "core operators, failing and unready reads", &upto(&red, 3, |_| true), &ws("ab", if q { 2 } else { 3 }), &[Ev::P, Ev::F], 2, &[None, Some(0), Some(1)], false);
        }
        "P13" => {
            use mc_io::bufr::{check, Kind, Op, KINDS};
            let n = if q { 4 } else { 5 };
            let depth = if q { 4 } else { 5 };
            let data: &'static [u8] = b"abcde";
            let data = &data[..n];
            let mut plans: Vec<Vec<Ev>> = vec![];
            for cmp in compositions(n) {
                plans.extend(inject(&cmp, &[Ev::P, Ev::F], 2));
            }
            c.bound("read schedules", format!("all {} ways to read {} bytes with up to two failing or unready reads", plans.len(), n));
            c.bound("operation sequences", format!("all of length {}", depth));
            let alphabet = [Op::Read(0), Op::Read(1), Op::Read(2), Op::Read(9), Op::Fill, Op::Consume(1), Op::Consume(9), Op::Decode, Op::Write, Op::Flush, Op::Shut];
            let mut items = vec![];
            for kind in KINDS {
                for cap in [0usize, 1, 3, 64] {
                    for p in &plans {
                        items.push((kind, cap, p.clone()));
                    }
                }
            }
            c.sweep("operations", &items, |i| format!("{:?}", i), |k: &mut W, (kind, cap, sched)| {
                let ops: Vec<Op> = if *kind == Kind::Sync { alphabet[..8].to_vec() } else { alphabet.to_vec() };
                let mut idx = vec![0usize; depth];
                loop {
                    let seq: Vec<Op> = idx.iter().map(|i| ops[*i]).collect();
                    match no_panic(|| check(*kind, *cap, data, sched, &seq)) {
                        Ok(Ok(n)) => k.transitions += n,
                        Ok(Err(e)) => return Err(viol(format!("{:?}", seq), format!("{:?}: {}", seq, e))),
                        Err(p) => return Err(viol(format!("{:?}", seq), format!("{:?}: panicked: {}", seq, p))),
                    }
                    k.states += 1;
                    k.traces += 1;
                    let mut i = 0;
                    while i < depth {
                        idx[i] += 1;
                        if idx[i] < ops.len() {
                            break;
                        }
                        idx[i] = 0;
                        i += 1;
                    }
                    if i == depth {
                        break;
                    }
                }
                k.outcome("histories");
                k.sample(|| format!("{:?} capacity {} reads {:?}: all operation sequences", kind, cap, sched));
                Ok(())
            });
        }
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    mc_rt::main(run_prop)
}
