//! Runtime shared by every check: exhaustive sweeps over an enumerated space on all cores, a
//! supervisor which turns crashes, hangs and runaway allocation of the code under test into
//! verdicts, replay of a single item, known findings and the evidence file.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation guard

pub struct Guard;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
}
const ITEM_LIMIT: i64 = 1 << 30;

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            let n = NET.with(|n| {
                n.set(n.get() + l.size() as i64);
                n.get()
            });
            if n > ITEM_LIMIT {
                unsafe { libc::_exit(EXIT_MEMORY) }
            }
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            NET.with(|n| n.set(n.get() - l.size() as i64));
        }
        unsafe { System.dealloc(p, l) }
    }
}

const EXIT_MEMORY: i32 = 70;
const EXIT_HANG: i32 = 71;
const SLOTS: usize = 64;
/// An item takes microseconds to a few seconds; longer than this is non-termination.
const ITEM_SECONDS: u64 = 60;

// ---------------------------------------------------------------- shared in-flight table

#[repr(C)]
struct Slot {
    active: AtomicU64,
    sweep: AtomicU64,
    item: AtomicU64,
    since: AtomicU64,
}

fn map_shared(path: &str) -> &'static [Slot; SLOTS] {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("status file");
    let len = std::mem::size_of::<[Slot; SLOTS]>();
    f.set_len(len as u64).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const [Slot; SLOTS])
    }
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
enum Mode {
    Run,
    /// run exactly these (sweep number, item number), verbosely
    Only(u64, u64),
    /// print the description of these items instead of running them
    Describe(u64, u64),
    /// run the item with this sweep name and description
    Replay(String, String),
}

/// A broken property: `key` identifies the failing case in the known-findings file.
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub detail: String,
}

pub fn viol(key: impl Into<String>, detail: impl Into<String>) -> Viol {
    Viol { key: key.into(), detail: detail.into() }
}

/// Counters of one worker thread.
#[derive(Default)]
pub struct W {
    /// distinct points of the explored space (terms × inputs × schedules, or model states)
    pub states: u64,
    /// calls made to the code under test
    pub transitions: u64,
    /// executions compared with the reference
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    viols: Vec<(usize, Viol)>,
}

impl W {
    pub fn outcome(&mut self, k: &str) {
        if let Some(n) = self.outcomes.get_mut(k) {
            *n += 1;
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    mode: Mode,
    slots: &'static [Slot; SLOTS],
    sweeps: u64,
    total: W,
    found: Vec<(String, String, Viol)>,
    bounds: Vec<(String, String)>,
    assumptions: Vec<String>,
    ran: u64,
    start: Instant,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS)
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Runs `f`, turning a panic into its message.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

const MAX_FOUND: usize = 200;

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// States a bound of the exploration in the evidence.
    pub fn bound(&mut self, what: &str, v: impl ToString) {
        self.bounds.push((what.into(), v.to_string()));
    }
    pub fn assume(&mut self, a: &str) {
        self.assumptions.push(a.into());
    }

    /// Visits every item of `items` exactly once. `f` reports what it explored in `W`.
    pub fn sweep<T: Sync>(
        &mut self,
        name: &str,
        items: &[T],
        desc: impl Fn(&T) -> String + Sync,
        f: impl Fn(&mut W, &T) -> Result<(), Viol> + Sync,
    ) {
        self.sweep_with(name, items, desc, || (), |w, _, t| f(w, t))
    }

    pub fn sweep_with<T: Sync, S>(
        &mut self,
        name: &str,
        items: &[T],
        desc: impl Fn(&T) -> String + Sync,
        mk: impl Fn() -> S + Sync,
        f: impl Fn(&mut W, &mut S, &T) -> Result<(), Viol> + Sync,
    ) {
        let sweep = self.sweeps;
        self.sweeps += 1;
        let only: Option<usize> = match &self.mode {
            Mode::Run => None,
            Mode::Only(s, i) => {
                if *s != sweep {
                    return;
                }
                Some(*i as usize)
            }
            Mode::Describe(s, i) => {
                if *s == sweep {
                    println!("{}\n{}", name, items.get(*i as usize).map(desc).unwrap_or_default());
                    self.ran += 1;
                }
                return;
            }
            Mode::Replay(n, d) => {
                if n != name {
                    return;
                }
                match items.iter().position(|t| desc(t) == *d) {
                    Some(i) => Some(i),
                    None => return,
                }
            }
        };
        let t0 = Instant::now();
        let next = AtomicUsize::new(only.unwrap_or(0));
        let end = only.map_or(items.len(), |i| (i + 1).min(items.len()));
        let chunk = if only.is_some() { 1 } else { (items.len() / (threads() * 64)).clamp(1, 256) };
        let stop = AtomicBool::new(false);
        let out: Mutex<Vec<W>> = Mutex::new(vec![]);
        let slots = self.slots;
        std::thread::scope(|sc| {
            for tid in 0..(if only.is_some() { 1 } else { threads() }) {
                let (next, stop, out, f, mk) = (&next, &stop, &out, &f, &mk);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = &slots[tid];
                        let mut w = W::default();
                        let mut s = mk();
                        'o: loop {
                            let i = next.fetch_add(chunk, Relaxed);
                            if i >= end {
                                break;
                            }
                            for k in i..(i + chunk).min(end) {
                                if stop.load(Relaxed) {
                                    break 'o;
                                }
                                slot.sweep.store(sweep, Relaxed);
                                slot.item.store(k as u64, Relaxed);
                                slot.since.store(now_ms(), Relaxed);
                                slot.active.store(1, SeqCst);
                                NET.with(|n| n.set(0));
                                ACTIVE.with(|a| a.set(true));
                                let r = no_panic(|| f(&mut w, &mut s, &items[k]));
                                ACTIVE.with(|a| a.set(false));
                                slot.active.store(0, SeqCst);
                                let r = match r {
                                    Ok(r) => r,
                                    Err(m) => {
                                        s = mk();
                                        Err(viol("panic", format!("panicked: {}", m)))
                                    }
                                };
                                if let Err(v) = r {
                                    w.viols.push((k, v));
                                    if w.viols.len() >= MAX_FOUND {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                        }
                        out.lock().unwrap().push(w);
                    })
                    .unwrap();
            }
        });
        let mut viols = vec![];
        for w in out.into_inner().unwrap() {
            self.total.states += w.states;
            self.total.transitions += w.transitions;
            self.total.traces += w.traces;
            for (k, n) in w.outcomes {
                *self.total.outcomes.entry(format!("{}: {}", name, k)).or_default() += n;
            }
            if self.total.samples.iter().filter(|s| s.starts_with(name)).count() < 2 {
                self.total.samples.extend(w.samples.into_iter().map(|s| format!("{}: {}", name, s)));
            }
            viols.extend(w.viols);
        }
        viols.sort_by_key(|v| v.0);
        viols.truncate(MAX_FOUND);
        for (k, v) in viols {
            self.found.push((name.to_string(), desc(&items[k]), v));
        }
        self.ran += 1;
        self.bounds.push((format!("{}: items", name), format!("{}", end - only.unwrap_or(0).min(end))));
        eprintln!("[{}] {}: {} items, {:.1}s, {} deviations", self.prop, name, items.len(), t0.elapsed().as_secs_f64(), self.found.len());
    }
}

// ---------------------------------------------------------------- JSON, without a dependency

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The replay file: `key: value` lines, values JSON-free and single-line.
fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn un_line(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

// ---------------------------------------------------------------- entry point

struct Known {
    prop: String,
    sweep: String,
    item: String,
    key: String,
    what: String,
}

/// `finding: property=P | sweep=.. | item=.. | key=.. | what` lines; `fixed:` lines suppress nothing.
fn known(dir: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", dir)).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let mut k = Known { prop: String::new(), sweep: String::new(), item: String::new(), key: String::new(), what: String::new() };
        for part in l.split(" | ") {
            if let Some(x) = part.strip_prefix("property=") {
                k.prop = x.into()
            } else if let Some(x) = part.strip_prefix("sweep=") {
                k.sweep = x.into()
            } else if let Some(x) = part.strip_prefix("item=") {
                k.item = un_line(x)
            } else if let Some(x) = part.strip_prefix("key=") {
                k.key = un_line(x)
            } else {
                k.what = part.into()
            }
        }
        v.push(k);
    }
    v
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// `<bin> <PROPERTY> <quick|thorough>` or `<bin> <PROPERTY> replay <file>`.
pub fn main(run: impl Fn(&str, &mut Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    let (prop, what) = (a[1].clone(), a[2].clone());
    if std::env::var_os("MC_CHILD").is_some() {
        child(run, prop, what)
    } else {
        supervise(prop, what, a.get(3).cloned())
    }
}

fn spawn(prop: &str, tier: &str, status: &str, mode: &str) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(prop).arg(tier).env("MC_CHILD", mode).env("MC_STATUS", status);
    c
}

fn supervise(prop: String, what: String, file: Option<String>) {
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    let status = format!("{}/evidence/.{}.{}.status", dir, prop, std::process::id());
    let finish = |code: i32| -> ! {
        let _ = std::fs::remove_file(&status);
        std::process::exit(code)
    };
    if what == "replay" {
        let text = std::fs::read_to_string(file.expect("replay file")).expect("replay file");
        let get = |k: &str| {
            text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(un_line)).unwrap_or_default()
        };
        let mode = format!("replay\n{}\n{}", get("sweep"), get("item"));
        let tier = get("tier");
        let st = spawn(&prop, &tier, &status, &mode).status().expect("spawn");
        println!("replay of {} / {}: {}", get("sweep"), get("item"), if st.success() { "property holds" } else { "property broken" });
        finish(if st.success() { 0 } else { 1 })
    }
    let t0 = Instant::now();
    let _ = std::fs::remove_file(&status);
    let st = spawn(&prop, &what, &status, "run").status().expect("spawn");
    match st.code() {
        Some(c @ (0 | 1)) => finish(c),
        Some(c) if c != EXIT_MEMORY && c != EXIT_HANG && c != 134 => {
            eprintln!("check error: child exited with {}", c);
            finish(2)
        }
        code => {
            // The code under test crashed, hung or ate the memory: find the item which does it.
            let inflight: Vec<(u64, u64)> = map_shared(&status)
                .iter()
                .filter(|s| s.active.load(SeqCst) == 1)
                .map(|s| (s.sweep.load(Relaxed), s.item.load(Relaxed)))
                .collect();
            let how = match code {
                Some(EXIT_MEMORY) => "allocates without bound",
                Some(EXIT_HANG) => "does not terminate",
                _ => "crashes the process",
            };
            eprintln!("child ended with {:?}; in flight: {:?}", st, inflight);
            for (s, i) in inflight {
                let mut c = spawn(&prop, &what, &status, &format!("only\n{}\n{}", s, i));
                let ok = c.stdout(std::process::Stdio::null()).status().map_or(false, |s| matches!(s.code(), Some(0)));
                if !ok {
                    let o = spawn(&prop, &what, &status, &format!("describe\n{}\n{}", s, i)).output().expect("spawn");
                    let o = String::from_utf8_lossy(&o.stdout).to_string();
                    let (sweep, item) = o.trim_end_matches('\n').split_once('\n').unwrap_or((&o, ""));
                    let path = write_replay(&dir, &prop, &what, 0, sweep, item, &viol("crash", how));
                    evidence_stub(&dir, &prop, &what, t0.elapsed(), how);
                    println!("{} / {}: {}", sweep, item, how);
                    println!("VIOLATION property={} replay={}", prop, path);
                    finish(1)
                }
            }
            eprintln!("check error: the crash did not reproduce");
            finish(2)
        }
    }
}

fn write_replay(dir: &str, prop: &str, tier: &str, n: usize, sweep: &str, item: &str, v: &Viol) -> String {
    let path = format!("{}/evidence/{}-replay-{}.txt", dir, prop, n);
    let text = format!(
        "property: {}\ntier: {}\nsweep: {}\nitem: {}\nkey: {}\ndetail: {}\nrun: bash check.sh {} replay {}\n",
        prop,
        tier,
        one_line(sweep),
        one_line(item),
        one_line(&v.key),
        one_line(&v.detail),
        prop,
        path
    );
    std::fs::write(&path, text).expect("replay file");
    path
}

fn evidence_stub(dir: &str, prop: &str, tier: &str, wall: Duration, how: &str) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let text = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[{}]}},\"wall_s\":{:.2},\"violations\":1}}\n",
        js(prop), js(tier), seed, js(how), wall.as_secs_f64()
    );
    let _ = std::fs::write(format!("{}/evidence/{}.json", dir, prop), text);
}

fn child(run: impl Fn(&str, &mut Ctx), prop: String, tier_s: String) {
    let mode_s = std::env::var("MC_CHILD").unwrap();
    let mut ml = mode_s.split('\n');
    let mode = match ml.next().unwrap() {
        "only" => Mode::Only(ml.next().unwrap().parse().unwrap(), ml.next().unwrap().parse().unwrap()),
        "describe" => Mode::Describe(ml.next().unwrap().parse().unwrap(), ml.next().unwrap().parse().unwrap()),
        "replay" => Mode::Replay(ml.next().unwrap().into(), ml.collect::<Vec<_>>().join("\n")),
        _ => Mode::Run,
    };
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", m, loc));
    }));
    let dir = verif_dir();
    let slots = map_shared(&std::env::var("MC_STATUS").unwrap());
    for s in slots {
        s.active.store(0, SeqCst);
    }
    // Watchdog: one item which runs for very long is non-termination of the code under test.
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        for s in slots {
            if s.active.load(SeqCst) == 1 && now.saturating_sub(s.since.load(Relaxed)) > ITEM_SECONDS * 1000 {
                unsafe { libc::_exit(EXIT_HANG) }
            }
        }
    });
    let tier = if tier_s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut c = Ctx {
        prop: prop.clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
        mode: mode.clone(),
        slots,
        sweeps: 0,
        total: W::default(),
        found: vec![],
        bounds: vec![],
        assumptions: vec![],
        ran: 0,
        start: Instant::now(),
    };
    if let Err(m) = no_panic(|| run(&prop, &mut c)) {
        eprintln!("check error: {}", m);
        std::process::exit(3);
    }
    match mode {
        Mode::Describe(..) => std::process::exit(0),
        Mode::Only(..) | Mode::Replay(..) => {
            for (s, i, v) in &c.found {
                println!("{} / {}\n  {}: {}", s, i, v.key, v.detail);
            }
            if c.ran == 0 {
                println!("item not found in the enumerated space");
            }
            std::process::exit(!c.found.is_empty() as i32)
        }
        Mode::Run => {}
    }
    // Verdict
    let mut bad = 0;
    let kn = known(&dir);
    let mut used = vec![false; kn.len()];
    for (s, i, v) in &c.found {
        if let Some(k) = kn.iter().position(|k| k.prop == prop && k.sweep == *s && k.item == *i && k.key == v.key) {
            if !used[k] {
                println!("KNOWN-FINDING: property={} {}", prop, kn[k].what);
                used[k] = true;
            }
            continue;
        }
        bad += 1;
        if bad <= 5 {
            let path = write_replay(&dir, &prop, &tier_s, bad - 1, s, i, v);
            println!("{} / {}\n  {}: {}", s, i, v.key, v.detail);
            println!("VIOLATION property={} replay={}", prop, path);
        }
    }
    if bad == 0 && (c.total.states == 0 || c.total.traces == 0) {
        eprintln!("check error: nothing explored");
        std::process::exit(3);
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":true,\"bounds\":{{",
        js(&prop), js(&tier_s), c.seed, c.total.states, c.total.transitions, c.total.traces
    );
    o.push_str(&c.bounds.iter().map(|(a, b)| format!("{}:{}", js(a), js(b))).collect::<Vec<_>>().join(","));
    o.push_str("},\"outcomes\":{");
    o.push_str(&c.total.outcomes.iter().map(|(a, b)| format!("{}:{}", js(a), b)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&c.total.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        c.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        c.start.elapsed().as_secs_f64(),
        bad
    );
    std::fs::write(format!("{}/evidence/{}.json", dir, prop), o).expect("evidence");
    println!(
        "{} {}: {} states, {} transitions, {} executions compared, {} violations, {:.1}s",
        prop, tier_s, c.total.states, c.total.transitions, c.total.traces, bad, c.start.elapsed().as_secs_f64()
    );
    std::process::exit((bad > 0) as i32)
}
