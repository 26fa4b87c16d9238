//! A record of the semantic actions (closures of `map`, `and_then`, ...) a parser ran.
use crate::gram::{B, U};
use crate::val::Val;
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Off,
    /// every action
    All,
    /// only those which are not part of something that is retried from its start when it resumes
    Outside,
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// Starts a new record.
pub fn start(m: Mode) {
    MODE.with(|x| x.set(m));
    DEPTH.with(|x| x.set(0));
    LOG.with(|x| x.borrow_mut().clear());
}
pub fn take() -> Vec<String> {
    MODE.with(|x| x.set(Mode::Off));
    LOG.with(|x| std::mem::take(&mut *x.borrow_mut()))
}
/// How deep inside retried parts we are; an action records itself at depth 0.
pub fn depth() -> u32 {
    DEPTH.with(|x| x.get())
}
pub fn act(depth: u32, what: &str, v: &Val) {
    if depth == 0 && MODE.with(|x| x.get()) != Mode::Off {
        LOG.with(|x| x.borrow_mut().push(format!("{} {:?}", what, v)))
    }
}
pub fn at<R>(depth: u32, f: impl FnOnce() -> R) -> R {
    let old = DEPTH.with(|x| x.replace(depth));
    let r = f();
    DEPTH.with(|x| x.set(old));
    r
}
pub fn inside<R>(retried: bool, f: impl FnOnce() -> R) -> R {
    let more = retried && MODE.with(|x| x.get()) == Mode::Outside;
    at(depth() + more as u32, f)
}
pub fn retried(u: U) -> bool {
    use U::*;
    matches!(u, Attempt | LookAhead | Not | Recognize | RangeRecognize | RecognizeWithValue | TakeUntil | SkipUntil | NoPartial | AnySendState | AnySendSyncState | Iter | LengthPrefix | Count0 | Count1 | Count2 | SkipCount2)
}
pub fn retried2(b: B) -> bool {
    matches!(b, B::RepeatUntil | B::RepeatSkipUntil | B::ChainR1 | B::Escaped)
}
