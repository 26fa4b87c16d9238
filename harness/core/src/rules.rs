//! Recursive grammars: up to a few rules, each a term in which `(Rule i)` stands for rule `i`.
//!
//! The rules of the grammar at hand are kept per thread, and every way the library offers to tie the
//! knot is one `Form`.
use crate::gram::{B, G, T};
use crate::real::{build, d, In, DynState, D};
use crate::val::Val;
use combine::parser::combinator::{any_partial_state, factory, lazy, opaque, AnyPartialState, FnOpaque};
use combine::Parser;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    /// `parser!` with `AnyPartialState`
    Macro,
    /// `opaque!`
    Opaque,
    /// a function returning `FnOpaque`
    FnOpaque,
    Lazy,
    Factory,
    /// a plain function run by `parser(..)`, which cannot be suspended
    Function,
}
pub const RESUMABLE: [Form; 5] = [Form::Macro, Form::Opaque, Form::FnOpaque, Form::Lazy, Form::Factory];
pub const FORMS: [Form; 6] = [Form::Macro, Form::Opaque, Form::FnOpaque, Form::Lazy, Form::Factory, Form::Function];

thread_local! {
    static RULES: RefCell<Vec<Arc<G>>> = const { RefCell::new(Vec::new()) };
    static NULL: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
    static FORM: Cell<Form> = const { Cell::new(Form::Macro) };
}

pub fn set_form(f: Form) {
    FORM.with(|x| x.set(f))
}
/// Makes `rules` the grammar of this thread.
pub fn set(rules: &[Arc<G>]) {
    NULL.with(|n| *n.borrow_mut() = vec![false; rules.len()]);
    loop {
        let now: Vec<bool> = rules.iter().map(|r| r.nullable()).collect();
        if NULL.with(|n| std::mem::replace(&mut *n.borrow_mut(), now.clone())) == now {
            break;
        }
    }
    RULES.with(|r| *r.borrow_mut() = rules.to_vec());
}
pub fn rule(i: u8) -> Arc<G> {
    RULES.with(|r| r.borrow()[i as usize].clone())
}
pub fn nullable(i: u8) -> bool {
    NULL.with(|n| n.borrow().get(i as usize).copied().unwrap_or(true))
}

/// The rules which may be entered where `g` starts.
fn lefts(g: &G, out: &mut Vec<u8>) {
    match g {
        G::Rule(i) => out.push(*i),
        G::U(_, a) => lefts(a, out),
        G::B(b, x, y) => {
            lefts(x, out);
            if x.nullable() || matches!(b, B::Or | B::Choice2 | B::ChoiceSlice2 | B::ChoiceMacro2 | B::Dispatch | B::RepeatUntil | B::RepeatSkipUntil) {
                lefts(y, out)
            }
        }
        G::T(t, x, y, z) => {
            let (y, z) = if let T::Between = t { (z, y) } else { (y, z) };
            lefts(x, out);
            match t {
                T::Choice3 | T::ChoiceArr3 | T::ChoiceSlice3 => {
                    lefts(y, out);
                    lefts(z, out)
                }
                T::Then | T::ThenPartial | T::ThenRef => {
                    if x.nullable() {
                        lefts(y, out);
                        lefts(z, out)
                    }
                }
                T::Seq3 | T::Between | T::Struct3 => {
                    if x.nullable() {
                        lefts(y, out);
                        if y.nullable() {
                            lefts(z, out)
                        }
                    }
                }
            }
        }
        _ => {}
    }
}
/// Whether the grammar is one a recursive descent parser can run: some recursion, no left recursion,
/// no repetition of what may be empty. Leaves the grammar set.
pub fn usable(rules: &[Arc<G>]) -> bool {
    set(rules);
    let edges: Vec<Vec<u8>> = rules.iter().map(|r| { let mut v = vec![]; lefts(r, &mut v); v }).collect();
    let left_recursive = (0..rules.len()).any(|i| {
        let mut seen = vec![false; rules.len()];
        let mut todo = edges[i].clone();
        while let Some(j) = todo.pop() {
            if j as usize == i {
                return true;
            }
            if !std::mem::replace(&mut seen[j as usize], true) {
                todo.extend(&edges[j as usize]);
            }
        }
        false
    });
    !left_recursive
        && rules.iter().all(|r| r.terminates())
        && rules[0].any_node(&|g| matches!(g, G::Rule(_)))
        && (1..rules.len() as u8).all(|i| rules.iter().enumerate().any(|(k, r)| k != i as usize && r.any_node(&|g| *g == G::Rule(i))))
}

combine::parser! {
    type PartialState = AnyPartialState;
    fn macro_rule[I](i: u8)(I) -> Val
    where [I: In]
    {
        any_partial_state(build::<I>(&rule(*i)))
    }
}
fn fn_rule<I: In>(i: u8) -> FnOpaque<I, Val, DynState> {
    if i == 0 {
        opaque(|f| f(&mut build::<I>(&rule(0))))
    } else {
        opaque(|f| f(&mut build::<I>(&rule(1))))
    }
}

/// A reference to rule `i`.
pub fn call<I: In>(i: u8) -> D<I> {
    match FORM.with(|f| f.get()) {
        Form::Macro => d(macro_rule(i)),
        Form::Opaque => d(combine::opaque!(build::<I>(&rule(i)))),
        Form::FnOpaque => d(fn_rule(i)),
        Form::Lazy => d(lazy(move || build::<I>(&rule(i)))),
        Form::Factory => d(factory(move |_: &mut I| build::<I>(&rule(i)))),
        Form::Function => d(combine::parser(move |input: &mut I| build::<I>(&rule(i)).parse_stream(input).into_result())),
    }
}

/// Parses what `desc` prints.
pub fn read(s: &str) -> Result<Vec<Arc<G>>, String> {
    s.split(" ; ").map(|r| G::parse(r).map(Arc::new)).collect()
}
pub fn desc(rules: &[Arc<G>]) -> String {
    rules.iter().map(|g| format!("{:?}", g)).collect::<Vec<_>>().join(" ; ")
}
