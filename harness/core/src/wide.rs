//! Sequences and choices of every width and written form, around the real library.
use crate::gram::G;
use crate::real::{build, d, In, SliceChoice, D};
use crate::val::Val;
use combine::choice;
use combine::parser::choice::or;
use combine::parser::combinator::{any_partial_state, attempt, AnyPartialState};
use combine::parser::sequence::{skip, with};
use combine::Parser;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    // sequences
    Tuple,
    Struct,
    StructSkip,
    TupleStruct,
    TupleStructSkip,
    WithChain,
    SkipChain,
    LeftNest,
    RightNest,
    MacroTuple,
    MacroState,
    OpaqueTuple,
    AttemptTuple,
    // choices
    ChoiceTuple,
    ChoiceArray,
    ChoiceSlice,
    ChoiceMacro,
    OrLeft,
    OrRight,
    MacroChoice,
    // the `n`-th branch of a `dispatch!` with as many branches as parts
    DispatchNum(usize),
}
use Form::*;

impl Form {
    pub fn is_choice(self) -> bool {
        matches!(self, ChoiceTuple | ChoiceArray | ChoiceSlice | ChoiceMacro | OrLeft | OrRight | MacroChoice)
    }
    pub fn widths(self) -> std::ops::RangeInclusive<usize> {
        match self {
            Tuple | Struct | StructSkip | MacroTuple | MacroState | OpaqueTuple | AttemptTuple => 1..=20,
            TupleStruct => 1..=14,
            TupleStructSkip => 2..=14,
            WithChain | SkipChain | LeftNest | RightNest | OrLeft | OrRight => 2..=26,
            ChoiceTuple | MacroChoice | ChoiceMacro => 1..=25,
            ChoiceArray => 0..=32,
            ChoiceSlice => 0..=40,
            DispatchNum(_) => 1..=8,
        }
    }
    /// Which parts are left in the value.
    pub fn keeps(self, i: usize, n: usize) -> bool {
        match self {
            StructSkip | TupleStructSkip => i % 2 == 1,
            WithChain => i == n - 1,
            SkipChain => i == 0,
            DispatchNum(k) => i == k,
            _ => true,
        }
    }
}

macro_rules! with_tuples {
    ($m:ident) => {
        $m! {
            1: A; 2: A B; 3: A B C; 4: A B C D; 5: A B C D E; 6: A B C D E F; 7: A B C D E F G; 8: A B C D E F G H;
            9: A B C D E F G H J; 10: A B C D E F G H J K; 11: A B C D E F G H J K L; 12: A B C D E F G H J K L M;
            13: A B C D E F G H J K L M N; 14: A B C D E F G H J K L M N O; 15: A B C D E F G H J K L M N O P;
            16: A B C D E F G H J K L M N O P Q; 17: A B C D E F G H J K L M N O P Q R; 18: A B C D E F G H J K L M N O P Q R S;
            19: A B C D E F G H J K L M N O P Q R S T; 20: A B C D E F G H J K L M N O P Q R S T U0;
        }
    };
}

macro_rules! tuples {
    ($($n:literal: $($x:ident)+;)*) => {
        #[allow(non_snake_case)]
        pub fn tuple<I: In>(v: Vec<D<I>>) -> D<I> {
            let n = v.len();
            let mut v = v.into_iter();
            match n {
                $($n => { $(let $x = v.next().unwrap();)+ d(($($x,)+).map(|($($x,)+)| Val::L(vec![$($x),+]))) })*
                _ => unreachable!(),
            }
        }
        #[allow(non_snake_case)]
        pub fn strukt<I: In>(v: Vec<D<I>>) -> D<I> {
            let n = v.len();
            let mut v = v.into_iter();
            match n {
                $($n => {
                    struct S { $($x: Val),+ }
                    $(let $x = v.next().unwrap();)+
                    d(combine::struct_parser! { S { $($x: $x),+ } }.map(|S { $($x),+ }| Val::L(vec![$($x),+])))
                })*
                _ => unreachable!(),
            }
        }
    };
}
with_tuples!(tuples);

// `_` fields at the even places
macro_rules! struct_skip {
    (@go [$($done:tt)*] [$($f:ident)*] ) => {{
        struct S { $($f: Val),* }
        d(combine::struct_parser! { S { $($done)* } }.map(|S { $($f),* }| Val::L(vec![$($f),*])))
    }};
    (@go [$($done:tt)*] [$($f:ident)*] $p:ident $q:ident $($rest:ident)*) => {
        struct_skip!(@go [$($done)* _: $p, $q: $q,] [$($f)* $q] $($rest)*)
    };
    (@go [$($done:tt)*] [$($f:ident)*] $p:ident) => {
        struct_skip!(@go [$($done)* _: $p] [$($f)*])
    };
    ($($n:literal: $($x:ident)+;)*) => {
        #[allow(non_snake_case)]
        pub fn strukt_skip<I: In>(v: Vec<D<I>>) -> D<I> {
            let n = v.len();
            let mut v = v.into_iter();
            match n {
                $($n => { $(let $x = v.next().unwrap();)+ struct_skip!(@go [] [] $($x)+) })*
                _ => unreachable!(),
            }
        }
    };
}
with_tuples!(struct_skip);

macro_rules! with_small {
    ($m:ident) => {
        $m! {
            1: A; 2: A B; 3: A B C; 4: A B C D; 5: A B C D E; 6: A B C D E F; 7: A B C D E F G; 8: A B C D E F G H;
            9: A B C D E F G H J; 10: A B C D E F G H J K; 11: A B C D E F G H J K L; 12: A B C D E F G H J K L M;
            13: A B C D E F G H J K L M N; 14: A B C D E F G H J K L M N O;
        }
    };
}
macro_rules! val_ty {
    ($x:ident) => {
        Val
    };
}
macro_rules! tuple_structs {
    (@go [$($done:tt)*] [$($f:ident)*] ) => {{
        struct S($(val_ty!($f)),*);
        d(combine::struct_parser! { S( $($done)* ) }.map(|S($($f),*)| Val::L(vec![$($f),*])))
    }};
    (@go [$($done:tt)*] [$($f:ident)*] $p:ident $q:ident $($rest:ident)*) => {
        tuple_structs!(@go [$($done)* _: $p, $q,] [$($f)* $q] $($rest)*)
    };
    (@go [$($done:tt)*] [$($f:ident)*] $p:ident) => {
        tuple_structs!(@go [$($done)* _: $p] [$($f)*])
    };
    ($($n:literal: $($x:ident)+;)*) => {
        #[allow(non_snake_case)]
        pub fn tuple_struct<I: In>(v: Vec<D<I>>) -> D<I> {
            let n = v.len();
            let mut v = v.into_iter();
            match n {
                $($n => {
                    struct S($(val_ty!($x)),+);
                    $(let $x = v.next().unwrap();)+
                    d(combine::struct_parser! { S($($x),+) }.map(|S($($x),+)| Val::L(vec![$($x),+])))
                })*
                _ => unreachable!(),
            }
        }
        #[allow(non_snake_case)]
        pub fn tuple_struct_skip<I: In>(v: Vec<D<I>>) -> D<I> {
            let n = v.len();
            let mut v = v.into_iter();
            match n {
                1 => unreachable!(),
                $($n => { $(let $x = v.next().unwrap();)+ tuple_structs!(@go [] [] $($x)+) })*
                _ => unreachable!(),
            }
        }
    };
}
with_small!(tuple_structs);

macro_rules! choices {
    ($($n:literal: $($x:ident)+;)*) => {
        #[allow(non_snake_case)]
        pub fn choice_tuple<I: In>(v: Vec<D<I>>) -> D<I> {
            let n = v.len();
            let mut v = v.into_iter();
            match n {
                $($n => { $(let $x = v.next().unwrap();)+ d(choice(($($x,)+))) })*
                _ => unreachable!(),
            }
        }
        #[allow(non_snake_case)]
        pub fn choice_macro<I: In>(v: Vec<D<I>>) -> D<I> {
            let n = v.len();
            let mut v = v.into_iter();
            match n {
                $($n => { $(let $x = v.next().unwrap();)+ d(combine::choice!($($x),+)) })*
                _ => unreachable!(),
            }
        }
    };
}
choices! {
    1: A; 2: A B; 3: A B C; 4: A B C D; 5: A B C D E; 6: A B C D E F; 7: A B C D E F G; 8: A B C D E F G H;
    9: A B C D E F G H J; 10: A B C D E F G H J K; 11: A B C D E F G H J K L; 12: A B C D E F G H J K L M;
    13: A B C D E F G H J K L M N; 14: A B C D E F G H J K L M N O; 15: A B C D E F G H J K L M N O P;
    16: A B C D E F G H J K L M N O P Q; 17: A B C D E F G H J K L M N O P Q R; 18: A B C D E F G H J K L M N O P Q R S;
    19: A B C D E F G H J K L M N O P Q R S T; 20: A B C D E F G H J K L M N O P Q R S T U0;
    21: A B C D E F G H J K L M N O P Q R S T U0 V; 22: A B C D E F G H J K L M N O P Q R S T U0 V W;
    23: A B C D E F G H J K L M N O P Q R S T U0 V W X; 24: A B C D E F G H J K L M N O P Q R S T U0 V W X Y;
    25: A B C D E F G H J K L M N O P Q R S T U0 V W X Y Z;
}

macro_rules! arrays {
    ($($n:literal)*) => {
        pub fn choice_array<I: In>(v: Vec<D<I>>) -> D<I> {
            let n = v.len();
            match n {
                $($n => {
                    let a: [D<I>; $n] = match v.try_into() { Ok(a) => a, Err(_) => unreachable!() };
                    d(choice(a))
                })*
                _ => unreachable!(),
            }
        }
    };
}
arrays! { 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 }

macro_rules! dispatches {
    ($($n:literal: $($k:literal)* ;)*) => {
        fn dispatch_num<I: In>(n: usize, k: usize, mk: &dyn Fn(usize) -> D<I>) -> D<I> {
            match n {
                1 => d(combine::dispatch!(k; _ => mk(0))),
                $($n => d(combine::dispatch!(k; $($k => mk($k),)* _ => mk($n - 1))),)*
                _ => unreachable!(),
            }
        }
    };
}
dispatches! { 2: 0; 3: 0 1; 4: 0 1 2; 5: 0 1 2 3; 6: 0 1 2 3 4; 7: 0 1 2 3 4 5; 8: 0 1 2 3 4 5 6; }

combine::parser! {
    fn mac_tuple[I](v: Arc<Vec<Arc<G>>>)(I) -> Val
    where [ I: In ]
    { tuple(v.iter().map(|g| build::<I>(g)).collect()) }
}
combine::parser! {
    type PartialState = AnyPartialState;
    fn mac_state[I](v: Arc<Vec<Arc<G>>>)(I) -> Val
    where [ I: In ]
    { any_partial_state(tuple(v.iter().map(|g| build::<I>(g)).collect())) }
}
combine::parser! {
    #[derive(Clone)]
    struct MacChoice;
    type PartialState = AnyPartialState;
    fn mac_choice[I](v: Arc<Vec<Arc<G>>>)(I) -> Val
    where [ I: In ]
    { any_partial_state(choice_tuple(v.iter().map(|g| build::<I>(g)).collect())) }
}

pub fn wide<I: In>(f: Form, parts: &Arc<Vec<Arc<G>>>) -> D<I> {
    let v = || -> Vec<D<I>> { parts.iter().map(|g| build::<I>(g)).collect() };
    let n = parts.len();
    let fold = |two: &dyn Fn(D<I>, D<I>) -> D<I>| {
        let mut it = v().into_iter();
        let first = it.next().unwrap();
        it.fold(first, |a, b| two(a, b))
    };
    let foldr = |two: &dyn Fn(D<I>, D<I>) -> D<I>| {
        let mut it = v().into_iter().rev();
        let first = it.next().unwrap();
        it.fold(first, |a, b| two(b, a))
    };
    match f {
        Tuple => tuple(v()),
        Struct => strukt(v()),
        StructSkip => strukt_skip(v()),
        TupleStruct => tuple_struct(v()),
        TupleStructSkip => tuple_struct_skip(v()),
        WithChain => d(fold(&|a, b| d(with(a, b))).map(|x| Val::L(vec![x]))),
        SkipChain => d(fold(&|a, b| d(skip(a, b))).map(|x| Val::L(vec![x]))),
        LeftNest => d(fold(&|a, b| d((a, b).map(|(a, b)| Val::pair(a, b)))).map(move |mut x| {
            let mut out = vec![];
            for _ in 1..n {
                let Val::L(mut l) = x else { unreachable!() };
                out.push(l.pop().unwrap());
                x = l.pop().unwrap();
            }
            out.push(x);
            out.reverse();
            Val::L(out)
        })),
        RightNest => d(foldr(&|a, b| d((a, b).map(|(a, b)| Val::pair(a, b)))).map(move |mut x| {
            let mut out = vec![];
            for _ in 1..n {
                let Val::L(mut l) = x else { unreachable!() };
                x = l.pop().unwrap();
                out.push(l.pop().unwrap());
            }
            out.push(x);
            Val::L(out)
        })),
        MacroTuple => d(mac_tuple(parts.clone())),
        MacroState => d(mac_state(parts.clone())),
        OpaqueTuple => {
            let parts = parts.clone();
            d(combine::opaque!(tuple::<I>(parts.iter().map(|g| build::<I>(g)).collect())))
        }
        AttemptTuple => d(attempt(tuple(v()))),
        ChoiceTuple => choice_tuple(v()),
        ChoiceArray => choice_array(v()),
        ChoiceSlice => d(SliceChoice(v())),
        ChoiceMacro => choice_macro(v()),
        OrLeft => fold(&|a, b| d(or(a, b))),
        OrRight => foldr(&|a, b| d(or(a, b))),
        MacroChoice => d(mac_choice(parts.clone())),
        DispatchNum(k) => d(dispatch_num(n, k, &|i| build::<I>(&parts[i])).map(|x| Val::L(vec![x]))),
    }
}
