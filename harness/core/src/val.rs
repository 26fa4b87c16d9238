//! The one output type every enumerated grammar produces.
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub enum Val {
    #[default]
    U,
    C(char),
    S(String),
    N(i64),
    O(Option<Box<Val>>),
    L(Vec<Val>),
}

impl Val {
    /// A data-dependent predicate: whether the value mentions the letter `a`.
    pub fn has_a(&self) -> bool {
        match self {
            Val::U | Val::N(_) => false,
            Val::C(c) => *c == 'a',
            Val::S(s) => s.contains('a'),
            Val::O(o) => o.as_ref().map_or(false, |v| v.has_a()),
            Val::L(l) => l.iter().any(|v| v.has_a()),
        }
    }
    pub fn pair(a: Val, b: Val) -> Val {
        Val::L(vec![a, b])
    }
}
