//! Naive backtracking matcher for the patterns of `match`, `context` and the pass opcodes.

use super::Classes;
use crate::table::{Act, Cell, Pat, Quant, Test, cell_char};
use std::collections::BTreeSet;

pub type CharSet = BTreeSet<char>;

#[derive(Clone, Debug)]
pub enum Re {
    Empty,
    Never,
    Lit(char),
    /// a rule character (lower case) that matches either case
    Fold(char),
    /// as many characters, but other ones
    NotStr(Vec<char>),
    Any,
    In(CharSet),
    NotIn(CharSet),
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>),
    Cap(Box<Re>),
    Edge(bool),
    NotEdge(bool),
    Var(u8, &'static str, u8, bool),
}

pub fn fold(c: char) -> Option<char> {
    let mut l = c.to_lowercase();
    match (l.next(), l.next()) {
        (Some(l), None) => Some(l),
        _ => None,
    }
}

/// The variables of a stage; None was never set.
pub type Vars = [Option<u8>; 64];

pub struct M<'a> {
    pub text: &'a [char],
    pub vars: &'a Vars,
    pub fuel: usize,
    /// a variable was compared before it was set, where the outcome depends on its value
    pub unset: bool,
}

pub type Cap = Option<(usize, usize)>;

impl M<'_> {
    /// Calls `k` with the end and the capture of every match of `re` at `p`, in the order of
    /// preference, until it returns true.
    pub fn go(&mut self, re: &Re, p: usize, cap: Cap, k: &mut dyn FnMut(&mut Self, usize, Cap) -> bool) -> bool {
        if self.fuel == 0 {
            return false;
        }
        self.fuel -= 1;
        let here = self.text.get(p).copied();
        match re {
            Re::Empty => k(self, p, cap),
            Re::Never => false,
            Re::Lit(c) => here == Some(*c) && k(self, p + 1, cap),
            Re::Fold(c) => here.and_then(fold) == Some(*c) && k(self, p + 1, cap),
            Re::NotStr(s) => {
                let end = p + s.len();
                end <= self.text.len() && self.text[p..end] != s[..] && k(self, end, cap)
            }
            Re::Any => here.is_some() && k(self, p + 1, cap),
            Re::In(s) => here.is_some_and(|c| s.contains(&c)) && k(self, p + 1, cap),
            Re::NotIn(s) => here.is_some_and(|c| !s.contains(&c)) && k(self, p + 1, cap),
            Re::Seq(rs) => match rs.split_first() {
                None => k(self, p, cap),
                Some((first, rest)) => {
                    let rest = Re::Seq(rest.to_vec());
                    self.go(first, p, cap, &mut |m, q, c| m.go(&rest, q, c, k))
                }
            },
            Re::Alt(rs) => rs.iter().any(|r| self.go(r, p, cap, k)),
            Re::Rep(r, min, max) => {
                if *min > 0 {
                    let less = Re::Rep(r.clone(), min - 1, max.map(|m| m - 1));
                    return self.go(r, p, cap, &mut |m, q, c| m.go(&less, q, c, k));
                }
                if *max != Some(0) {
                    let less = Re::Rep(r.clone(), 0, max.map(|m| m - 1));
                    let more = self.go(r, p, cap, &mut |m, q, c| (q > p || max.is_some()) && m.go(&less, q, c, k));
                    if more {
                        return true;
                    }
                }
                k(self, p, cap)
            }
            Re::Cap(r) => self.go(r, p, cap, &mut |m, q, _| k(m, q, Some((p, q)))),
            Re::Edge(start) => self.at_edge(p, *start) && k(self, p, cap),
            Re::NotEdge(start) => !self.at_edge(p, *start) && k(self, p, cap),
            Re::Var(v, op, n, negated) => {
                let holds = |x: u8| {
                    let h = match *op {
                        "=" => x == *n,
                        "<" => x < *n,
                        ">" => x > *n,
                        "<=" => x <= *n,
                        ">=" => x >= *n,
                        _ => unreachable!(),
                    };
                    h != *negated
                };
                match self.vars[*v as usize] {
                    Some(x) => holds(x) && k(self, p, cap),
                    None => {
                        if holds(0) {
                            self.unset = true;
                        }
                        false
                    }
                }
            }
        }
    }
    fn at_edge(&self, p: usize, start: bool) -> bool {
        if start { p == 0 } else { p == self.text.len() }
    }
    /// The preferred match at `p`.
    pub fn first(&mut self, re: &Re, p: usize) -> Option<(usize, Cap)> {
        let mut found = None;
        self.go(re, p, None, &mut |_, q, c| {
            found = Some((q, c));
            true
        });
        found
    }
    /// The captures of all matches at `p`.
    pub fn all(&mut self, re: &Re, p: usize) -> BTreeSet<(usize, usize)> {
        let mut found = BTreeSet::new();
        self.go(re, p, None, &mut |_, _, c| {
            found.extend(c);
            false
        });
        found
    }
}

impl Re {
    fn nullable(&self) -> bool {
        match self {
            Re::Empty | Re::Edge(_) | Re::NotEdge(_) | Re::Var(..) => true,
            Re::Never | Re::Lit(_) | Re::Fold(_) | Re::Any | Re::In(_) | Re::NotIn(_) => false,
            Re::NotStr(s) => s.is_empty(),
            Re::Seq(rs) => rs.iter().all(|r| r.nullable()),
            Re::Alt(rs) => rs.iter().any(|r| r.nullable()),
            Re::Rep(r, min, _) => *min == 0 || r.nullable(),
            Re::Cap(r) => r.nullable(),
        }
    }
    /// Repeats something that may be empty without end. When such a repetition stops is a matter
    /// of how it is implemented.
    pub fn repeats_nothing(&self) -> bool {
        match self {
            Re::Rep(r, _, max) => (max.is_none() && r.nullable()) || r.repeats_nothing(),
            Re::Seq(rs) | Re::Alt(rs) => rs.iter().any(|r| r.repeats_nothing()),
            Re::Cap(r) => r.repeats_nothing(),
            _ => false,
        }
    }
}

/// The classes behind the letters of a `match` attribute.
fn pat_attr(c: char) -> String {
    match c {
        '_' => "space".into(),
        '#' => "digit".into(),
        'a' => "letter".into(),
        'u' => "uppercase".into(),
        'l' => "lowercase".into(),
        '.' => "punctuation".into(),
        '$' => "sign".into(),
        '~' => "seqdelimiter".into(),
        '<' => "seqbeforechars".into(),
        '>' => "seqafterchars".into(),
        c => c.to_string(),
    }
}
fn test_attr(c: char) -> &'static str {
    match c {
        'd' => "digit",
        'D' => super::LITDIGIT,
        'l' => "letter",
        'm' => super::MATH,
        'p' => "punctuation",
        's' => "space",
        'S' => "sign",
        'U' => "uppercase",
        'u' => "lowercase",
        c => unreachable!("attribute {c}"),
    }
}
fn union<S: AsRef<str>>(cls: &Classes, names: impl Iterator<Item = S>) -> CharSet {
    names.flat_map(|n| cls.get(n.as_ref()).cloned().unwrap_or_default()).collect()
}

pub fn of_pat(p: &Pat, pre: bool, cls: &Classes) -> Re {
    match p {
        Pat::Empty => Re::Empty,
        Pat::Str(s) => Re::Seq(s.chars().map(Re::Lit).collect()),
        Pat::Edge => Re::Edge(pre),
        Pat::Any => Re::Any,
        Pat::Set(cs) => Re::In(cs.iter().copied().collect()),
        Pat::Attr(a, edge) => {
            let set = Re::In(union(cls, a.chars().map(pat_attr)));
            if *edge { Re::Alt(vec![set, Re::Edge(pre)]) } else { set }
        }
        Pat::Not(p) => negate(of_pat(p, pre, cls)),
        Pat::Opt(p) => Re::Rep(Box::new(of_pat(p, pre, cls)), 0, Some(1)),
        Pat::Star(p) => Re::Rep(Box::new(of_pat(p, pre, cls)), 0, None),
        Pat::Plus(p) => Re::Rep(Box::new(of_pat(p, pre, cls)), 1, None),
        Pat::Alt(ps) => Re::Alt(ps.iter().map(|p| of_pat(p, pre, cls)).collect()),
        Pat::Seq(ps) => Re::Seq(ps.iter().map(|p| of_pat(p, pre, cls)).collect()),
        Pat::Group(p) => of_pat(p, pre, cls),
    }
}

/// Only what is negated in one way: characters, sets, edges, strings, and repetitions of them.
fn negate(re: Re) -> Re {
    match re {
        Re::Lit(c) => Re::NotStr(vec![c]),
        Re::NotStr(s) => Re::Seq(s.into_iter().map(Re::Lit).collect()),
        Re::Any | Re::Empty => Re::Never,
        Re::In(s) => Re::NotIn(s),
        Re::NotIn(s) => Re::In(s),
        Re::Edge(s) => Re::NotEdge(s),
        Re::NotEdge(s) => Re::Edge(s),
        Re::Rep(r, a, b) => Re::Rep(Box::new(negate(*r)), a, b),
        Re::Var(v, op, n, neg) => Re::Var(v, op, n, !neg),
        Re::Seq(rs) if rs.len() == 1 => negate(rs.into_iter().next().unwrap()),
        Re::Seq(rs) => Re::NotStr(
            rs.into_iter()
                .map(|r| match r {
                    Re::Lit(c) => c,
                    r => unreachable!("negated {r:?}"),
                })
                .collect(),
        ),
        r => unreachable!("negated {r:?}"),
    }
}

fn quant(r: Re, q: Quant) -> Re {
    match q {
        Quant::One => r,
        Quant::Exactly(n) => Re::Rep(Box::new(r), n, Some(n)),
        Quant::Range(a, b) => Re::Rep(Box::new(r), a, Some(b)),
        Quant::Many => Re::Rep(Box::new(r), 1, None),
    }
}

pub fn of_test(t: &Test, cls: &Classes) -> Re {
    match t {
        Test::Str(s) => Re::Seq(s.chars().map(Re::Lit).collect()),
        Test::Cells(c) => Re::Seq(c.iter().map(|c: &Cell| Re::Lit(cell_char(*c))).collect()),
        Test::Attrs(a, q) => quant(Re::In(union(cls, a.chars().map(test_attr))), *q),
        Test::Class(n, q) => quant(Re::In(union(cls, std::iter::once(n.as_str()))), *q),
        Test::Not(t) => negate(of_test(t, cls)),
        Test::Bracket(ts) => Re::Cap(Box::new(Re::Seq(ts.iter().map(|t| of_test(t, cls)).collect()))),
        Test::Start => Re::Edge(true),
        Test::End => Re::Edge(false),
        Test::Back(_) => Re::Empty,
        Test::Var(v, op, n) => Re::Var(*v, op, *n, false),
    }
}

pub fn of_tests(ts: &[Test], cls: &Classes) -> Re {
    let seq = Re::Seq(ts.iter().map(|t| of_test(t, cls)).collect());
    if ts.iter().any(|t| matches!(t, Test::Bracket(_))) { seq } else { Re::Cap(Box::new(seq)) }
}

/// What an action makes of the captured text.
pub fn act(acts: &[Act], captured: &str, swaps: &std::collections::HashMap<String, std::collections::HashMap<char, String>>) -> String {
    let mut o = String::new();
    for a in acts {
        match a {
            Act::Str(s) => o.push_str(s),
            Act::Cells(c) => o.extend(c.iter().map(|c| cell_char(*c))),
            Act::Copy => o.push_str(captured),
            Act::Swap(n) => {
                for c in captured.chars() {
                    match swaps[n].get(&c) {
                        Some(s) => o.push_str(s),
                        None => o.push(c),
                    }
                }
            }
            Act::Drop | Act::Set(..) | Act::Inc(_) | Act::Dec(_) => {}
        }
    }
    o
}
