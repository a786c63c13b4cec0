//! Braille tables as abstract syntax, and how they are written.

use crate::engine::Src;

/// A braille cell: bit n is dot n+1, dots 9 and a to f are the virtual dots.
pub type Cell = u16;

pub fn cell_char(c: Cell) -> char {
    let base = if c & !0xff != 0 { 0xF0000 } else { 0x2800 };
    char::from_u32(base + c as u32).unwrap()
}
pub fn cells_str(cells: &[Cell]) -> String {
    cells.iter().map(|c| cell_char(*c)).collect()
}
pub fn dots(c: Cell) -> String {
    if c == 0 {
        return "0".into();
    }
    (0..15).filter(|b| c >> b & 1 == 1).map(|b| "123456789abcdef".as_bytes()[b] as char).collect()
}
pub fn dots_seq(cells: &[Cell]) -> String {
    cells.iter().map(|c| dots(*c)).collect::<Vec<_>>().join("-")
}
/// Cell from a dots string, for readable constants.
pub fn cell(s: &str) -> Cell {
    let mut c = 0;
    for d in s.chars() {
        if d != '0' {
            c |= 1 << (d.to_digit(16).unwrap() - 1);
        }
    }
    c
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dir {
    Both,
    NoFor,
    NoBack,
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Rule {
    pub dir: Dir,
    pub nocross: bool,
    /// (true for `before`, class)
    pub with: Vec<(bool, String)>,
    pub op: Op,
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Op {
    /// space punctuation digit litdigit letter lowercase uppercase sign math hyphen decpoint display
    Def { kind: &'static str, c: char, cells: Vec<Cell> },
    Base { class: String, derived: char, base: char },
    /// always word ... comp6 prepunc postpunc begnum midnum endnum; None = implicit
    Text { kind: &'static str, text: String, cells: Option<Vec<Cell>> },
    /// undefined numsign nonumsign capsletter ... letsign nocontractsign begcomp endcomp
    Sign { kind: &'static str, cells: Vec<Cell> },
    /// capsmodechars noletsign... numericnocontchars numericmodechars seq* compbrl contraction
    Chars { kind: &'static str, chars: String },
    /// lencapsphrase
    Num { kind: &'static str, n: usize },
    /// endcapsphrase
    EndCapsPhrase { before: bool, cells: Vec<Cell> },
    Emphclass(String),
    /// emphletter begemphword endemphword begemphphrase begemph endemph
    Emph { kind: &'static str, class: String, cells: Vec<Cell> },
    EndEmphPhrase { class: String, before: bool, cells: Vec<Cell> },
    /// emphmodechars noemphchars
    EmphChars { kind: &'static str, class: String, chars: String },
    EmphLen { class: String, n: usize },
    Attribute { name: String, chars: String },
    Match { pre: Pat, text: String, post: Pat, cells: Option<Vec<Cell>> },
    /// context correct pass2 pass3 pass4
    Multi { kind: &'static str, test: Vec<Test>, action: Vec<Act> },
    Swapcc { name: String, from: String, to: String },
    Swapcd { name: String, from: String, to: Vec<Vec<Cell>> },
    Swapdd { name: String, from: Vec<Cell>, to: Vec<Vec<Cell>> },
    Raw(String),
}

/// Patterns of `match` rules.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Pat {
    /// `-`
    Empty,
    Str(String),
    /// `^` or `$`
    Edge,
    Any,
    Set(Vec<char>),
    /// the letters of the attributes, and whether the edge is among them
    Attr(String, bool),
    Not(Box<Pat>),
    Opt(Box<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    Alt(Vec<Pat>),
    Seq(Vec<Pat>),
    Group(Box<Pat>),
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Quant {
    One,
    Exactly(usize),
    Range(usize, usize),
    Many,
}

/// Tests of `context`, `correct` and the pass opcodes.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Test {
    Str(String),
    Cells(Vec<Cell>),
    Attrs(String, Quant),
    Class(String, Quant),
    Not(Box<Test>),
    Bracket(Vec<Test>),
    Start,
    End,
    Var(u8, &'static str, u8),
    /// what stands before the brackets is looked at where it is, with or without it
    Back(usize),
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Act {
    Str(String),
    Cells(Vec<Cell>),
    Copy,
    Drop,
    Swap(String),
    Set(u8, u8),
    Inc(u8),
    Dec(u8),
}

pub fn r(op: Op) -> Rule {
    Rule { dir: Dir::Both, nocross: false, with: vec![], op }
}
impl Rule {
    pub fn noback(mut self) -> Self {
        self.dir = Dir::NoBack;
        self
    }
    pub fn nofor(mut self) -> Self {
        self.dir = Dir::NoFor;
        self
    }
}
pub fn def(kind: &'static str, c: char, cells: Vec<Cell>) -> Rule {
    r(Op::Def { kind, c, cells })
}
pub fn text(kind: &'static str, t: &str, cells: Vec<Cell>) -> Rule {
    r(Op::Text { kind, text: t.into(), cells: Some(cells) })
}
pub fn sign(kind: &'static str, cells: Vec<Cell>) -> Rule {
    r(Op::Sign { kind, cells })
}
pub fn chars(kind: &'static str, c: &str) -> Rule {
    r(Op::Chars { kind, chars: c.into() })
}
pub fn attribute(name: &str, c: &str) -> Rule {
    r(Op::Attribute { name: name.into(), chars: c.into() })
}

// ------------------------------------------------------------------ rendering

/// How the operands are written; the plain style is the canonical one.
pub struct Style<'a> {
    /// source of spelling choices, None = canonical
    pub src: Option<&'a mut Src>,
}

impl Style<'_> {
    pub fn plain() -> Style<'static> {
        Style { src: None }
    }
    fn pick(&mut self, n: usize) -> usize {
        match &mut self.src {
            Some(s) => s.below(n),
            None => 0,
        }
    }
    /// A character of a character operand.
    fn ch(&mut self, c: char, out: &mut String) {
        let must = match c {
            ' ' => Some("\\s"),
            '\t' => Some("\\t"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\u{c}' => Some("\\f"),
            '\u{b}' => Some("\\v"),
            '\u{1b}' => Some("\\e"),
            '\\' => Some("\\\\"),
            _ => None,
        };
        let k = self.pick(6);
        if let Some(m) = must {
            if k == 5 {
                out.push_str(&format!("\\x{:04x}", c as u32));
            } else {
                out.push_str(m);
            }
        } else if (c as u32) > 0xffff {
            match k {
                3 => {
                    let mut b = [0; 2];
                    for u in c.encode_utf16(&mut b) {
                        out.push_str(&format!("\\x{:04x}", u));
                    }
                }
                _ if (c as u32) > 0xfffff => out.push(c),
                4 => out.push_str(&format!("\\y{:05x}", c as u32)),
                5 => out.push_str(&format!("\\y{:05X}", c as u32)),
                _ => out.push(c),
            }
        } else {
            match k {
                3 => out.push_str(&format!("\\y{:05x}", c as u32)),
                4 => out.push_str(&format!("\\x{:04x}", c as u32)),
                5 => out.push_str(&format!("\\x{:04X}", c as u32)),
                _ => out.push(c),
            }
        }
    }
    pub fn operand(&mut self, s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            self.ch(c, &mut o);
        }
        // a lone backslash-free operand that would read as something else is the
        // caller's business
        o
    }
    pub fn cells(&mut self, cells: &[Cell]) -> String {
        cells.iter().map(|c| self.cell(*c)).collect::<Vec<_>>().join("-")
    }
    pub fn cell(&mut self, c: Cell) -> String {
        let mut d: Vec<char> = dots(c).chars().collect();
        if let Some(s) = &mut self.src {
            if s.chance(1, 2) {
                s.shuffle(&mut d);
            }
        }
        d.into_iter().collect()
    }
    fn quoted(&mut self, s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            let k = self.pick(5);
            match c {
                ' ' => o.push_str(if k == 4 { "\\x0020" } else { "\\s" }),
                '"' => o.push_str(if k == 4 { "\\x0022" } else { "\\\"" }),
                '\\' => o.push_str("\\x005c"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\x{:04x}", c as u32)),
                c if (c as u32) > 0xffff => {
                    if k == 4 && (c as u32) <= 0xfffff {
                        o.push_str(&format!("\\y{:05x}", c as u32))
                    } else {
                        o.push(c)
                    }
                }
                c => match k {
                    3 => o.push_str(&format!("\\y{:05x}", c as u32)),
                    4 => o.push_str(&format!("\\x{:04x}", c as u32)),
                    _ => o.push(c),
                },
            }
        }
        o.push('"');
        o
    }
    /// The members of a set in another order.
    fn turned(&mut self, members: &str) -> String {
        let c: Vec<char> = members.chars().collect();
        let at = self.pick(c.len().max(1));
        let mut o: String = c[at..].iter().chain(&c[..at]).collect();
        if !c.is_empty() && self.pick(8) == 7 {
            o.push(c[0]);
        }
        o
    }
    fn quant(&mut self, q: Quant) -> String {
        match q {
            Quant::One if self.pick(6) == 5 => "1".into(),
            Quant::One => String::new(),
            Quant::Exactly(n) => n.to_string(),
            Quant::Range(a, b) => format!("{a}-{b}"),
            Quant::Many => ".".into(),
        }
    }
    fn test(&mut self, t: &Test) -> String {
        match t {
            Test::Str(s) => self.quoted(s),
            Test::Cells(c) => format!("@{}", self.cells(c)),
            Test::Attrs(a, q) => format!("${}{}", self.turned(a), self.quant(*q)),
            Test::Class(n, q) => format!("%{n}{}", self.quant(*q)),
            Test::Not(t) => format!("!{}", self.test(t)),
            Test::Bracket(ts) => format!("[{}]", self.tests(ts)),
            Test::Start => "`".into(),
            Test::End => "~".into(),
            Test::Back(1) if self.pick(2) == 0 => "_".into(),
            Test::Back(n) => format!("_{n}"),
            Test::Var(v, op, n) => format!("#{v}{op}{n}"),
        }
    }
    pub fn tests(&mut self, ts: &[Test]) -> String {
        ts.iter().map(|t| self.test(t)).collect()
    }
    pub fn acts(&mut self, acts: &[Act]) -> String {
        acts.iter()
            .map(|a| match a {
                Act::Str(s) => self.quoted(s),
                Act::Cells(c) => format!("@{}", self.cells(c)),
                Act::Copy => "*".into(),
                Act::Drop => "?".into(),
                Act::Swap(n) => format!("%{n}"),
                Act::Set(v, n) => format!("#{v}={n}"),
                Act::Inc(v) => format!("#{v}+"),
                Act::Dec(v) => format!("#{v}-"),
            })
            .collect()
    }
    /// `pre`: which side the pattern is on.
    pub fn pat(&mut self, p: &Pat, pre: bool) -> String {
        match p {
            Pat::Empty => "-".into(),
            Pat::Str(s) => s.replace(' ', "\\s"),
            Pat::Edge => (if (self.pick(2) == 0) == pre { "^" } else { "$" }).into(),
            Pat::Any => ".".into(),
            Pat::Set(cs) => {
                let mut o = String::from("[");
                for c in self.turned(&cs.iter().collect::<String>()).chars() {
                    match c {
                        ' ' => o.push_str("\\s"),
                        ']' | '(' | ')' => {
                            o.push('\\');
                            o.push(c)
                        }
                        c => o.push(c),
                    }
                }
                o.push(']');
                o
            }
            Pat::Attr(a, edge) => {
                if a.chars().count() == 1 && !edge && self.pick(3) != 2 {
                    format!("%{a}")
                } else {
                    let a = a.clone() + if *edge { "^" } else { "" };
                    format!("%[{}]", self.turned(&a))
                }
            }
            Pat::Not(p) => format!("!{}", self.pat(p, pre)),
            Pat::Opt(p) => format!("{}?", self.pat(p, pre)),
            Pat::Star(p) => format!("{}*", self.pat(p, pre)),
            Pat::Plus(p) => format!("{}+", self.pat(p, pre)),
            Pat::Alt(ps) => ps.iter().map(|p| self.pat(p, pre)).collect::<Vec<_>>().join("|"),
            Pat::Seq(ps) => ps.iter().map(|p| self.pat(p, pre)).collect(),
            Pat::Group(p) => format!("({})", self.pat(p, pre)),
        }
    }

    /// The tokens of a rule.
    pub fn tokens(&mut self, rule: &Rule) -> Vec<String> {
        let mut t: Vec<String> = vec![];
        match rule.dir {
            Dir::Both => {}
            Dir::NoFor => t.push("nofor".into()),
            Dir::NoBack => t.push("noback".into()),
        }
        if rule.nocross {
            t.push("nocross".into());
        }
        for (before, class) in &rule.with {
            t.push((if *before { "before" } else { "after" }).into());
            t.push(class.clone());
        }
        let posn = |b: &bool| (if *b { "before" } else { "after" }).to_string();
        match &rule.op {
            Op::Def { kind, c, cells } => {
                t.push(kind.to_string());
                t.push(self.operand(&c.to_string()));
                t.push(self.cells(cells));
            }
            Op::Base { class, derived, base } => {
                t.push("base".into());
                t.push(class.clone());
                t.push(self.operand(&derived.to_string()));
                t.push(self.operand(&base.to_string()));
            }
            Op::Text { kind, text, cells } => {
                t.push(kind.to_string());
                t.push(self.operand(text));
                t.push(match cells {
                    Some(c) => self.cells(c),
                    None => "=".into(),
                });
            }
            Op::Sign { kind, cells } => {
                t.push(kind.to_string());
                t.push(self.cells(cells));
            }
            Op::Chars { kind, chars } => {
                t.push(kind.to_string());
                t.push(self.operand(chars));
            }
            Op::Num { kind, n } => {
                t.push(kind.to_string());
                t.push(n.to_string());
            }
            Op::EndCapsPhrase { before, cells } => {
                t.push("endcapsphrase".into());
                t.push(posn(before));
                t.push(self.cells(cells));
            }
            Op::Emphclass(n) => {
                t.push("emphclass".into());
                t.push(n.clone());
            }
            Op::Emph { kind, class, cells } => {
                t.push(kind.to_string());
                t.push(class.clone());
                t.push(self.cells(cells));
            }
            Op::EndEmphPhrase { class, before, cells } => {
                t.push("endemphphrase".into());
                t.push(class.clone());
                t.push(posn(before));
                t.push(self.cells(cells));
            }
            Op::EmphChars { kind, class, chars } => {
                t.push(kind.to_string());
                t.push(class.clone());
                t.push(self.operand(chars));
            }
            Op::EmphLen { class, n } => {
                t.push("lenemphphrase".into());
                t.push(class.clone());
                t.push(n.to_string());
            }
            Op::Attribute { name, chars } => {
                t.push("attribute".into());
                t.push(name.clone());
                t.push(self.operand(chars));
            }
            Op::Match { pre, text, post, cells } => {
                t.push("match".into());
                t.push(self.pat(pre, true));
                t.push(self.operand(text));
                t.push(self.pat(post, false));
                t.push(match cells {
                    Some(c) => self.cells(c),
                    None => "=".into(),
                });
            }
            Op::Multi { kind, test, action } => {
                t.push(kind.to_string());
                t.push(self.tests(test));
                t.push(self.acts(action));
            }
            Op::Swapcc { name, from, to } => {
                t.push("swapcc".into());
                t.push(name.clone());
                t.push(self.operand(from));
                t.push(self.operand(to));
            }
            Op::Swapcd { name, from, to } => {
                t.push("swapcd".into());
                t.push(name.clone());
                t.push(self.operand(from));
                t.push(to.iter().map(|c| self.cells(c)).collect::<Vec<_>>().join(","));
            }
            Op::Swapdd { name, from, to } => {
                t.push("swapdd".into());
                t.push(name.clone());
                t.push(from.iter().map(|c| self.cell(*c)).collect::<Vec<_>>().join(","));
                t.push(to.iter().map(|c| self.cells(c)).collect::<Vec<_>>().join(","));
            }
            Op::Raw(s) => t.push(s.clone()),
        }
        t
    }
}

impl std::fmt::Display for Rule {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&Style::plain().tokens(self).join(" "))
    }
}

/// The table as text, one rule per line.
pub fn render(rules: &[Rule]) -> String {
    let mut s = String::new();
    for r in rules {
        s.push_str(&r.to_string());
        s.push('\n');
    }
    s
}

/// The rules that apply in a direction.
pub fn in_direction(rules: &[Rule], forward: bool) -> Vec<Rule> {
    let drop = if forward { Dir::NoFor } else { Dir::NoBack };
    rules.iter().filter(|r| r.dir != drop).cloned().collect()
}

// renaming characters

/// Other names for characters: small letters with their capitals, digits, punctuation, blanks.
pub type Renaming = Vec<(char, char)>;

pub fn renamed(map: &Renaming, t: &str) -> String {
    t.chars().map(|c| new_name(map, c)).collect()
}
fn new_name(map: &Renaming, c: char) -> char {
    map.iter().find(|m| m.0 == c).map_or(c, |m| m.1)
}
fn rename_pat(m: &Renaming, p: &mut Pat) {
    match p {
        Pat::Str(s) => *s = renamed(m, s),
        Pat::Set(cs) => cs.iter_mut().for_each(|c| *c = new_name(m, *c)),
        Pat::Not(p) | Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) | Pat::Group(p) => rename_pat(m, p),
        Pat::Alt(ps) | Pat::Seq(ps) => ps.iter_mut().for_each(|p| rename_pat(m, p)),
        Pat::Empty | Pat::Edge | Pat::Any | Pat::Attr(..) => {}
    }
}
fn rename_test(m: &Renaming, t: &mut Test) {
    match t {
        Test::Str(s) => *s = renamed(m, s),
        Test::Not(t) => rename_test(m, t),
        Test::Bracket(ts) => ts.iter_mut().for_each(|t| rename_test(m, t)),
        _ => {}
    }
}
pub fn rename(m: &Renaming, rules: &mut [Rule]) {
    for r in rules {
        match &mut r.op {
            Op::Def { c, .. } => *c = new_name(m, *c),
            Op::Base { derived, base, .. } => {
                *derived = new_name(m, *derived);
                *base = new_name(m, *base);
            }
            Op::Text { text, .. } => *text = renamed(m, text),
            Op::Chars { chars, .. } | Op::EmphChars { chars, .. } | Op::Attribute { chars, .. } => *chars = renamed(m, chars),
            Op::Match { pre, text, post, .. } => {
                rename_pat(m, pre);
                *text = renamed(m, text);
                rename_pat(m, post);
            }
            Op::Multi { test, action, .. } => {
                test.iter_mut().for_each(|t| rename_test(m, t));
                for a in action {
                    if let Act::Str(s) = a {
                        *s = renamed(m, s);
                    }
                }
            }
            Op::Swapcc { from, to, .. } => {
                *from = renamed(m, from);
                *to = renamed(m, to);
            }
            Op::Swapcd { from, .. } => *from = renamed(m, from),
            _ => {}
        }
    }
}
