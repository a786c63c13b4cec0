//! Generators of tables and texts.

use crate::engine::Src;
use crate::sut::Span;
use crate::table::*;

pub const LOWER: &str = "abcdex";
pub const UPPER: &str = "ABCDEX";
pub const DIGITS: &str = "123";
pub const PUNCT: &str = ".,(-";
/// never defined; the last ones have no lower case of one character, or none at all
pub const STRANGE: &str = "@éßİ🐂\u{301}";

/// The predefined character classes
pub const CLASSES: [&str; 9] = ["letter", "space", "digit", "litdigit", "uppercase", "lowercase", "punctuation", "sign", "math"];
/// The kinds of contractions
pub const CONTRACTIONS: &[&str] = &[
    "always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword",
    "joinword", "lowword", "begnum", "midnum", "endnum", "largesign", "syllable",
];
const CLASSED: &[&str] = &[
    "always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword",
];
const EXPLICIT: &[&str] = &["joinword", "lowword", "begnum", "midnum", "largesign", "prepunc", "postpunc"];

pub struct Gen<'a> {
    pub s: &'a mut Src,
    next: Cell,
    pub rules: Vec<Rule>,
    /// texts that the rules are about
    pub words: Vec<String>,
    /// contractions that are much longer than those of any language, too
    pub long: bool,
    pub classes: Vec<String>,
    pub emph: Vec<String>,
    /// the cells in use
    pub used: Vec<Cell>,
    pub spaces: String,
}

/// The contractions that take the prefix `nocross`.
const NOCROSS: &[&str] =
    &["always", "sufword", "prfword", "begword", "begmidword", "midword", "midendword", "endword", "partword", "begnum", "midnum", "endnum"];

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src) -> Self {
        Gen { s, next: 0, rules: vec![], words: vec![], classes: vec![], emph: vec![], used: vec![], spaces: " ".into(), long: false }
    }
    /// A cell that nothing else in the table uses (as long as there are any left).
    pub fn cell(&mut self) -> Cell {
        self.next += 1;
        if self.next > 0x7fff {
            self.next = 1;
        }
        // after the cells with eight dots come the virtual ones
        let c = self.next;
        self.used.push(c);
        c
    }
    /// Goes on with cells that stand for nothing else, not even in the spelling of undefined characters.
    pub fn fresh(&mut self) {
        self.next = 0x6000;
    }
    pub fn cells(&mut self) -> Vec<Cell> {
        if self.s.chance(1, 5) { vec![self.cell(), self.cell()] } else { vec![self.cell()] }
    }
    pub fn push(&mut self, op: Op) {
        self.rules.push(r(op));
    }
    pub fn define(&mut self, kind: &'static str, c: char) {
        let cells = self.cells();
        self.push(Op::Def { kind, c, cells });
    }

    /// Definitions of the characters; some may be missing.
    pub fn base(&mut self) {
        if self.next == 0 && self.s.chance(1, 6) {
            // the definitions have virtual dots too
            self.next = 1 << self.s.range(8, 14);
        }
        let spaces = if self.s.chance(1, 6) { " \u{a0}" } else { " " };
        self.spaces = spaces.into();
        for c in spaces.chars() {
            if !self.s.chance(1, 40) {
                self.define("space", c);
            }
        }
        let style = self.s.below(3);
        for (l, u) in LOWER.chars().zip(UPPER.chars()) {
            if self.s.chance(1, 30) {
                continue;
            }
            match style {
                0 => {
                    self.define("lowercase", l);
                    self.define("uppercase", u);
                }
                1 => {
                    self.define("lowercase", l);
                    self.push(Op::Base { class: "uppercase".into(), derived: u, base: l });
                }
                _ => {
                    self.define("letter", l);
                    if !self.s.chance(1, 4) {
                        self.push(Op::Base { class: "uppercase".into(), derived: u, base: l });
                    } else {
                        self.define("uppercase", u);
                    }
                }
            }
        }
        let style = self.s.below(3);
        for c in DIGITS.chars() {
            if style != 1 {
                self.define("digit", c);
            }
            if style != 2 {
                self.define("litdigit", c);
            }
        }
        for c in PUNCT.chars() {
            let kind = match (c, self.s.below(5)) {
                ('-', 1) => "hyphen",
                ('.' | ',', 1) => "decpoint",
                (_, 2) => continue,
                _ => "punctuation",
            };
            self.define(kind, c);
        }
        self.define("sign", '+');
        self.define("math", '=');
        if self.s.chance(1, 5) {
            // a second definition of a character
            let c = self.s.ch("a1A.+");
            let kind = *self.s.pick(&["letter", "sign", "punctuation", "digit", "litdigit", "math", "lowercase", "hyphen", "decpoint"]);
            self.define(kind, c);
        }
        if self.s.chance(1, 5) {
            // a character that is derived from one of another class
            let class = *self.s.pick(&["letter", "sign", "punctuation", "digit", "litdigit", "math", "lowercase", "uppercase", "vow"]);
            let derived = self.s.ch("é:'=;Éa1A");
            let base = self.s.ch("abA1.+é");
            self.push(Op::Base { class: class.into(), derived, base });
        }
        if self.s.chance(1, 3) {
            let cells = self.cells();
            self.push(Op::Sign { kind: "undefined", cells });
        }
    }
    pub fn attributes(&mut self) {
        for name in ["vow", "mix", "1", "Vow", "DIGIT"] {
            if self.s.chance(1, if name.chars().any(|c| c.is_uppercase()) { 8 } else { 2 }) {
                let chars = self.s.string("abcAx1. ", 1, 3);
                self.rules.push(attribute(name, &chars));
                self.classes.push(name.into());
            }
        }
        if self.s.chance(1, 8) {
            // more members for a predefined class (only blanks belong to "space")
            let name = *self.s.pick(&CLASSES);
            let name = if name == "space" { "math" } else { name };
            let chars = self.s.string("abcAx1.+=", 1, 2);
            self.rules.push(attribute(name, &chars));
        }
    }

    pub fn word(&mut self, alphabet: &str, lo: usize, hi: usize) -> String {
        // often an extension or a part of a text that is there already
        let w = if !self.words.is_empty() && self.s.chance(1, 3) {
            let w = self.s.pick(&self.words).clone();
            match self.s.below(3) {
                0 => w + &self.s.string(alphabet, 1, 1),
                1 => self.s.string(alphabet, 1, 1) + &w,
                _ => w,
            }
        } else {
            self.s.string(alphabet, lo, hi)
        };
        self.words.push(w.clone());
        w
    }

    pub fn with(&mut self) -> Vec<(bool, String)> {
        let mut with = vec![];
        let n = self.s.weighted(&[6, 2, 1]);
        for _ in 0..n {
            let name = match self.s.below(4) {
                0 if !self.classes.is_empty() => self.s.pick(&self.classes).clone(),
                1 => "none".into(),
                _ => self.s.pick(&CLASSES).to_string(),
            };
            with.push((self.s.bool(), name));
        }
        with
    }

    /// Makes the last rule, a contraction, one that must not cross a hyphenation point, where
    /// its kind can be.
    pub fn nocross(&mut self) {
        let r = self.rules.last_mut().unwrap();
        if let Op::Text { kind, .. } = &r.op {
            r.nocross = NOCROSS.contains(kind);
        }
    }
    pub fn contraction(&mut self) {
        let kind = *self.s.pick(CONTRACTIONS);
        let alphabet = match self.s.below(8) {
            0 => "abc.",
            1 => "abc(-,",
            2 => "ab 1",
            3 => "1.2",
            _ => "abc",
        };
        let mut text = self.word(alphabet, 1, 4);
        if self.long && self.s.chance(1, 6) {
            // much longer than those of any language
            let n = self.s.range(20, 80);
            text = text.chars().cycle().take(n).collect();
            self.words.push(text.clone());
            if self.s.bool() {
                let cells = Some(self.cells());
                self.rules.push(Rule { dir: Dir::Both, nocross: false, with: vec![], op: Op::Text { kind: "always", text: text.clone(), cells } });
                text.push(self.s.ch(alphabet));
                self.words.push(text.clone());
            }
        }
        let cells = if !EXPLICIT.contains(&kind) && self.s.chance(1, 8) { None } else { Some(self.cells()) };
        let with = if CLASSED.contains(&kind) { self.with() } else { vec![] };
        self.rules.push(Rule { dir: Dir::Both, nocross: false, with, op: Op::Text { kind, text, cells } });
    }

    pub fn numbers(&mut self) {
        for kind in ["numsign", "nonumsign"] {
            if !self.s.chance(1, 4) {
                let cells = self.cells();
                self.push(Op::Sign { kind, cells });
            }
        }
        for kind in ["numericnocontchars", "numericmodechars"] {
            for _ in 0..self.s.weighted(&[4, 3, 1]) {
                let chars = self.s.string("abcA. -", 1, 4);
                self.rules.push(crate::table::chars(kind, &chars));
            }
        }
        for _ in 0..self.s.weighted(&[3, 2, 1]) {
            let text = self.s.string(".,-a:", 1, 2);
            let cells = Some(self.cells());
            self.push(Op::Text { kind: "midnum", text, cells });
        }
        self.words.push(self.s.string(DIGITS, 1, 3));
        self.words.push(self.s.string("12.,-a", 2, 4));
    }

    pub fn capitals(&mut self) {
        for kind in ["capsletter", "begcapsword", "endcapsword", "begcaps", "endcaps", "begcapsphrase"] {
            if self.s.bool() {
                let mut cells = self.cells();
                if kind == "endcapsword" && self.s.chance(1, 6) {
                    // it may begin like something else
                    let mut known: Vec<Vec<Cell>> = self.rules.iter().filter_map(|r| cells_of(&r.op).cloned()).collect();
                    known.retain(|c| c.len() == 1);
                    if !known.is_empty() {
                        cells.insert(0, self.s.pick(&known)[0]);
                    }
                }
                self.push(Op::Sign { kind, cells });
            }
        }
        if self.s.chance(1, 2) {
            let (before, cells) = (self.s.bool(), self.cells());
            self.push(Op::EndCapsPhrase { before, cells });
        }
        if self.s.chance(1, 2) {
            let n = self.s.range(1, 4);
            self.push(Op::Num { kind: "lencapsphrase", n });
        }
        for _ in 0..self.s.weighted(&[3, 2, 1]) {
            let c = self.s.string("-.'1", 1, 2);
            self.rules.push(chars("capsmodechars", &c));
        }
    }

    pub fn emphasis(&mut self) {
        let n = self.s.range(1, 3);
        for (i, name) in ["bold", "italic", "script"].iter().enumerate() {
            if i >= n {
                break;
            }
            self.emph.push(name.to_string());
            if !self.s.chance(1, 6) {
                self.push(Op::Emphclass(name.to_string()));
            }
        }
        let at = self.rules.len();
        for name in self.emph.clone() {
            let general = self.s.chance(1, 3);
            for kind in ["emphletter", "begemphword", "endemphword", "begemphphrase", "begemph", "endemph"] {
                let skip = match kind {
                    "begemph" => !general,
                    _ => self.s.chance(1, 3),
                };
                if !skip {
                    let cells = self.cells();
                    self.push(Op::Emph { kind, class: name.clone(), cells });
                }
            }
            if self.s.chance(1, 2) {
                let (before, cells) = (self.s.bool(), self.cells());
                self.push(Op::EndEmphPhrase { class: name.clone(), before, cells });
            }
            if self.s.chance(1, 2) {
                let n = self.s.range(1, 4);
                self.push(Op::EmphLen { class: name.clone(), n });
            }
            for kind in ["emphmodechars", "noemphchars"] {
                if self.s.chance(1, 4) {
                    let chars = self.s.string(" -.a", 1, 2);
                    self.push(Op::EmphChars { kind, class: name.clone(), chars });
                }
            }
        }
        if self.s.chance(1, 4) {
            let tail = &mut self.rules[at..];
            self.s.shuffle(tail);
        }
    }

    pub fn computer_braille(&mut self) {
        for kind in ["begcomp", "endcomp"] {
            if !self.s.chance(1, 5) {
                let cells = self.cells();
                self.push(Op::Sign { kind, cells });
            }
        }
        for _ in 0..self.s.range(0, 4) {
            let text = self.word("abc1.@", 1, 3);
            let cells = if self.s.chance(1, 8) { None } else { Some(self.cells()) };
            self.push(Op::Text { kind: "comp6", text, cells });
        }
        for _ in 0..self.s.range(0, 2) {
            let t = self.word("abA.@1", 1, 3);
            self.rules.push(chars("compbrl", &t));
        }
    }

    pub fn letter_signs(&mut self) {
        for kind in ["letsign", "nocontractsign"] {
            if !self.s.chance(1, 4) {
                let cells = self.cells();
                self.push(Op::Sign { kind, cells });
            }
        }
        for kind in ["noletsign", "noletsignafter", "noletsignbefore"] {
            for _ in 0..self.s.weighted(&[3, 2, 1]) {
                let c = self.s.string("abA.-( 1", 1, 2);
                self.rules.push(chars(kind, &c));
            }
        }
        for _ in 0..self.s.range(0, 3) {
            let t = self.word("abc", 1, 3);
            self.rules.push(chars("contraction", &t));
        }
    }

    // patterns of match rules

    fn pat_atom(&mut self) -> Pat {
        match self.s.below(6) {
            0 => Pat::Str(self.s.string("abc1-", 1, 1)),
            1 => Pat::Any,
            2 => {
                let n = self.s.range(1, 3);
                Pat::Set((0..n).map(|_| self.s.ch("abcA1 .(-")).collect())
            }
            3 => {
                let n = self.s.range(1, 2);
                let a: String = (0..n).map(|_| self.s.ch("a_#ul.$1")).collect();
                Pat::Attr(a, self.s.chance(1, 4))
            }
            4 => Pat::Str(self.s.string("abcA-", 1, 3)),
            _ => Pat::Edge,
        }
    }
    /// One item; never two runs of characters next to each other (they would be read as one).
    fn pat_item(&mut self, depth: usize) -> Pat {
        let p = match self.s.below(8) {
            0 if depth > 0 => Pat::Group(Box::new(self.pat(depth - 1))),
            1 if depth > 0 => {
                let n = self.s.range(2, 3);
                Pat::Group(Box::new(Pat::Alt((0..n).map(|_| self.pat_seq(depth - 1)).collect())))
            }
            2 => {
                let a = self.pat_atom();
                match a {
                    Pat::Attr(a, true) => Pat::Not(Box::new(Pat::Attr(a, false))),
                    a => Pat::Not(Box::new(a)),
                }
            }
            _ => self.pat_atom(),
        };
        let quantifiable = !matches!(p, Pat::Edge | Pat::Not(_)) && !matches!(&p, Pat::Str(s) if s.chars().count() > 1);
        match self.s.below(8) {
            0 if quantifiable => Pat::Opt(Box::new(p)),
            1 if quantifiable => Pat::Star(Box::new(p)),
            2 if quantifiable => Pat::Plus(Box::new(p)),
            _ => p,
        }
    }
    fn pat_seq(&mut self, depth: usize) -> Pat {
        let n = self.s.weighted(&[0, 6, 3, 1]);
        let mut items: Vec<Pat> = vec![];
        for _ in 0..n {
            let p = self.pat_item(depth);
            let p = if ends_in_str(items.last()) && starts_with_str(&p) { Pat::Group(Box::new(p)) } else { p };
            items.push(p);
        }
        if items.len() == 1 { items.pop().unwrap() } else { Pat::Seq(items) }
    }
    pub fn pat(&mut self, depth: usize) -> Pat {
        if self.s.chance(1, 6) {
            let n = self.s.range(2, 3);
            Pat::Alt((0..n).map(|_| self.pat_seq(depth)).collect())
        } else {
            self.pat_seq(depth)
        }
    }
    /// A pattern of many items
    fn long_pat(&mut self) -> Pat {
        let n = self.s.range(20, 90);
        match self.s.below(3) {
            0 => Pat::Str((0..n).map(|_| self.s.ch("abc")).collect()),
            1 => {
                let c = self.s.string("abc", 1, 2);
                let items = (0..n / 2).map(|_| Pat::Opt(Box::new(Pat::Group(Box::new(Pat::Str(c.clone())))))).collect();
                Pat::Seq(items)
            }
            _ => {
                let c = self.s.string("abc", 1, 2);
                Pat::Alt((1..n / 4 + 2).rev().map(|k| Pat::Str(c.repeat(k))).collect())
            }
        }
    }
    pub fn match_rule(&mut self) {
        let mut pre = if self.s.chance(1, 3) { Pat::Empty } else { self.pat(1) };
        let mut post = if self.s.chance(1, 3) { Pat::Empty } else { self.pat(1) };
        if self.s.chance(1, 16) {
            let long = self.long_pat();
            let (p, n) = if self.s.bool() { (&mut pre, 0) } else { (&mut post, self.s.below(2)) };
            if *p == Pat::Empty {
                *p = Pat::Opt(Box::new(Pat::Group(Box::new(long))));
            } else {
                let p0 = Pat::Group(Box::new(p.clone()));
                *p = match n {
                    0 => Pat::Seq(vec![Pat::Opt(Box::new(Pat::Group(Box::new(long)))), p0]),
                    _ => Pat::Group(Box::new(Pat::Alt(vec![long, p0]))),
                };
            }
        }
        // a hyphen on its own stands for no pattern
        for p in [&mut pre, &mut post] {
            if *p == Pat::Str("-".into()) {
                *p = Pat::Group(Box::new(p.clone()));
            }
        }
        let text = self.word("abc1.", 1, 3);
        let cells = if self.s.chance(1, 8) { None } else { Some(self.cells()) };
        self.push(Op::Match { pre, text, post, cells });
    }

    // context, correct and the passes

    pub fn swaps(&mut self) {
        let to = (self.cells(), self.cell());
        self.push(Op::Swapcd { name: "swapa".into(), from: "ab".into(), to: vec![to.0, vec![to.1]] });
        self.push(Op::Swapcc { name: "swapb".into(), from: "abc".into(), to: "bca".into() });
        let mut from = vec![1 as Cell, 2];
        for _ in 0..self.s.below(3) {
            let c = self.some_cells(1)[0];
            if !from.contains(&c) {
                from.push(c);
            }
        }
        let to = (0..from.len()).map(|_| if self.s.bool() { vec![self.cell()] } else { self.cells() }).collect();
        self.push(Op::Swapdd { name: "swapc".into(), from, to });
        for name in ["swapa", "swapb", "swapc"] {
            self.classes.push(name.into());
        }
    }
    fn quant(&mut self) -> Quant {
        match self.s.below(8) {
            0 => Quant::Exactly(self.s.range(1, 3)),
            1 => {
                let a = self.s.range(1, 2);
                let more = if self.s.chance(1, 8) { self.s.range(20, 80) } else { self.s.range(1, 2) };
                Quant::Range(a, a + more)
            }
            2 | 3 => Quant::Many,
            _ => Quant::One,
        }
    }
    fn some_cells(&mut self, hi: usize) -> Vec<Cell> {
        let n = self.s.range(1, hi);
        let near: Vec<Cell> = self.used.iter().copied().take(8).collect();
        (0..n)
            .map(|_| {
                let all = if self.s.chance(1, 3) || near.is_empty() { &self.used } else { &near };
                if all.is_empty() { 1 } else { *self.s.pick(all) }
            })
            .collect()
    }
    fn test_item(&mut self, cells: bool) -> Test {
        match self.s.below(7) {
            0 => {
                let letters = "dlpsSUuDm";
                let n = self.s.range(1, 2);
                let a: String = (0..n).map(|_| self.s.ch(letters)).collect();
                Test::Attrs(a, self.quant())
            }
            1 if !self.classes.is_empty() => {
                let c = if self.s.chance(1, 4) {
                    self.s.pick(&CLASSES).to_string()
                } else {
                    self.s.pick(&self.classes).clone()
                };
                if c.chars().all(|c| c.is_ascii_alphabetic()) {
                    Test::Class(c, self.quant())
                } else {
                    Test::Attrs("l".into(), Quant::One)
                }
            }
            2 => match self.s.below(3) {
                0 => Test::Start,
                1 => Test::End,
                _ => {
                    let v = self.s.range(1, 2) as u8;
                    Test::Var(v, self.s.pick(&["=", "<", ">", "<=", ">="]), self.s.below(3) as u8)
                }
            },
            _ if cells => Test::Cells(self.some_cells(2)),
            _ => Test::Str(self.s.string("abcA 1.", 1, 3)),
        }
    }
    fn test_piece(&mut self, cells: bool) -> Test {
        let t = self.test_item(cells);
        if self.s.chance(1, 6) { Test::Not(Box::new(t)) } else { t }
    }
    pub fn test(&mut self, cells: bool) -> Vec<Test> {
        let mut out = vec![];
        if self.s.chance(1, 2) {
            let n = self.s.range(1, 2);
            for _ in 0..n {
                out.push(self.test_piece(cells));
            }
        } else {
            for _ in 0..self.s.range(0, 2) {
                out.push(self.test_piece(cells));
            }
            let inner = (0..self.s.weighted(&[1, 4, 2])).map(|_| self.test_piece(cells)).collect();
            out.push(Test::Bracket(inner));
            for _ in 0..self.s.weighted(&[3, 2, 1]) {
                out.push(self.test_piece(cells));
            }
        }
        if self.s.chance(1, 10) {
            let at = self.s.below(out.len() + 1);
            let n = self.s.weighted(&[1, 6, 2, 1]);
            out.insert(at, Test::Back(n));
        }
        out
    }
    pub fn action(&mut self, kind: &str) -> Vec<Act> {
        let mut out = vec![];
        let n = self.s.range(1, 3);
        for _ in 0..n {
            out.push(match self.s.below(8) {
                0 => Act::Copy,
                1 => Act::Drop,
                2 => Act::Set(self.s.range(1, 2) as u8, self.s.below(3) as u8),
                3 => {
                    let v = self.s.range(1, 2) as u8;
                    if self.s.bool() { Act::Inc(v) } else { Act::Dec(v) }
                }
                4 => Act::Swap(
                    match kind {
                        "context" => "swapa",
                        "correct" => "swapb",
                        _ => "swapc",
                    }
                    .into(),
                ),
                _ if kind == "correct" => Act::Str(self.s.string("abcxA1. ", 1, 3)),
                _ if self.s.bool() => Act::Cells(self.some_cells(2)),
                _ => Act::Cells(self.cells()),
            });
        }
        out
    }
    pub fn multi(&mut self, kind: &'static str) {
        let cells = kind.starts_with("pass");
        let test = self.test(cells);
        let mut action = self.action(kind);
        if kind == "context" && self.s.chance(1, 2) {
            action.retain(|a| !matches!(a, Act::Copy));
        }
        if action.is_empty() {
            action.push(Act::Drop);
        }
        self.push(Op::Multi { kind, test, action });
    }

    /// Rules of one kind that count something.
    pub fn counting(&mut self, kind: &'static str) {
        let cells = kind.starts_with("pass");
        let pool: Vec<Vec<Cell>> = self
            .rules
            .iter()
            .filter_map(|r| match &r.op {
                Op::Def { kind: "lowercase" | "letter", cells, .. } => Some(cells.clone()),
                _ => None,
            })
            .collect();
        let mut v = self.s.range(0, 3) as u8;
        for way in 0..self.s.range(3, 6) {
            let item = if cells && !pool.is_empty() { Test::Cells(self.s.pick(&pool).clone()) } else { Test::Str(self.s.string("abcA", 1, 1)) };
            if self.s.chance(1, 8) {
                v = self.s.range(0, 3) as u8;
            }
            let mut test = vec![Test::Bracket(vec![item])];
            let mut action = vec![];
            for _ in 0..self.s.weighted(&[0, 5, 1]) {
                match if way < 3 { way } else { self.s.below(3) } {
                    0 => action.push(Act::Set(v, self.s.range(0, 4) as u8)),
                    1 => action.push(if self.s.bool() { Act::Dec(v) } else { Act::Inc(v) }),
                    _ => {
                        let t = Test::Var(v, self.s.pick(&["=", "<", ">", "<=", ">="]), self.s.range(0, 4) as u8);
                        test.insert(0, t);
                    }
                }
            }
            action.insert(
                0,
                match self.s.below(3) {
                    0 => Act::Copy,
                    _ if kind == "correct" => Act::Str(self.s.string("bcx", 1, 2)),
                    _ => Act::Cells(self.cells()),
                },
            );
            if kind == "context" && matches!(action[0], Act::Copy) {
                action[0] = Act::Cells(self.cells());
            }
            self.push(Op::Multi { kind, test, action });
        }
    }

    /// Makes some rules share their cells, or the beginning of their cells, with other ones.
    pub fn share_cells(&mut self) {
        let mut pool: Vec<Vec<Cell>> = self.rules.iter().filter_map(|r| cells_of(&r.op).cloned()).collect();
        if pool.is_empty() {
            return;
        }
        let n = self.s.range(1, 4);
        for i in 0..self.rules.len() {
            if !self.s.chance(n, 20) {
                continue;
            }
            let other = self.s.pick(&pool).clone();
            let way = self.s.below(4);
            if let Some(c) = cells_of_mut(&mut self.rules[i].op) {
                match way {
                    0 | 1 => *c = other,
                    2 => {
                        c.truncate(1);
                        c.splice(0..0, other);
                    }
                    _ => c.extend(other),
                }
                c.truncate(4);
                pool.push(c.clone());
            }
        }
    }
    /// Cells that the table gives a meaning to, and others.
    pub fn braille(&mut self, max: usize) -> String {
        let pool: Vec<Vec<Cell>> = self.rules.iter().filter_map(|r| cells_of(&r.op).cloned()).collect();
        let special: Vec<Vec<Cell>> = self
            .rules
            .iter()
            .filter(|r| !matches!(r.op, Op::Def { .. }))
            .filter_map(|r| cells_of(&r.op).cloned())
            .collect();
        let mut t = vec![];
        for _ in 0..self.s.range(1, max) {
            match self.s.below(8) {
                0 | 1 | 2 if !special.is_empty() => t.extend(self.s.pick(&special)),
                3 if self.s.chance(1, 3) => t.push(self.s.below(0x100) as Cell),
                4 => t.extend(self.some_cells(1)),
                _ if !pool.is_empty() => t.extend(self.s.pick(&pool)),
                _ => t.extend(self.some_cells(1)),
            }
        }
        cells_str(&t)
    }

    /// Now and then one more feature than the one that a table is about.
    pub fn spice(&mut self, except: &[&str]) {
        if !self.s.chance(1, 6) {
            return;
        }
        let features: Vec<&str> = ["numbers", "capitals", "compbrl", "letters", "punctuation", "match", "context"].into_iter().filter(|f| !except.contains(f)).collect();
        match *self.s.pick(&features) {
            "numbers" => self.numbers(),
            "capitals" => self.capitals(),
            "compbrl" => self.computer_braille(),
            "letters" => self.letter_signs(),
            "punctuation" => self.punctuation_rule(),
            "match" => self.match_rule(),
            _ => {
                self.swaps();
                self.multi("context")
            }
        }
    }
    fn punctuation_rule(&mut self) {
        let kind = *self.s.pick(&["prepunc", "postpunc"]);
        let text = self.word("(-.,a", 1, 2);
        let cells = Some(self.cells());
        self.push(Op::Text { kind, text, cells });
    }

    /// A table with some of everything.
    pub fn mixed(&mut self) {
        self.base();
        if self.s.chance(1, 2) {
            self.attributes();
        }
        let at = self.rules.len();
        if self.s.chance(1, 3) {
            self.numbers();
        }
        if self.s.chance(1, 3) {
            self.capitals();
        }
        if self.s.chance(1, 4) {
            self.emphasis();
        }
        if self.s.chance(1, 5) {
            self.computer_braille();
        }
        if self.s.chance(1, 4) {
            self.letter_signs();
        }
        for _ in 0..self.s.below(5) {
            self.contraction();
            if self.s.chance(1, 8) {
                self.nocross();
            }
        }
        if self.s.chance(1, 4) {
            self.punctuation_rule();
        }
        for _ in 0..self.s.weighted(&[4, 2, 1]) {
            self.match_rule();
        }
        if self.s.chance(1, 3) {
            self.swaps();
            for _ in 0..self.s.range(1, 3) {
                let kind = *self.s.pick(&["context", "correct", "pass2", "pass3", "pass4"]);
                self.multi(kind);
            }
        }
        if self.s.chance(1, 3) {
            let tail = &mut self.rules[at..];
            self.s.shuffle(tail);
        }
    }

    // texts

    pub fn any_char(&mut self) -> char {
        match self.s.below(12) {
            0 | 1 | 2 => self.s.ch("abc"),
            3 => self.s.ch(LOWER),
            4 => self.s.ch(UPPER),
            5 | 6 => {
                let sp = self.spaces.clone();
                self.s.ch(&sp)
            }
            7 => self.s.ch(DIGITS),
            8 | 9 => self.s.ch(PUNCT),
            10 => self.s.ch("+=:'"),
            _ => self.s.ch(STRANGE),
        }
    }
    pub fn text(&mut self, max: usize) -> String {
        let mut t = String::new();
        for _ in 0..self.pieces(max) {
            if !self.words.is_empty() && self.s.chance(1, 2) {
                let w = self.s.pick(&self.words).clone();
                match self.s.below(6) {
                    0 => t.extend(w.to_uppercase().chars()),
                    1 => {
                        for c in w.chars() {
                            if self.s.bool() { t.extend(c.to_uppercase()) } else { t.push(c) }
                        }
                    }
                    _ => t += &w,
                }
            } else {
                t.push(self.any_char());
            }
        }
        t
    }
    /// Of how many pieces a text is; a few are long.
    fn pieces(&mut self, max: usize) -> usize {
        if self.s.chance(1, 300) { self.s.range(max, 200) } else { self.s.range(1, max) }
    }
    /// A text of words in capitals and small letters.
    pub fn caps_text(&mut self, max: usize) -> String {
        let mut t = String::new();
        for _ in 0..self.pieces(max) {
            match self.s.below(8) {
                0 | 1 | 2 => t += &self.s.string("ABC", 1, 3),
                3 => t += &self.s.string("ab", 1, 2),
                4 | 5 => t.push(' '),
                6 => t.push(self.s.ch("-.'1")),
                _ => t.push(self.any_char()),
            }
        }
        t
    }
    pub fn spans(&mut self, n: usize, names: &[String]) -> Vec<Span> {
        let mut out = vec![];
        if names.is_empty() {
            return out;
        }
        for _ in 0..self.s.range(0, if n > 60 { 30 } else { 4 }) {
            let a = self.s.below(n + 1);
            let most = n + 2 - a;
            let near = n > 60 && self.s.chance(4, 5);
            let b = a + self.s.below(if near { most.min(12) } else { most });
            let name = if self.s.chance(1, 12) { "other".into() } else { self.s.pick(names).clone() };
            out.push((name, a..b));
        }
        out
    }
}

/// Letters with their capitals, of one to four bytes.
const PAIRS: &[(char, char)] =
    &[('б', 'Б'), ('ა', 'Ა'), ('𐐨', '𐐀'), ('σ', 'Σ'), ('ÿ', 'Ÿ'), ('ⓐ', 'Ⓐ'), ('ǆ', 'Ǆ'), ('k', '\u{212a}'), ('z', 'Z'), ('ӂ', 'Ӂ')];
const OTHERS: &[(char, &[char])] = &[
    ('1', &['١', '7']),
    ('2', &['２', '0']),
    ('3', &['߃', '9']),
    ('.', &['。', '…']),
    (',', &['،', ';']),
    ('(', &['（', '«']),
    ('-', &['‐', '_']),
    (' ', &['\u{2003}', '␣', '\u{200b}', '\u{1f}']),
    ('+', &['𝄞']),
];

/// Other characters in the place of some of those that the generators use: nothing may depend on
/// how a character is encoded, or on anything else than what the table says about it.
pub fn renaming(s: &mut Src) -> Renaming {
    let mut map = vec![];
    if !s.chance(1, 4) {
        return map;
    }
    let mut pairs = PAIRS.to_vec();
    for (l, u) in LOWER.chars().zip(UPPER.chars()) {
        if s.chance(2, 5) {
            let (a, b) = pairs.remove(s.below(pairs.len()));
            map.push((l, a));
            map.push((u, b));
        }
    }
    for (c, names) in OTHERS {
        if s.chance(1, 4) {
            map.push((*c, *s.pick(names)));
        }
    }
    map
}
pub trait Rename {
    fn rename(self, map: &Renaming) -> Self;
}
impl Rename for Vec<String> {
    fn rename(self, map: &Renaming) -> Self {
        self.into_iter().map(|t| renamed(map, &t)).collect()
    }
}
impl Rename for Vec<(String, Vec<Span>)> {
    fn rename(self, map: &Renaming) -> Self {
        self.into_iter().map(|(t, s)| (renamed(map, &t), s)).collect()
    }
}
impl Gen<'_> {
    /// The table and the texts, sometimes with other characters.
    pub fn done<T: Rename>(self, texts: T) -> (Vec<Rule>, T) {
        let map = renaming(self.s);
        let mut rules = self.rules;
        rename(&map, &mut rules);
        (rules, texts.rename(&map))
    }
}

/// The cells that a rule stands for.
pub fn cells_of(op: &Op) -> Option<&Vec<Cell>> {
    match op {
        Op::Def { cells, .. } | Op::Sign { cells, .. } => Some(cells),
        Op::Text { cells, .. } => cells.as_ref(),
        _ => None,
    }
}
fn cells_of_mut(op: &mut Op) -> Option<&mut Vec<Cell>> {
    match op {
        Op::Def { cells, .. } | Op::Sign { cells, .. } => Some(cells),
        Op::Text { cells, .. } => cells.as_mut(),
        _ => None,
    }
}

fn ends_in_str(p: Option<&Pat>) -> bool {
    match p {
        Some(Pat::Str(_)) => true,
        Some(Pat::Not(p)) => ends_in_str(Some(p)),
        Some(Pat::Seq(ps)) => ends_in_str(ps.last()),
        _ => false,
    }
}
fn starts_with_str(p: &Pat) -> bool {
    match p {
        Pat::Str(_) => true,
        Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) => starts_with_str(p),
        Pat::Seq(ps) => ps.first().is_some_and(starts_with_str),
        _ => false,
    }
}
