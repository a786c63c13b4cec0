//! Tables of liblouis, as they are used: those that the repository's own fuzz targets come with
//! (harness/tables is a copy, so that a check doesn't depend on what is there).

use crate::engine::*;
use crate::sut::{self, Direction, T};
use std::sync::OnceLock;

macro_rules! files {
    ($($name:literal),* $(,)?) => { &[$(($name, include_str!(concat!("../tables/", $name)))),*] };
}

const FILES: &[(&str, &str)] = files![
    "IPA-unicode-range.uti",
    "ar-ar-g1-core.uti",
    "ar-ar-g2.ctb",
    "braille-patterns.cti",
    "digits6Dots.uti",
    "digits6DotsPlusDot6.uti",
    "en-chardefs.cti",
    "en-ueb-chardefs.uti",
    "en-ueb-g1.ctb",
    "en-ueb-math.ctb",
    "en-us-compbrl.uti",
    "en-us-emphasis.uti",
    "en-us-g1.ctb",
    "en-us-g2.ctb",
    "es-chardefs.cti",
    "es-g1.ctb",
    "es-g2.ctb",
    "fr-bfu-comp6.utb",
    "fr-bfu-comp68.cti",
    "fr-bfu-g2.ctb",
    "fuzz_maximal.ctb",
    "latinLetterDef6Dots.uti",
    "latinUppercaseComp6.uti",
    "litdigits6Dots.uti",
    "litdigits6DotsPlusDot6.uti",
    "loweredDigits6Dots.uti",
    "ru-litbrl.ctb",
    "ru-unicode.dis",
    "spaces.uti",
    "text_nabcc.dis",
    "unicode.dis",
    "uz-g1.utb",
];

const ROOTS: &[&str] = &[
    "en-us-g2.ctb",
    "en-us-g1.ctb",
    "en-ueb-g1.ctb",
    "fr-bfu-g2.ctb",
    "fr-bfu-comp6.utb",
    "es-g1.ctb",
    "es-g2.ctb",
    "ar-ar-g2.ctb",
    "ru-litbrl.ctb",
    "uz-g1.utb",
    "fuzz_maximal.ctb",
];

/// A table with its includes pasted in.
pub struct Real {
    pub name: &'static str,
    pub text: String,
    pub lines: Vec<String>,
    /// what contractions and definitions of characters are about, unescaped
    pub words: Vec<String>,
    pub classes: Vec<String>,
}

fn paste(name: &str, depth: usize, out: &mut Vec<String>) {
    let Some((_, text)) = FILES.iter().find(|f| f.0 == name) else { return };
    for l in text.lines() {
        let mut t = l.split_ascii_whitespace();
        match t.next() {
            None => {}
            Some(o) if o.starts_with('#') => {}
            Some("include") if depth < 10 => paste(t.next().unwrap_or(""), depth + 1, out),
            Some(_) => out.push(l.to_string()),
        }
    }
}

fn plain(t: &str) -> String {
    let mut out = String::new();
    let mut c = t.chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            out.push(x);
            continue;
        }
        match c.next() {
            Some('x') => {
                let h: String = c.by_ref().take(4).collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('s') => out.push(' '),
            Some('t') => out.push('\t'),
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('f') => out.push('\u{c}'),
            Some('v') => out.push('\u{b}'),
            Some('e') => out.push('\u{1b}'),
            Some(x) => out.push(x),
            None => {}
        }
    }
    out
}

pub fn all() -> &'static [Real] {
    static ALL: OnceLock<Vec<Real>> = OnceLock::new();
    ALL.get_or_init(|| {
        ROOTS
            .iter()
            .map(|name| {
                let mut lines = vec![];
                paste(name, 0, &mut lines);
                let mut words = vec![];
                let mut classes = vec![];
                for l in &lines {
                    let t: Vec<&str> = l.split_ascii_whitespace().skip_while(|t| matches!(*t, "noback" | "nofor" | "nocross")).collect();
                    let t = match t[..] {
                        ["after" | "before", _, ref rest @ ..] => rest,
                        ref rest => rest,
                    };
                    match t {
                        ["emphclass", name, ..] => classes.push(name.to_string()),
                        ["include" | "display" | "numsign" | "capsletter" | "undefined" | "attribute", ..] => {}
                        [_, word, _, ..] | ["contraction", word] if !word.contains(['"', '[', '$', '@']) => words.push(plain(word)),
                        ["match", _, word, ..] => words.push(plain(word)),
                        // the strings of the tests
                        [_, test, ..] => words.extend(test.split('"').skip(1).step_by(2).map(plain)),
                        _ => {}
                    }
                }
                words.retain(|w| !w.is_empty());
                words.sort();
                words.dedup();
                Real { name, text: lines.iter().map(|l| format!("{l}\n")).collect(), lines, words, classes }
            })
            .collect()
    })
}

/// A translator of the `i`-th table, one of a few.
pub fn translator(i: usize, d: Direction, copy: usize) -> Option<&'static T> {
    const COPIES: usize = 2;
    static BUILT: OnceLock<Vec<OnceLock<Option<T>>>> = OnceLock::new();
    let built = BUILT.get_or_init(|| (0..all().len() * 2 * COPIES).map(|_| OnceLock::new()).collect());
    let at = (i * 2 + (d == Direction::Forward) as usize) * COPIES + copy % COPIES;
    built[at].get_or_init(|| sut::build(&all()[i].text, d).ok()).as_ref()
}

/// A few of the lines of a table, in their order.
pub fn some_lines(s: &mut Src) -> (String, &'static Real) {
    let r = &all()[s.below(all().len())];
    let mut at: Vec<usize> = (0..s.range(1, 60)).map(|_| s.below(r.lines.len())).collect();
    if s.chance(1, 3) {
        // neighbours have to do with each other
        let from = s.below(r.lines.len());
        at.extend((from..r.lines.len()).take(s.below(40)));
    }
    if s.chance(4, 5) {
        at.sort();
        at.dedup();
    }
    (at.iter().map(|i| format!("{}\n", r.lines[*i])).collect(), r)
}

/// A line of a table, or one made of the pieces of two of its lines.
pub fn line(s: &mut Src) -> String {
    let r = &all()[s.below(all().len())];
    let l = s.pick(&r.lines).clone();
    if s.bool() {
        return l;
    }
    let other = s.pick(&r.lines).clone();
    let o: Vec<&str> = other.split_ascii_whitespace().collect();
    let mut t: Vec<String> = l.split_ascii_whitespace().map(|t| t.to_string()).collect();
    for _ in 0..s.range(1, 2) {
        let i = s.below(t.len());
        match s.below(6) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, s.pick(&o).to_string()),
            2 | 3 => t[i] = s.pick(&o).to_string(),
            _ => {
                let mut c: Vec<char> = t[i].chars().collect();
                let at = s.below(c.len());
                match s.below(4) {
                    0 => {
                        c.remove(at);
                    }
                    1 => c.insert(at, s.ch("\\\"-,=1290+$@%#*?!.|()[]^_aAx&{}~")),
                    2 => c[at] = s.ch("\\\"-,=1290+$@%#*?!.|()[]^_aAx&{}~"),
                    _ => c.truncate(at),
                }
                t[i] = c.into_iter().collect();
            }
        }
        t.retain(|t| !t.is_empty());
        if t.is_empty() {
            break;
        }
    }
    t.join(s.pick(&[" ", "\t", "  "]))
}

/// Texts of the words that a table is about.
pub fn text(s: &mut Src, r: &Real) -> String {
    let mut t = String::new();
    for _ in 0..s.range(1, 10) {
        match s.below(10) {
            0 => t.push(s.ch("aeinrstAEINRST")),
            1 => t.push(s.ch("0123456789.,:/")),
            2 | 3 => t.push(s.ch("  \t\n\u{a0}-.,;()'\"!?")),
            4 => {
                let w = s.pick(&r.words).to_uppercase();
                t.push_str(&w)
            }
            5 => {
                let c = s.scalar();
                t.push(c)
            }
            6 => t.push(crate::table::cell_char(s.below(64) as crate::table::Cell)),
            _ => t.push_str(s.pick(&r.words)),
        }
    }
    t
}

// ------------------------------------------------------------------ as rules

use crate::table::{Act, Cell, Dir, Op, Pat, Quant, Rule, Test, cell};

const DEFS: &[&str] =
    &["space", "punctuation", "digit", "litdigit", "letter", "lowercase", "uppercase", "sign", "math", "hyphen", "decpoint"];
const TEXTS: &[&str] = &[
    "always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword", "joinword",
    "lowword", "largesign", "begnum", "midnum", "endnum", "prepunc", "postpunc", "comp6", "syllable",
];
const SIGNS: &[&str] = &[
    "undefined", "numsign", "nonumsign", "capsletter", "begcapsword", "endcapsword", "begcaps", "endcaps", "begcapsphrase",
    "letsign", "nocontractsign", "begcomp", "endcomp",
];
const CHARS: &[&str] = &[
    "capsmodechars", "noletsign", "noletsignbefore", "noletsignafter", "numericnocontchars", "numericmodechars", "seqdelimiter",
    "seqbeforechars", "seqafterchars", "compbrl", "contraction",
];
const EMPH: &[&str] = &["emphletter", "begemphword", "endemphword", "begemphphrase", "begemph", "endemph"];

fn known(list: &[&'static str], op: &str) -> Option<&'static str> {
    list.iter().find(|k| **k == op).copied()
}
fn cells(t: &str) -> Option<Vec<Cell>> {
    if !t.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c) || c == '-') {
        return None;
    }
    t.split('-').map(|c| (!c.is_empty()).then(|| cell(c))).collect()
}
fn lower(t: String) -> Option<String> {
    (t.to_lowercase() == t && t.chars().all(|c| c.to_lowercase().count() == 1)).then_some(t)
}

fn quant(t: &mut std::iter::Peekable<std::str::Chars>) -> Option<Quant> {
    let mut number = |t: &mut std::iter::Peekable<std::str::Chars>| {
        let mut n = None;
        while let Some(d) = t.peek().and_then(|c| c.to_digit(10)) {
            t.next();
            n = Some(n.unwrap_or(0) * 10 + d as usize);
        }
        n
    };
    if t.next_if_eq(&'.').is_some() {
        return Some(Quant::Many);
    }
    Some(match number(t) {
        None => Quant::One,
        Some(a) if t.next_if_eq(&'-').is_some() => Quant::Range(a, number(t)?),
        Some(a) => Quant::Exactly(a),
    })
}
fn string(t: &mut std::iter::Peekable<std::str::Chars>) -> Option<String> {
    let mut raw = String::new();
    loop {
        match t.next()? {
            '"' => return Some(plain(&raw)),
            '\\' => {
                raw.push('\\');
                raw.push(t.next()?);
            }
            c => raw.push(c),
        }
    }
}
fn taken(t: &mut std::iter::Peekable<std::str::Chars>, of: impl Fn(char) -> bool) -> String {
    let mut o = String::new();
    while let Some(c) = t.next_if(|c| of(*c)) {
        o.push(c);
    }
    o
}
fn test(t: &mut std::iter::Peekable<std::str::Chars>) -> Option<Test> {
    Some(match t.next()? {
        '"' => Test::Str(lower(string(t)?)?),
        '@' => Test::Cells(cells(&taken(t, |c| c.is_ascii_digit() || ('a'..='f').contains(&c) || c == '-'))?),
        '$' => {
            let names = taken(t, |c| c.is_ascii_alphabetic());
            if names.is_empty() || !names.chars().all(|c| "dDlmpSsUu".contains(c)) {
                return None;
            }
            Test::Attrs(names, quant(t)?)
        }
        '%' => {
            let name = taken(t, |c| c.is_ascii_alphabetic());
            Test::Class(name, quant(t)?)
        }
        '!' => Test::Not(Box::new(test(t)?)),
        '[' => {
            let mut v = vec![];
            while t.next_if_eq(&']').is_none() {
                v.push(test(t)?);
            }
            Test::Bracket(v)
        }
        '_' => Test::Back(taken(t, |c| c.is_ascii_digit()).parse().unwrap_or(1)),
        '`' => Test::Start,
        '~' => Test::End,
        '#' => {
            let v = taken(t, |c| c.is_ascii_digit());
            let op = ["<=", ">=", "=", "<", ">"];
            let o = taken(t, |c| "<>=".contains(c));
            let n = taken(t, |c| c.is_ascii_digit());
            Test::Var(v.parse().ok()?, known(&op, &o)?, n.parse().ok()?)
        }
        _ => return None,
    })
}
fn act(t: &mut std::iter::Peekable<std::str::Chars>) -> Option<Act> {
    Some(match t.next()? {
        '"' => Act::Str(string(t)?),
        '@' => Act::Cells(cells(&taken(t, |c| c.is_ascii_digit() || ('a'..='f').contains(&c) || c == '-'))?),
        '*' => Act::Copy,
        '?' => Act::Drop,
        '%' => Act::Swap(taken(t, |c| c.is_ascii_alphabetic())),
        '#' => {
            let v = taken(t, |c| c.is_ascii_digit()).parse().ok()?;
            match t.next()? {
                '=' => Act::Set(v, taken(t, |c| c.is_ascii_digit()).parse().ok()?),
                '+' => Act::Inc(v),
                '-' => Act::Dec(v),
                _ => return None,
            }
        }
        _ => return None,
    })
}
fn seq(t: &mut std::iter::Peekable<std::str::Chars>) -> Option<Pat> {
    let mut alts = vec![];
    let mut now = vec![];
    loop {
        match t.peek() {
            None | Some(')') => break,
            Some('|') => {
                t.next();
                alts.push(Pat::Seq(std::mem::take(&mut now)));
            }
            _ => now.push(atom(t)?),
        }
    }
    alts.push(Pat::Seq(now));
    Some(if alts.len() == 1 { alts.pop().unwrap() } else { Pat::Alt(alts) })
}
fn atom(t: &mut std::iter::Peekable<std::str::Chars>) -> Option<Pat> {
    let p = match t.next()? {
        '^' | '$' => Pat::Edge,
        '.' => Pat::Any,
        '!' => return Some(Pat::Not(Box::new(atom(t)?))),
        '(' => {
            let p = seq(t)?;
            t.next_if_eq(&')')?;
            Pat::Group(Box::new(p))
        }
        '[' => {
            let s = taken(t, |c| c != ']' && c != '\\');
            t.next_if_eq(&']')?;
            Pat::Set(s.chars().collect())
        }
        '%' if t.next_if_eq(&'[').is_some() => {
            let s = taken(t, |c| c != ']');
            t.next_if_eq(&']')?;
            if s.chars().any(|c| !"_#aul.$~^".contains(c)) {
                return None;
            }
            Pat::Attr(s.replace('^', ""), s.contains('^'))
        }
        '%' => Pat::Attr(t.next_if(|c| "_#aul.$~".contains(*c))?.to_string(), false),
        '\\' | '*' | '+' | '?' => return None,
        c => Pat::Str(lower(c.to_string())?),
    };
    Some(match t.peek() {
        Some('?') => (t.next(), Pat::Opt(Box::new(p))).1,
        Some('*') => (t.next(), Pat::Star(Box::new(p))).1,
        Some('+') => (t.next(), Pat::Plus(Box::new(p))).1,
        _ => p,
    })
}
fn pattern(t: &str) -> Option<Pat> {
    if t == "-" {
        return Some(Pat::Empty);
    }
    let mut c = t.chars().peekable();
    let p = seq(&mut c)?;
    c.next().is_none().then_some(p)
}
fn all_of<T>(t: &str, one: impl Fn(&mut std::iter::Peekable<std::str::Chars>) -> Option<T>) -> Option<Vec<T>> {
    let mut c = t.chars().peekable();
    let mut v = vec![];
    while c.peek().is_some() {
        v.push(one(&mut c)?);
    }
    Some(v)
}

/// The rule that a line stands for, where the model knows it.
pub fn rule(line: &str) -> Option<Rule> {
    let mut t = line.split_ascii_whitespace().peekable();
    let mut r = Rule { dir: Dir::Both, nocross: false, with: vec![], op: Op::Raw(String::new()) };
    loop {
        match *t.peek()? {
            "noback" => r.dir = Dir::NoBack,
            "nofor" => r.dir = Dir::NoFor,
            "nocross" => r.nocross = true,
            p @ ("before" | "after") => {
                t.next();
                r.with.push((p == "before", t.peek()?.to_string()));
            }
            _ => break,
        }
        t.next();
    }
    let op = t.next()?;
    let or_implicit = |o: &str| if o == "=" { Some(None) } else { cells(o).map(Some) };
    let one = |o: &str| {
        let p = plain(o);
        let mut c = p.chars();
        let x = c.next()?;
        c.next().is_none().then_some(x)
    };
    r.op = if let Some(kind) = known(DEFS, op) {
        Op::Def { kind, c: one(t.next()?)?, cells: cells(t.next()?)? }
    } else if let Some(kind) = known(TEXTS, op) {
        Op::Text { kind, text: lower(plain(t.next()?))?, cells: or_implicit(t.next()?)? }
    } else if let Some(kind) = known(SIGNS, op) {
        Op::Sign { kind, cells: cells(t.next()?)? }
    } else if let Some(kind) = known(CHARS, op) {
        let c = plain(t.next()?);
        Op::Chars { kind, chars: if matches!(kind, "compbrl" | "contraction") { lower(c)? } else { c } }
    } else if let Some(kind) = known(EMPH, op) {
        Op::Emph { kind, class: t.next()?.into(), cells: cells(t.next()?)? }
    } else if let Some(kind) = known(&["emphmodechars", "noemphchars"], op) {
        Op::EmphChars { kind, class: t.next()?.into(), chars: plain(t.next()?) }
    } else if let Some(kind) = known(&["context", "correct", "pass2", "pass3", "pass4"], op) {
        Op::Multi { kind, test: all_of(t.next()?, test)?, action: all_of(t.next()?, act)? }
    } else {
        match op {
            "base" => Op::Base { class: t.next()?.into(), derived: one(t.next()?)?, base: one(t.next()?)? },
            "emphclass" => Op::Emphclass(t.next()?.into()),
            "lenemphphrase" => Op::EmphLen { class: t.next()?.into(), n: t.next()?.parse().ok()? },
            "endemphphrase" => Op::EndEmphPhrase { class: t.next()?.into(), before: t.next()? == "before", cells: cells(t.next()?)? },
            "endcapsphrase" => Op::EndCapsPhrase { before: t.next()? == "before", cells: cells(t.next()?)? },
            "lencapsphrase" => Op::Num { kind: "lencapsphrase", n: t.next()?.parse().ok()? },
            "attribute" => Op::Attribute { name: t.next()?.into(), chars: plain(t.next()?) },
            "match" => {
                Op::Match { pre: pattern(t.next()?)?, text: lower(plain(t.next()?))?, post: pattern(t.next()?)?, cells: or_implicit(t.next()?)? }
            }
            "swapcc" => Op::Swapcc { name: t.next()?.into(), from: plain(t.next()?), to: plain(t.next()?) },
            "swapcd" => {
                Op::Swapcd { name: t.next()?.into(), from: plain(t.next()?), to: t.next()?.split(',').map(cells).collect::<Option<_>>()? }
            }
            "swapdd" => {
                let name = t.next()?.into();
                let from: Vec<Vec<Cell>> = t.next()?.split(',').map(cells).collect::<Option<_>>()?;
                let to = t.next()?.split(',').map(cells).collect::<Option<_>>()?;
                if from.iter().any(|f| f.len() != 1) {
                    return None;
                }
                Op::Swapdd { name, from: from.iter().map(|f| f[0]).collect(), to }
            }
            _ => return None,
        }
    };
    Some(r)
}

/// The rules of a table that the model knows.
pub fn rules(i: usize) -> &'static [Rule] {
    static RULES: OnceLock<Vec<Vec<Rule>>> = OnceLock::new();
    &RULES.get_or_init(|| all().iter().map(|r| r.lines.iter().filter_map(|l| rule(l)).collect()).collect())[i]
}

/// Rules of a table of liblouis: definitions of characters, and some of the others; and texts about them.
pub fn excerpt(s: &mut Src) -> (Vec<Rule>, Vec<String>, Vec<String>) {
    let i = s.below(all().len());
    let from = rules(i);
    let is_def = |r: &Rule| matches!(r.op, Op::Def { .. } | Op::Base { .. });
    let needed = |r: &Rule| matches!(r.op, Op::Emphclass(_) | Op::Attribute { .. } | Op::Swapcc { .. } | Op::Swapcd { .. } | Op::Swapdd { .. });
    let signs = s.bool();
    let others: Vec<usize> = (0..from.len()).filter(|i| !is_def(&from[*i]) && !needed(&from[*i])).collect();
    let mut at: Vec<usize> = (0..s.range(1, 40)).filter(|_| !others.is_empty()).map(|_| others[s.below(others.len())]).collect();
    for _ in 0..s.below(3) {
        // neighbours have to do with each other
        let a = s.below(others.len().max(1));
        at.extend(others.iter().skip(a).take(s.below(20)));
    }
    // whole tables have hundreds of definitions: those of ASCII and a few more
    let few = s.chance(3, 4);
    let start = s.below(50);
    for (i, r) in from.iter().enumerate() {
        let take = match &r.op {
            Op::Def { c, .. } => c.is_ascii() || !few || (i + start) % 50 == 0,
            Op::Base { base, .. } => base.is_ascii() || !few,
            Op::Sign { .. } | Op::Emph { .. } | Op::EndEmphPhrase { .. } | Op::EmphLen { .. } | Op::Num { .. } | Op::EndCapsPhrase { .. } | Op::Chars { kind: "capsmodechars", .. } => signs,
            _ => needed(r),
        };
        if take {
            at.push(i);
        }
    }
    at.sort();
    at.dedup();
    let taken: Vec<Rule> = at.iter().map(|i| from[*i].clone()).collect();
    let mut words: Vec<String> = vec![];
    for r in &taken {
        match &r.op {
            Op::Text { text, .. } | Op::Match { text, .. } => words.push(text.clone()),
            Op::Chars { kind: "contraction" | "compbrl", chars } => words.push(chars.clone()),
            Op::Multi { test, .. } => words.extend(test.iter().filter_map(|t| match t {
                Test::Str(s) => Some(s.clone()),
                Test::Bracket(ts) => ts.iter().find_map(|t| if let Test::Str(s) = t { Some(s.clone()) } else { None }),
                Test::Cells(c) => Some(crate::table::cells_str(c)),
                _ => None,
            })),
            _ => {}
        }
    }
    let classes = taken.iter().filter_map(|r| if let Op::Emphclass(n) = &r.op { Some(n.clone()) } else { None }).collect();
    (taken, words, classes)
}

/// A text with the words of an excerpt.
pub fn prose(s: &mut Src, words: &[String]) -> String {
    let mut t = String::new();
    for _ in 0..s.range(1, 8) {
        match s.below(10) {
            0 | 1 => t.push(s.ch("aeinrstAEINRST")),
            2 => t.push(s.ch("0123456789.,:/")),
            3 | 4 => t.push(s.ch("    -.,;()'\"!?")),
            5 if !words.is_empty() => {
                let w = s.pick(words).to_uppercase();
                t.push_str(&w)
            }
            _ if !words.is_empty() => t.push_str(s.pick(words)),
            _ => t.push(' '),
        }
    }
    t
}

/// All rules of a table that the model knows, with their translator.
pub fn modelled(i: usize) -> Option<&'static (crate::model::Model, T)> {
    static BUILT: OnceLock<Vec<OnceLock<Option<(crate::model::Model, T)>>>> = OnceLock::new();
    BUILT.get_or_init(|| all().iter().map(|_| OnceLock::new()).collect())[i]
        .get_or_init(|| {
            let m = crate::model::Model::new(rules(i), None).ok()?;
            Some((m, sut::forward(&crate::table::render(rules(i))).ok()?))
        })
        .as_ref()
}
