//! Changes to a table that must not matter: C17, C18 and C19.

use super::common::*;
use super::total::{wild_spans, wild_text};
use crate::engine::*;
use crate::generate::*;
use crate::lines;
use crate::model::{Info, kind_of};
use crate::real;
use crate::sut::{self, Direction, Span, T};
use crate::table::*;

/// The two translators give the same output.
fn same(ctx: &mut Ctx, what: &str, (a, ta): (&str, &T), (b, tb): (&str, &T), text: &str, spans: &[Span]) -> Result<String, Fail> {
    ctx.eval();
    let (x, y) = (ta.tr_spans(text, spans), tb.tr_spans(text, spans));
    if x != y {
        return Err(format!("{what}\none table:\n{a}\nother table:\n{b}\ntext: {text:?}{}\noutput of the one:   {x:?}\noutput of the other: {y:?}", show_spans(spans)).into());
    }
    Ok(x)
}

pub fn takes_direction(kind: &str) -> bool {
    lines::SHAPES.iter().any(|(k, p, _)| *k == kind && *p > 0)
}

/// Braille to translate back: translations, cells of the table, and anything.
fn braille(s: &mut Src, f: &Option<T>, words: &[String], cells: &[Cell]) -> String {
    let mut t = String::new();
    for _ in 0..s.range(1, 6) {
        match s.below(5) {
            0 | 1 if f.is_some() => t += &f.as_ref().unwrap().tr(&wild_text(s, words)),
            0 | 2 if !cells.is_empty() => t.push(cell_char(*s.pick(cells))),
            3 => {
                let c = cell_char(s.below(64) as Cell);
                t.push(c)
            }
            4 => t += &wild_text(s, words),
            _ => t.push(cell_char(0)),
        }
    }
    // the work of multipass rules grows faster than the text
    t.chars().take(60).collect()
}

// ------------------------------------------------------------------------ C17

/// Rules of all kinds that can be restricted to a direction.
fn restricted(g: &mut Gen, dir: Dir, classes: bool) -> Vec<String> {
    let mut out = vec![];
    for _ in 0..g.s.range(1, 4) {
        if g.s.chance(1, 3) {
            let l = lines::valid(g.s);
            if l.shape.1 == 0 || classes && defines(l.shape.0) {
                continue;
            }
            let mut tokens = l.tokens;
            tokens.retain(|t| t != "nofor" && t != "noback");
            tokens.insert(0, if dir == Dir::NoFor { "nofor" } else { "noback" }.into());
            out.push(tokens.join(" "));
            continue;
        }
        let rules = std::mem::take(&mut g.rules);
        match g.s.below(10) {
            0 => g.match_rule(),
            1 | 2 => {
                let kind = *g.s.pick(&["context", "correct", "pass2", "pass3", "pass4"]);
                g.multi(kind);
            }
            3 => g.capitals(),
            4 => g.emphasis(),
            5 => g.numbers(),
            6 => g.computer_braille(),
            7 => {
                let kind = *g.s.pick(&["letter", "lowercase", "uppercase", "punctuation", "sign", "math", "digit", "litdigit", "space", "hyphen"]);
                let c = g.any_char();
                g.define(kind, c);
            }
            _ => g.contraction(),
        }
        for mut r in std::mem::replace(&mut g.rules, rules) {
            if takes_direction(kind_of(&r)) && !(classes && defines(kind_of(&r))) {
                r.dir = dir;
                out.push(r.to_string());
            }
        }
    }
    out
}
/// What tells the classes of characters and of cells.
fn defines(kind: &str) -> bool {
    matches!(kind, "letter" | "lowercase" | "uppercase" | "punctuation" | "sign" | "math" | "digit" | "litdigit" | "space" | "hyphen" | "always" | "grouping")
}

/// A table with some rules restricted to a direction.
pub fn directed(g: &mut Gen) {
    if g.s.chance(1, 10) {
        // rules of a table of liblouis
        let (rules, words, emph) = real::excerpt(g.s);
        for r in &rules {
            match &r.op {
                Op::Def { cells, .. } | Op::Sign { cells, .. } | Op::Text { cells: Some(cells), .. } => g.used.extend(cells.iter().take(3)),
                _ => {}
            }
        }
        (g.rules, g.words, g.emph) = (rules, words, emph);
    } else {
        g.mixed();
    }
    if g.s.chance(1, 2) {
        for i in 0..g.rules.len() {
            let kind = kind_of(&g.rules[i]);
            if takes_direction(kind) && !defines(kind) && g.s.chance(1, 4) {
                g.rules[i].dir = if g.s.bool() { Dir::NoFor } else { Dir::NoBack };
            }
        }
    }
}

fn insert(s: &mut Src, table: &str, extras: &[String]) -> String {
    let mut lines: Vec<&str> = table.lines().collect();
    for e in extras {
        let at = s.below(lines.len() + 1);
        lines.insert(at, e);
    }
    lines.iter().map(|l| format!("{l}\n")).collect()
}

pub const C17: Prop = Prop {
    id: "C17",
    quick: 90_000,
    thorough: 10_000_000,
    rule: "in the direction of the restricted rules the table with them gives a different output for some of the texts",
    assumptions: &[
        "where multipass tests ask for classes, no rules are added that define characters: these classes are those of the whole table, and so are the swap classes",
    ],
    case: |s, ctx| {
        let mut g = Gen::new(s);
        directed(&mut g);
        let table = render(&g.rules);
        ctx.note(table.clone());
        let dir = if g.s.bool() { Dir::NoFor } else { Dir::NoBack };
        let (there, here) = match dir {
            Dir::NoFor => (Direction::Backward, Direction::Forward),
            _ => (Direction::Forward, Direction::Backward),
        };
        if g.s.chance(1, 4) {
            // a rule for both directions is a rule for the one and a rule for the other
            let mut split = vec![];
            for r in &g.rules {
                if r.dir == Dir::Both && takes_direction(kind_of(r)) && g.s.chance(2, 3) {
                    let (mut a, mut b) = (r.clone(), r.clone());
                    a.dir = Dir::NoFor;
                    b.dir = Dir::NoBack;
                    split.extend(if g.s.bool() { [a, b] } else { [b, a] });
                } else {
                    split.push(r.clone());
                }
            }
            let split = render(&split);
            let (a, b) = (sut::build(&table, here), sut::build(&split, here));
            let (Ok(a), Ok(b)) = (&a, &b) else {
                if a.is_ok() != b.is_ok() {
                    return Err(format!("only one of the tables was accepted:\n{table}\nand\n{split}").into());
                }
                ctx.label("rejected");
                return Ok(());
            };
            let f = sut::build(&table, Direction::Forward).ok();
            for _ in 0..3 {
                let text = if here == Direction::Forward { wild_text(g.s, &g.words) } else { braille(g.s, &f, &g.words, &g.used) };
                let spans = wild_spans(g.s, text.chars().count(), &g.emph);
                same(ctx, "rules split by direction", (&table, a), (&split, b), &text, &spans)?;
                ctx.nontrivial(&(&split, &text));
            }
            ctx.label("split");
            return Ok(());
        }
        let classes = table.contains('$') || table.contains('%');
        let extras = restricted(&mut g, dir, classes);
        if extras.is_empty() {
            return Ok(());
        }
        let more = insert(g.s, &table, &extras);
        let (Ok(a), Ok(other)) = (sut::build(&table, here), sut::build(&more, there)) else {
            ctx.label("rejected");
            return Ok(());
        };
        let b = match sut::build(&more, here) {
            Ok(b) => b,
            Err(e) => return Err(format!("rejected because of rules for the other direction: {}\n{more}", e.text).into()),
        };
        let without = sut::build(&table, there).ok();
        let f = if here == Direction::Forward { None } else { sut::build(&more, Direction::Forward).ok() };
        let mut matters = false;
        for _ in 0..4 {
            let text = if here == Direction::Forward { wild_text(g.s, &g.words) } else { braille(g.s, &f, &g.words, &g.used) };
            let spans = wild_spans(g.s, text.chars().count(), &g.emph);
            same(ctx, &format!("{extras:?} must not matter here"), (&table, &a), (&more, &b), &text, &spans)?;
            // do they matter in the other direction?
            if let Some(w) = &without {
                let text = match there {
                    Direction::Forward => text,
                    Direction::Backward => other_text(g.s, &g.used, &text),
                };
                matters |= w.tr_spans(&text, &spans) != other.tr_spans(&text, &spans);
            }
        }
        ctx.label(if here == Direction::Forward { "nofor" } else { "noback" });
        for e in &extras {
            let kind = e.split(' ').find(|t| !["nofor", "noback", "nocross", "before", "after"].contains(t)).unwrap_or("");
            ctx.label(&format!("restricted {kind}"));
        }
        if matters {
            ctx.nontrivial(&more);
            ctx.sample(|| format!("{extras:?} in\n{table}"));
        }
        Ok(())
    },
    explicit: &[],
};

fn other_text(s: &mut Src, cells: &[Cell], text: &str) -> String {
    let mut t: String = cells.iter().rev().take(6).map(|c| cell_char(*c)).collect();
    if s.bool() {
        t += text;
    }
    t
}

// ------------------------------------------------------------------------ C18

const COMMENTS: &[&str] =
    &["", "# a comment", "   # always x 1", "\t", "#", "#always abc 1", "  ", "#+key:value", "\t# a 1", "\x0c", "\x0c# x", " \t #\talways x 1", "##"];

/// The rules in another spelling.
fn respell(s: &mut Src, rules: &[Rule]) -> String {
    let end = *s.pick(&["\n", "\n", "\r\n"]);
    let mut t = String::new();
    for r in rules {
        if s.chance(1, 6) {
            t += s.pick(COMMENTS);
            t += end;
        }
        let tokens = Style { src: Some(s) }.tokens(r);
        if s.chance(1, 8) {
            t += s.pick(&[" ", "\t", "   ", "\x0c"]);
        }
        for (i, token) in tokens.iter().enumerate() {
            if i > 0 {
                t += s.pick(&[" ", " ", " ", "\t", "  ", " \t ", "\x0c", "\t\t", " \x0c "]);
            }
            t += token;
        }
        match s.below(10) {
            0 => t += s.pick(&["  ", "\t", " ", "\x0c"]),
            1 => t += s.pick(&[" a comment", "\t(abc)", " # always abc 1", "  1-2-3 x"]),
            _ => {}
        }
        t += end;
    }
    if s.chance(1, 4) {
        // the last line need not be ended
        t.truncate(t.trim_end_matches(['\r', '\n']).len());
    }
    t
}

pub const C18: Prop = Prop {
    id: "C18",
    quick: 63_000,
    thorough: 10_000_000,
    rule: "a line that is a rule is spelled differently, and the text is changed by more than its characters' definitions",
    assumptions: &["operands of multipass rules and match patterns are respelled where they have more than one spelling"],
    case: |s, ctx| {
        let mut g = Gen::new(s);
        directed(&mut g);
        if g.s.chance(1, 6) {
            // a character outside of the basic plane, and strange ones
            for c in "😀\u{1f600}\u{10ffff}\u{feff}é\u{2028}\"'\\#".chars() {
                if g.s.chance(1, 3) {
                    g.define("sign", c);
                    g.words.push(c.to_string());
                    let text: String = [c, 'a'].iter().collect();
                    let cells = Some(g.cells());
                    g.push(Op::Text { kind: "always", text, cells });
                }
            }
        }
        let a = render(&g.rules);
        let b = respell(g.s, &g.rules);
        ctx.note(format!("{a}\nas\n{b}"));
        for d in [Direction::Forward, Direction::Backward] {
            let (ta, tb) = match (sut::build(&a, d), sut::build(&b, d)) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(_), Err(_)) => {
                    ctx.label("rejected");
                    continue;
                }
                (Err(e), _) => return Err(format!("{}\nin\n{a}\nbut not in\n{b}", e.text).into()),
                (_, Err(e)) => return Err(format!("{}\nin\n{b}\nbut not in\n{a}", e.text).into()),
            };
            let f = sut::build(&a, Direction::Forward).ok();
            for _ in 0..3 {
                let text = if d == Direction::Forward { g.text(6) } else { braille(g.s, &f, &g.words, &g.used) };
                let spans = wild_spans(g.s, text.chars().count(), &g.emph);
                let out = same(ctx, "the same table spelled differently", (&a, &ta), (&b, &tb), &text, &spans)?;
                let alone: String = text.chars().map(|c| ta.tr(&c.to_string())).collect();
                if out != alone {
                    ctx.nontrivial(&(&b, &text));
                    ctx.sample(|| b.clone());
                }
            }
        }
        Ok(())
    },
    explicit: &[],
};

// ------------------------------------------------------------------------ C19

const ABSENT: &str = "жюЖ漢";

/// Rules that need one of the absent characters, or cells that appear nowhere.
fn irrelevant(g: &mut Gen, base: &[Rule]) -> Vec<Rule> {
    let mut out = vec![];
    for c in ABSENT.chars() {
        if g.s.chance(1, 2) {
            let kind = *g.s.pick(&["letter", "lowercase", "uppercase", "punctuation", "sign", "math", "digit", "litdigit", "space", "hyphen", "decpoint"]);
            g.rules.clear();
            g.define(kind, c);
            out.append(&mut g.rules);
        }
    }
    let swaps = base.iter().any(|r| matches!(&r.op, Op::Swapcc { name, .. } | Op::Swapcd { name, .. } | Op::Swapdd { name, .. } if name.starts_with("swap")));
    if !swaps {
        g.rules.clear();
        g.swaps();
        out.append(&mut g.rules);
    }
    let many = g.s.chance(1, 40);
    for _ in 0..if many { g.s.range(100, 600) } else { g.s.range(1, 6) } {
        let rules = std::mem::take(&mut g.rules);
        let absent = g.s.ch(ABSENT);
        match if many { 11 } else { g.s.below(12) } {
            0 => {
                g.match_rule();
                let fresh = vec![g.cell()];
                if let Op::Match { text, cells, .. } = &mut g.rules.last_mut().unwrap().op {
                    with(g.s, text, absent);
                    *cells = Some(fresh);
                }
            }
            1 | 2 => {
                let kind = *g.s.pick(&["context", "correct"]);
                g.multi(kind);
                if let Op::Multi { test, .. } = &mut g.rules.last_mut().unwrap().op {
                    let at = g.s.below(test.len() + 1);
                    test.insert(at, Test::Str(absent.into()));
                }
            }
            3 => {
                let kind = *g.s.pick(&["pass2", "pass3", "pass4"]);
                g.multi(kind);
                let cell = g.cell();
                if let Op::Multi { test, .. } = &mut g.rules.last_mut().unwrap().op {
                    let at = g.s.below(test.len() + 1);
                    test.insert(at, Test::Cells(vec![cell]));
                }
            }
            4 => {
                // an emphasis that the text doesn't have
                g.push(Op::Emphclass("unused".into()));
                for kind in ["begemph", "endemph", "emphletter", "begemphword", "endemphword", "begemphphrase"] {
                    if g.s.bool() {
                        let cells = g.cells();
                        g.push(Op::Emph { kind, class: "unused".into(), cells });
                    }
                }
            }
            5 if g.s.bool() => {
                // a class whose name is almost that of another
                let name = *g.s.pick(&["Vow", "VOW", "vo", "vow1", "Mix", "mixx", "Letter", "DIGIT", "Space", "Uppercase", "11", "01"]);
                if base.iter().flat_map(|r| &r.with).all(|(_, c)| c != name) && !base.iter().any(|r| matches!(&r.op, Op::Attribute { name: n, .. } if n == name)) {
                    let members = g.s.string("abcAx1. ", 1, 3);
                    g.rules.push(attribute(name, &members));
                }
            }
            5 => {
                let name = g.s.pick(&["vow", "mix", "letter", "digit", "1", "unused"]).to_string();
                g.rules.push(attribute(&name, &absent.to_string()));
            }
            6 => {
                let kind = *g.s.pick(&["noletsign", "noletsignbefore", "noletsignafter", "compbrl", "seqdelimiter", "seqbeforechars", "seqafterchars"]);
                g.rules.push(chars(kind, &absent.to_string()));
            }
            7 => {
                let from = format!("{absent}a");
                g.push(Op::Swapcc { name: "unused".into(), from, to: "ab".into() });
            }
            _ => {
                g.contraction();
                g.rules.drain(..g.rules.len() - 1);
                let r = g.rules.last_mut().unwrap();
                if let Op::Text { text, cells, kind } = &mut r.op {
                    if *kind == "midnum" {
                        // each character of a midnum goes on with a number
                        text.clear();
                    }
                    with(g.s, text, absent);
                    // all characters of an implicit translation have to be defined
                    if cells.is_none() {
                        *cells = Some(vec![]);
                    }
                }
                let fresh = vec![g.cell()];
                if let Op::Text { cells: Some(c), .. } = &mut g.rules.last_mut().unwrap().op {
                    if c.is_empty() {
                        *c = fresh;
                    }
                }
            }
        }
        out.extend(std::mem::replace(&mut g.rules, rules));
    }
    out
}
fn with(s: &mut Src, text: &mut String, c: char) {
    let mut chars: Vec<char> = text.chars().collect();
    let at = s.below(chars.len() + 1);
    if at < chars.len() && s.bool() {
        chars[at] = c;
    } else {
        chars.insert(at, c);
    }
    *text = chars.into_iter().collect();
}

pub const C19: Prop = Prop {
    id: "C19",
    quick: 90_000,
    thorough: 10_000_000,
    rule: "the added rules have something in common with the text: one of their operands begins or ends with a character of the text",
    assumptions: &["the cells of the added rules appear nowhere else in the table"],
    case: |s, ctx| {
        let mut g = Gen::new(s);
        directed(&mut g);
        let rules = g.rules.clone();
        let a = render(&rules);
        let words = g.words.clone();
        let used = g.used.clone();
        // a class without members is no condition; the added rules could give it some
        let info = Info::of(&rules);
        if rules.iter().flat_map(|r| &r.with).any(|(_, class)| info.classes.get(class).is_none_or(|c| c.is_empty())) {
            ctx.label("condition on a class without members");
            return Ok(());
        }
        if a.contains(|c| ABSENT.contains(c)) {
            ctx.label("has the absent characters");
            return Ok(());
        }
        g.fresh();
        let extras = irrelevant(&mut g, &rules);
        let mut all = rules.clone();
        if g.s.chance(1, 3) {
            for e in &extras {
                let at = g.s.below(all.len() + 1);
                all.insert(at, e.clone());
            }
        } else {
            all.extend(extras.iter().cloned());
        }
        let b = render(&all);
        ctx.note(b.clone());
        ctx.label_if(extras.len() > 255, "hundreds of rules");
        for d in [Direction::Forward, Direction::Backward] {
            let Ok(ta) = sut::build(&a, d) else {
                ctx.label("rejected");
                continue;
            };
            let tb = match sut::build(&b, d) {
                Ok(t) => t,
                Err(e) => return Err(format!("rejected because of {extras:?}: {}\n{b}", e.text).into()),
            };
            let f = sut::build(&a, Direction::Forward).ok();
            for _ in 0..3 {
                g.words = words.clone();
                let text = if d == Direction::Forward { g.text(6) } else { braille(g.s, &f, &words, &used) };
                if text.contains(|c| ABSENT.contains(c)) {
                    continue;
                }
                let spans = wild_spans(g.s, text.chars().count(), &g.emph);
                same(ctx, &format!("irrelevant: {extras:?}"), (&a, &ta), (&b, &tb), &text, &spans)?;
                let near = extras.iter().any(|r| match &r.op {
                    Op::Text { text: t, .. } | Op::Match { text: t, .. } => t.chars().next().is_some_and(|c| text.contains(c)) || t.chars().last().is_some_and(|c| text.contains(c)),
                    _ => false,
                });
                if near {
                    ctx.nontrivial(&(&b, &text));
                    ctx.sample(|| format!("{}added to\n{a}text: {text:?}", render(&extras)));
                }
            }
        }
        Ok(())
    },
    explicit: &[],
};
