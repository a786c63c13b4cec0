//! Back-translation: C16, C27.

use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::model::{Model, Translated, kind_of};
use crate::sut;
use crate::table::*;

// ------------------------------------------------------------------------ C16

const LETTERS: &str = "abcdeéz";

/// A table whose cells can be read in only one way.
struct Unique {
    rules: Vec<Rule>,
    /// what texts can be made of
    words: Vec<String>,
    punctuation: String,
    digits: bool,
    /// a word sign for capitals, and a sign for its end
    caps: bool,
    capsword: bool,
    capsend: bool,
    /// a sign between a number and a letter
    numend: bool,
    /// what can stand between two digits of a number
    mid: Vec<char>,
}

fn unique(g: &mut Gen) -> Unique {
    let mut u = Unique {
        rules: vec![],
        words: vec![],
        punctuation: String::new(),
        digits: false,
        caps: false,
        capsword: false,
        capsend: false,
        numend: false,
        mid: vec![],
    };
    g.rules.push(def("space", ' ', vec![0]));
    let letters: Vec<char> = LETTERS.chars().collect();
    let mut cells = vec![];
    let kind = *g.s.pick(&["letter", "lowercase"]);
    for c in &letters {
        let cell = g.cell();
        cells.push(cell);
        g.rules.push(def(kind, *c, vec![cell]));
    }
    if g.s.chance(2, 3) {
        u.caps = true;
        for c in &letters {
            let derived = c.to_uppercase().next().unwrap();
            g.push(Op::Base { class: "uppercase".into(), derived, base: *c });
        }
        let sign = g.cell();
        g.rules.push(crate::table::sign("capsletter", vec![sign]));
        u.capsword = g.s.chance(2, 3);
        if u.capsword {
            let cells = if g.s.bool() { vec![sign, sign] } else { vec![g.cell()] };
            g.rules.push(crate::table::sign("begcapsword", cells));
            if g.s.chance(2, 3) {
                u.capsend = true;
                let c = g.cell();
                let cells = if g.s.bool() { vec![sign, c] } else { vec![c] };
                g.rules.push(crate::table::sign("endcapsword", cells));
            }
        }
    }
    for c in ".,(-".chars() {
        if g.s.chance(2, 3) {
            let cell = g.cell();
            let kind = *g.s.pick(&["punctuation", "punctuation", "sign", "math"]);
            g.rules.push(def(kind, c, vec![cell]));
            u.punctuation.push(c);
        }
    }
    if g.s.chance(2, 3) {
        u.digits = true;
        let kind = if g.s.chance(1, 4) { "digit" } else { "litdigit" };
        let share = kind == "litdigit" && g.s.chance(3, 4);
        for (i, c) in "123456".chars().enumerate() {
            let cell = if share { cells[i] } else { g.cell() };
            g.rules.push(def(kind, c, vec![cell]));
        }
        if kind == "litdigit" {
            let n = g.cell();
            g.rules.push(crate::table::sign("numsign", vec![n]));
            if g.s.chance(2, 3) {
                let m = g.cell();
                g.rules.push(crate::table::sign("nonumsign", vec![m]));
                g.rules.push(chars("numericnocontchars", LETTERS));
                u.numend = true;
            }
        }
        u.numend |= !share;
        if kind == "litdigit" {
            let mode = g.s.bool();
            for c in u.punctuation.chars() {
                match g.s.below(4) {
                    0 | 1 if mode => g.rules.push(chars("numericmodechars", &c.to_string())),
                    0 | 1 => {
                        // a midnum rule stands between characters of the class digit
                        for d in "123456".chars() {
                            let cells = def_cells(&g.rules, d);
                            g.rules.push(def("digit", d, cells));
                        }
                        let own = def_cells(&g.rules, c);
                        let cells = if g.s.bool() { own } else { vec![g.cell()] };
                        g.rules.push(crate::table::text("midnum", &c.to_string(), cells));
                    }
                    _ => continue,
                }
                u.mid.push(c);
            }
            if !mode && g.s.chance(1, 4) {
                let cell = g.cell();
                g.rules.push(def("decpoint", ':', vec![cell]));
                u.mid.push(':');
            }
        }
    }
    let prefix = g.cell();
    for _ in 0..g.s.below(6) {
        let kind = *g.s.pick(&[
            "always", "always", "always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword",
            "lowword",
        ]);
        let text = g.s.string("abcde", if kind == "always" { 2 } else { 1 }, 4);
        let cells = if g.s.chance(1, 3) { vec![prefix, *g.s.pick(&cells)] } else { vec![g.cell()] };
        if g.rules.iter().any(|r| matches!(&r.op, Op::Text { cells: Some(c), .. } if *c == cells)) {
            continue;
        }
        u.words.push(text.clone());
        g.rules.push(crate::table::text(kind, &text, cells));
    }
    if g.s.chance(1, 3) {
        let mut rules = std::mem::take(&mut g.rules);
        g.s.shuffle(&mut rules);
        // of two characters with the same cells the first one is read
        rules.sort_by_key(|r| matches!(r.op, Op::Base { .. }));
        g.rules = rules;
    }
    u.rules = std::mem::take(&mut g.rules);
    u
}

fn capital(c: char) -> char {
    c.to_uppercase().next().unwrap()
}

fn def_cells(rules: &[Rule], c: char) -> Vec<Cell> {
    rules.iter().find_map(|r| match &r.op { Op::Def { c: d, cells, .. } if *d == c => Some(cells.clone()), _ => None }).unwrap()
}

/// A text that the table can write and read back.
fn readable(s: &mut Src, u: &Unique) -> String {
    let mut t = String::new();
    for _ in 0..s.range(1, 5) {
        let after_letter = t.chars().last().is_some_and(|c| c.is_alphabetic());
        let after_digit = t.trim_end_matches(|c| u.mid.contains(&c)).ends_with(|c: char| c.is_ascii_digit());
        let after_mid = after_digit && t.ends_with(|c| u.mid.contains(&c));
        match s.below(6) {
            // a number; not directly after a letter
            0 if u.digits && !after_letter => {
                t += &s.string("123456", 1, 3);
                while !u.mid.is_empty() && s.chance(1, 2) {
                    t.push(*s.pick(&u.mid));
                    t += &s.string("123456", 1, 2);
                }
            }
            1 if !u.punctuation.is_empty() => {
                let p: Vec<char> = u.punctuation.chars().collect();
                t.push(*s.pick(&p));
            }
            2 => t.push(' '),
            _ => {
                if after_digit && !u.numend || after_mid || after_letter {
                    t.push(' ');
                }
                let mut w = String::new();
                for _ in 0..s.range(1, 3) {
                    if !u.words.is_empty() && s.chance(2, 3) {
                        w += s.pick(&u.words);
                    } else {
                        w += &s.string(LETTERS, 1, 2);
                    }
                }
                let mut w: Vec<char> = w.chars().collect();
                if u.caps {
                    match s.below(4) {
                        0 => w[0] = capital(w[0]),
                        1 => w = w.into_iter().map(capital).collect(),
                        2 if u.capsend || !u.capsword => {
                            for c in w.iter_mut() {
                                if s.bool() {
                                    *c = capital(*c);
                                }
                            }
                        }
                        _ => {}
                    }
                }
                t.extend(w);
            }
        }
    }
    t
}

/// Contractions that depend on the letters around them are recognized between the cells of letters
/// and of contractions that can stand anywhere, and a word sign for capitals ends at their cells.
fn legible(m: &Model, tr: &Translated, text: &str) -> bool {
    let chars: Vec<char> = text.chars().collect();
    let upper = |i: usize| chars.get(i).is_some_and(|c| c.is_uppercase());
    let special = |r: usize| CONTRACTIONS.contains(&m.kind(r)) && m.kind(r) != "always";
    tr.used.windows(2).all(|w| !(special(w[0].0) && CONTRACTIONS.contains(&m.kind(w[1].0)) || special(w[1].0) && CONTRACTIONS.contains(&m.kind(w[0].0))))
        && tr.used.iter().all(|(r, at, len)| !special(*r) || (at + 1..=at + len).all(|i| !upper(i)) && !(upper(*at) && *at > 0 && upper(at - 1)))
}

pub const C16: Prop = Prop {
    id: "C16",
    quick: 270_000,
    thorough: 20_000_000,
    rule: "the text has a capital letter, a number whose digits share cells with letters, or is shortened by a contraction",
    assumptions: &[
        "each character and contraction has cells of its own, that begin no others",
        "numbers do not follow a letter directly: a number sign after a letter is read as a letter, as documented in the code",
    ],
    case: |s, ctx| {
        let mut g = Gen::new(s);
        let u = unique(&mut g);
        let table = render(&u.rules);
        let (f, b) = (sut::forward(&table)?, sut::backward(&table)?);
        let Ok(model) = Model::new(&u.rules, None) else { return Err(format!("harness: no model of\n{table}").into()) };
        for _ in 0..8 {
            let text = readable(g.s, &u);
            let Ok(tr) = model.forward(&text, &[]) else {
                ctx.label("not readable: capital inside of a contraction");
                continue;
            };
            if !legible(&model, &tr, &text) {
                ctx.label("not readable: contractions next to each other");
                continue;
            }
            ctx.eval();
            let braille = f.tr(&text);
            let back = b.tr(&braille);
            if back != text {
                return Err(format!("table:\n{table}text:    {text:?}\nbraille: {braille}\nback:    {back:?}").into());
            }
            let shorter = braille.chars().count() < text.chars().count();
            let caps = text.chars().any(|c| c.is_uppercase());
            let numbers = text.chars().any(|c| c.is_ascii_digit());
            ctx.label_if(shorter, "contracted");
            ctx.label_if(caps, "capitals");
            ctx.label_if(numbers, "numbers");
            if shorter || caps || numbers {
                ctx.nontrivial(&(&table, &text));
                ctx.sample(|| format!("{table}text: {text:?}\nbraille: {braille}"));
            }
        }
        Ok(())
    },
    explicit: &[
        ("digit_defined_before_letter", |ctx| round_trip(ctx, "litdigit 1 1\nletter a 1\nnumsign 3456\n", &["1", "a"])),
        ("word_after_capital_sign", |ctx| {
            let t = "space \\s 0\nletter a 1\nletter b 12\nbase uppercase A a\nbase uppercase B b\ncapsletter 6\nbegword ab 45\n";
            round_trip(ctx, t, &["ab", "Ab", "a Ab"])
        }),
        ("decimal_number", |ctx| {
            let t = "letter a 1\nletter b 12\nlitdigit 1 1\nlitdigit 2 12\nnumsign 3456\nspace \\s 0\n";
            round_trip(ctx, &format!("{t}punctuation . 256\nnumericmodechars .\n"), &["1.2", "1..2", "1. 2"])?;
            round_trip(ctx, &format!("{t}punctuation . 256\nmidnum . 256\n"), &["1.2", "1. 2"])?;
            round_trip(ctx, &format!("{t}decpoint . 256\n"), &["1.2", "1. 2"])
        }),
    ],
};

fn round_trip(ctx: &mut Ctx, table: &str, texts: &[&str]) -> Outcome {
    let (f, b) = (sut::forward(table)?, sut::backward(table)?);
    for text in texts {
        ctx.eval();
        let braille = f.tr(text);
        let back = b.tr(&braille);
        if back != *text {
            return Err(format!("table:\n{table}text:    {text:?}\nbraille: {braille}\nback:    {back:?}").into());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C27

/// One direction for some of the rules.
pub fn directed(g: &mut Gen) {
    let n = *g.s.pick(&[0, 0, 1, 4]);
    for i in 0..g.rules.len() {
        if g.s.chance(n, 16) && super::meta::takes_direction(kind_of(&g.rules[i])) {
            g.rules[i].dir = if g.s.bool() { Dir::NoFor } else { Dir::NoBack };
        }
    }
}

pub const C27: Prop = Prop {
    id: "C27",
    quick: 125_000,
    thorough: 15_000_000,
    rule: "a contraction, a capital, a digit that shares its cell with a letter, or a rule of another stage took part",
    assumptions: &[
        "equally good patterns with different results have no documented order and are discarded",
        "two digits with the same cells, and insertions between capitals are discarded: no documented result",
        "built with the default feature backwards_compatibility",
    ],
    case: |s, ctx| {
        if s.chance(1, 6) {
            let (rules, words, _) = crate::real::excerpt(s);
            let there = sut::build(&render(&rules), sut::Direction::Forward).ok();
            let mut texts = vec![];
            for _ in 0..4 {
                let t = crate::real::prose(s, &words);
                texts.push(there.as_ref().map_or(t.clone(), |f| f.tr(&t)));
            }
            ctx.label("rules of liblouis");
            agree_back(ctx, &rules, &texts)?;
            return Ok(());
        }
        let mut g = Gen::new(s);
        g.mixed();
        if g.s.chance(1, 2) {
            g.numbers();
            // digits with the cells of letters
            let letters: Vec<Vec<Cell>> = g
                .rules
                .iter()
                .filter_map(|r| match &r.op {
                    Op::Def { kind: "lowercase" | "letter", cells, .. } => Some(cells.clone()),
                    _ => None,
                })
                .collect();
            let mut n = 0;
            for r in &mut g.rules {
                if let Op::Def { kind: "litdigit" | "digit", c, cells } = &mut r.op
                    && let Some(l) = letters.get((*c as usize).wrapping_sub('1' as usize))
                {
                    *cells = l.clone();
                    n += 1;
                }
            }
            ctx.label_if(n > 0, "table: digits with cells of letters");
        }
        for _ in 0..g.s.below(4) {
            g.contraction();
            if g.s.chance(1, 8) {
                g.nocross();
            }
        }
        if g.s.chance(1, 3) {
            g.share_cells();
        }
        directed(&mut g);
        if g.s.chance(1, 4) {
            let mut rules = std::mem::take(&mut g.rules);
            g.s.shuffle(&mut rules);
            g.rules = rules;
        }
        let there = if g.s.chance(1, 2) { sut::build(&render(&g.rules), sut::Direction::Forward).ok() } else { None };
        let mut texts = vec![];
        for _ in 0..8 {
            match &there {
                Some(t) if g.s.chance(2, 3) => {
                    let text = if g.s.bool() { g.caps_text(8) } else { g.text(8) };
                    texts.push(t.tr(&text));
                }
                _ => texts.push(g.braille(10)),
            }
        }
        // braille only: what passes as a character is not read
        texts.retain(|t| t.chars().all(|c| ('\u{2800}'..'\u{2900}').contains(&c) || c as u32 >= 0xe000));
        let (rules, texts) = g.done(texts);
        let Some((model, read)) = agree_back(ctx, &rules, &texts)? else { return Ok(()) };
        for (text, tr) in read {
            let mut features = std::collections::BTreeSet::new();
            for (r, _, _) in &tr.used {
                let k = model.kind(*r);
                ctx.label(k);
                if CONTRACTIONS.contains(&k) || k == "contraction" || k == "context" {
                    features.insert("rule");
                }
            }
            for (_, r, _, _) in &tr.used_multi {
                features.insert(model.kind(*r));
                ctx.label(model.kind(*r));
            }
            for (_, w) in &tr.indications {
                features.insert(w);
                ctx.label(&format!("read as {w}"));
            }
            ctx.label_if(tr.undefined > 0, "undefined cell");
            if !features.is_empty() {
                ctx.nontrivial(&(render(&rules), &text));
                ctx.sample(|| format!("{}braille: {text}\ntext: {:?}", render(&rules), tr.output));
            }
        }
        Ok(())
    },
    explicit: &[
        ("prepunc_does_not_hide_a_definition", |ctx| {
            reads(ctx, "punctuation ( 12356\npunctuation ? 236\nletter a 1\n", "⠦⠁", "?a")?;
            reads(ctx, "prepunc ( 236\npunctuation ( 12356\npunctuation ? 236\nletter a 1\n", "⠦⠁", "?a")
        }),
    ],
};
