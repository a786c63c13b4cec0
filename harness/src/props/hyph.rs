//! Hyphenation and `nocross`: C15.

use crate::engine::*;
use crate::generate::*;
use crate::model::{hyph::Hyph, Model, Stop};
use crate::sut::{self, Direction};
use crate::table::*;

pub struct Dic {
    pub patterns: Vec<String>,
    pub left: usize,
    pub right: usize,
    pub file: String,
}

/// A dictionary with patterns for the words of the table.
fn dictionary(g: &mut Gen) -> Dic {
    let mut d = Dic { patterns: vec![], left: 1, right: 1, file: String::new() };
    if g.s.bool() {
        d.file.push_str(*g.s.pick(&["UTF-8\n", "utf-8\n", "  UTF-8 \r\n", "Utf-8\n"]));
    } else if g.s.chance(1, 3) {
        d.file.push_str("% patterns\n");
    }
    for i in 0..g.s.range(0, 8) {
        match g.s.below(12) {
            0 => d.file.push_str(*g.s.pick(&["\n", "# a1b\n", "% 1a\n", "   \n", "#LEFTHYPHENMIN 4\n"])),
            1 => {
                d.left = g.s.below(4);
                d.file.push_str(&format!("LEFTHYPHENMIN {}\n", d.left));
            }
            2 => {
                d.right = g.s.below(4);
                d.file.push_str(&format!("RIGHTHYPHENMIN  {} \n", d.right));
            }
            _ => {
                let mut letters: Vec<char> = if g.s.chance(1, 10) {
                    // a long pattern, for a long word
                    let (c, n) = (g.s.string("abc", 1, 4), g.s.range(8, 40));
                    let mut w: String = c.repeat(n);
                    if g.s.chance(1, 3) && !g.words.is_empty() {
                        w.push_str(g.s.pick(&g.words));
                    }
                    let w: Vec<char> = w.chars().filter(|c| c.is_alphabetic()).take(n).collect();
                    let longer: String = w.iter().collect();
                    let longer = if g.s.bool() { longer } else { g.words.first().cloned().unwrap_or_default() + &longer };
                    g.words.push(longer);
                    w
                } else if !g.words.is_empty() && g.s.chance(2, 3) {
                    let w: Vec<char> = g.s.pick(&g.words).chars().filter(|c| c.is_alphabetic()).collect();
                    if w.is_empty() {
                        vec!['a']
                    } else {
                        let a = g.s.below(w.len());
                        let b = g.s.range(a + 1, w.len());
                        w[a..b].to_vec()
                    }
                } else {
                    g.s.string("abcé", 1, 3).chars().collect()
                };
                if g.s.chance(1, 5) {
                    letters.insert(0, '.');
                }
                if g.s.chance(1, 5) {
                    letters.push('.');
                }
                if letters.len() > 1 && g.s.chance(1, 16) {
                    // a mark of a comment, but not at the beginning
                    letters.insert(1, *g.s.pick(&['%', '#', '\'', '-']));
                }
                let mut p = String::new();
                let mut nonzero = false;
                for (k, c) in letters.iter().enumerate() {
                    if k > 0 || *c != '.' {
                        let n = if g.s.chance(1, 2) { g.s.below(10) } else { 0 };
                        if n > 0 {
                            nonzero = true;
                            p.push_str(&n.to_string());
                        } else if g.s.chance(1, 12) {
                            p.push('0');
                        }
                    }
                    p.push(*c);
                }
                if !nonzero {
                    p = if letters.last() == Some(&'.') || g.s.bool() {
                        // before the last character
                        let last = p.pop().unwrap();
                        format!("{p}{}{last}", g.s.range(1, 9))
                    } else {
                        format!("{p}{}", g.s.range(1, 9))
                    };
                }
                if i == 0 && d.file.is_empty() && p.eq_ignore_ascii_case("utf-8") {
                    continue;
                }
                d.file.push_str(&p);
                d.file.push_str(*g.s.pick(&["\n", "\n", "\n", " \n", "\r\n"]));
                d.patterns.push(p);
            }
        }
    }
    d
}

/// The rules of a table with nocross contractions, and a dictionary.
fn table(g: &mut Gen) {
    g.base();
    if g.s.chance(1, 4) {
        g.attributes();
    }
    for _ in 0..g.s.range(1, 5) {
        g.contraction();
        if g.s.chance(2, 3) {
            g.nocross();
        }
    }
    if g.s.chance(1, 3) {
        // the same with and without the mark
        let w = g.word("abc", 2, 4);
        for nocross in [true, false] {
            let cells = Some(g.cells());
            g.rules.push(Rule { dir: Dir::Both, nocross, with: vec![], op: Op::Text { kind: "always", text: w.clone(), cells } });
        }
    }
    if g.s.chance(1, 8) {
        g.numbers();
    }
    if g.s.chance(1, 8) {
        g.computer_braille();
    }
    if g.s.chance(1, 8) {
        g.match_rule();
    }
}

fn long_word(g: &mut Gen) -> String {
    let mut t = String::new();
    for _ in 0..g.s.range(1, 5) {
        match g.s.below(6) {
            0 => t.push(g.any_char()),
            1 => t += &g.s.string("abc", 1, 4),
            _ if !g.words.is_empty() => t += g.s.pick(&g.words),
            _ => t.push('a'),
        }
    }
    t
}

pub const C15: Prop = Prop {
    id: "C15",
    quick: 250_000,
    thorough: 8_000_000,
    rule: "a nocross rule was applied in a word that has a hyphenation point, or was prevented by one",
    assumptions: &[
        "the dictionary is a file in UTF-8 that the table includes; a later dictionary replaces an earlier one",
        "words are matched with the dictionary as they are written (no change of case)",
        "rules that are as good with as without the mark but give different results are discarded",
    ],
    case: |s, ctx| {
        let mut g = Gen::new(s);
        table(&mut g);
        if g.s.chance(1, 5) {
            return without(&mut g, ctx);
        }
        let mut dic = dictionary(&mut g);
        let mut texts = vec![];
        for _ in 0..6 {
            texts.push(if g.s.bool() { long_word(&mut g) } else { g.text(8) });
        }
        // other letters in the place of some
        let map = renaming(g.s);
        rename(&map, &mut g.rules);
        texts = texts.rename(&map);
        let letters: Renaming = map.into_iter().filter(|m| m.0.is_lowercase()).collect();
        dic.patterns = dic.patterns.rename(&letters);
        dic.file = renamed(&letters, &dic.file);
        let dir = ctx.scratch.clone();
        let write = |name: &str, s: &str| std::fs::write(dir.join(name), s).map_err(|e| Fail::new(format!("harness: {e}")));
        write("h.dic", &dic.file)?;
        let rules = render(&g.rules);
        let cut = rules.match_indices('\n').map(|m| m.0 + 1).nth(g.s.below(g.rules.len())).unwrap_or(0);
        let mut main = String::new();
        if g.s.chance(1, 6) {
            // an earlier dictionary
            write("first.dic", "UTF-8\n1a1b1c1\n1a1a1\n")?;
            main.push_str("include first.dic\n");
        }
        let include = if g.s.chance(1, 6) {
            write("inner.cti", "include h.dic\n")?;
            "include inner.cti\n"
        } else {
            "include h.dic\n"
        };
        main = main + &rules[..cut] + include + &rules[cut..];
        write("main.ctb", &main)?;
        ctx.note(format!("table:\n{main}dictionary:\n{}texts: {texts:?}", dic.file));
        let hyph = Hyph::of(&dic.patterns, dic.left, dic.right);
        let model = match Model::new(&g.rules, Some(hyph.clone())) {
            Ok(m) => m,
            Err(Stop::Discard(why)) => {
                ctx.label(&format!("discarded: {why}"));
                return Ok(());
            }
            Err(Stop::Reject(why)) => {
                return match sut::build_files(&[dir.join("main.ctb")], Direction::Forward) {
                    Ok(_) => Err(format!("accepted although {why}:\n{main}").into()),
                    Err(_) => Ok(()),
                };
            }
        };
        let t = sut::build_files(&[dir.join("main.ctb")], Direction::Forward)
            .map_err(|e| Fail::new(format!("rejected: {}\n{}", e.text, ctx.note)))?;
        for text in &texts {
            ctx.eval();
            match model.forward(text, &[]) {
                Err(Stop::Discard(why)) => ctx.label(&format!("discarded: {why}")),
                Err(Stop::Reject(why)) => return Err(format!("harness: {why}").into()),
                Ok(tr) => {
                    let actual = t.tr(text);
                    if actual != tr.output {
                        let used: Vec<String> =
                            tr.used.iter().map(|(r, a, l)| format!("  {}..{}: {}", a, a + l, model.rule(*r))).collect();
                        return Err(format!(
                            "table:\n{main}dictionary:\n{}text: {text:?}\nexpected: {}\nactual:   {actual}\nexpected rules:\n{}",
                            dic.file,
                            tr.output,
                            used.join("\n")
                        )
                        .into());
                    }
                    // what would it be without the dictionary?
                    let free = Model::new(&g.rules, None).ok().and_then(|m| m.forward(text, &[]).ok());
                    let prevented = free.is_some_and(|f| f.output != tr.output);
                    let applied = tr.used.iter().any(|(r, _, l)| *l > 1 && model.rule(*r).nocross);
                    let chars: Vec<char> = text.chars().collect();
                    let points = !model.hyphenation_points(&chars).is_empty();
                    ctx.label_if(prevented, "prevented");
                    ctx.label_if(applied && points, "applied between points");
                    if prevented || applied && points {
                        ctx.nontrivial(&(&main, &dic.file, text));
                        ctx.sample(|| format!("{main}dictionary:\n{}text: {text:?}\ntranslation: {actual}", dic.file));
                    }
                }
            }
        }
        Ok(())
    },
    explicit: &[("bad_dictionaries", |ctx| {
        let dir = ctx.scratch.clone();
        let bad: &[(&str, &[u8])] = &[
            ("no number", b"UTF-8\nabc\n"),
            ("no number", b"UTF-8\na0b\n"),
            ("no number", b"UTF-8\n...\n"),
            ("left", b"UTF-8\nLEFTHYPHENMIN x\n"),
            ("left", b"UTF-8\nLEFTHYPHENMIN -1\n"),
            ("right", b"UTF-8\nRIGHTHYPHENMIN\n"),
            ("encoding", b"ISO8859-1\na1b\n"),
            ("bytes", b"UTF-8\na1\xff\n"),
        ];
        for (what, bytes) in bad {
            ctx.eval();
            std::fs::write(dir.join("bad.dic"), bytes).unwrap();
            std::fs::write(dir.join("bad.ctb"), "letter a 1\ninclude bad.dic\n").unwrap();
            if sut::build_files(&[dir.join("bad.ctb")], Direction::Forward).is_ok() {
                return Err(format!("a bad dictionary is accepted: {what}: {bytes:?}").into());
            }
        }
        std::fs::write(dir.join("none.ctb"), "letter a 1\ninclude nowhere.dic\n").unwrap();
        if sut::build_files(&[dir.join("none.ctb")], Direction::Forward).is_ok() {
            return Err(Fail::new("a dictionary that does not exist is accepted".to_string()));
        }
        Ok(())
    })],
};

/// Without a dictionary the mark changes nothing.
fn without(g: &mut Gen, ctx: &mut Ctx) -> Outcome {
    let marked = g.rules.clone();
    let mut unmarked = marked.clone();
    for r in &mut unmarked {
        r.nocross = false;
    }
    let (a, b) = (render(&marked), render(&unmarked));
    let (Ok(ma), Ok(_)) = (Model::new(&marked, None), Model::new(&unmarked, None)) else {
        return Ok(());
    };
    ctx.label("without a dictionary");
    let (ta, tb) = (sut::forward(&a)?, sut::forward(&b)?);
    for _ in 0..6 {
        let text = g.text(8);
        ctx.eval();
        if ma.forward(&text, &[]).is_err() {
            ctx.label("discarded");
            continue;
        }
        if ta.tr(&text) != tb.tr(&text) {
            return Err(format!("nocross matters without a dictionary:\n{a}text: {text:?}\nmarked:   {}\nunmarked: {}", ta.tr(&text), tb.tr(&text)).into());
        }
    }
    Ok(())
}
