//! Forward translation against the reference model.

use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::model::Translated;
use crate::real;
use crate::sut::Span;
use crate::table::*;

const ASSUME: &[&str] = &[
    "texts of rules are lower case, as in the tables of liblouis",
    "equally good patterns with different results have no documented order and are discarded",
    "built with the default feature backwards_compatibility",
];

fn plain(texts: Vec<String>) -> Vec<(String, Vec<Span>)> {
    texts.into_iter().map(|t| (t, vec![])).collect()
}

fn shuffled(g: &mut Gen) {
    if g.s.chance(1, 3) {
        let mut rules = std::mem::take(&mut g.rules);
        g.s.shuffle(&mut rules);
        g.rules = rules;
    }
}

fn finish(
    ctx: &mut Ctx,
    rules: &[Rule],
    texts: &[(String, Vec<Span>)],
    interesting: impl Fn(&Agreed, &crate::model::Translated) -> bool,
) -> Outcome {
    if let Some(a) = agree(ctx, rules, texts)? {
        for (text, spans, tr) in &a.texts {
            for (r, _, _) in &tr.used {
                ctx.label(a.model.kind(*r));
            }
            for (_, r, _, _) in &tr.used_multi {
                ctx.label(a.model.kind(*r));
            }
            for (_, what) in &tr.indications {
                ctx.label(what);
            }
            if interesting(&a, tr) {
                ctx.nontrivial(&(render(rules), text, show_spans(spans)));
                ctx.sample(|| format!("{}text: {text:?}{}\ntranslation: {}", render(rules), show_spans(spans), tr.output));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C06

pub const C06: Prop = Prop {
    id: "C06",
    quick: 420_000,
    thorough: 20_000_000,
    rule: "the text has a character that is defined more than once, derived from another one, or not defined at all",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        for _ in 0..g.s.below(6) {
            let c = match g.s.below(3) {
                0 => g.s.scalar(),
                1 => g.any_char(),
                _ => g.s.ch("\\x0123456789abcdef"),
            };
            g.words.push(c.to_string());
            match g.s.below(4) {
                0 => {
                    let derived = g.any_char();
                    g.words.push(derived.to_string());
                    let class = g.s.pick(&["uppercase", "lowercase", "accent"]).to_string();
                    g.push(Op::Base { class, derived, base: c });
                }
                _ => {
                    let kind = *g.s.pick(&[
                        "letter", "lowercase", "uppercase", "digit", "litdigit", "punctuation", "sign", "math", "space",
                        "hyphen", "decpoint",
                    ]);
                    g.define(kind, c);
                }
            }
        }
        shuffled(&mut g);
        let mut texts = vec![];
        for _ in 0..4 {
            let mut t = g.text(8);
            for _ in 0..g.s.below(4) {
                t.push(g.s.scalar());
            }
            texts.push(t);
        }
        let (rules, texts) = g.done(texts);
        let defs: Vec<(char, usize)> = {
            let mut m = std::collections::BTreeMap::new();
            for r in &rules {
                match &r.op {
                    Op::Def { c, .. } => *m.entry(*c).or_insert(0) += 1,
                    Op::Base { derived, .. } => *m.entry(*derived).or_insert(0) += 2,
                    _ => {}
                }
            }
            m.into_iter().collect()
        };
        finish(ctx, &rules, &plain(texts), |a, tr| {
            tr.undefined > 0
                || a.texts.iter().any(|(t, _, _)| t.chars().any(|c| defs.iter().any(|d| d.0 == c && d.1 > 1)))
        })
    },
    explicit: &[("nine_is_not_three", |ctx| {
        // the code of an undefined character is unambiguous
        ctx.eval();
        let t = crate::sut::forward("space \\s 0\n")?;
        let (a, b) = (t.tr("\u{3039}"), t.tr("\u{9033}"));
        if t.tr("\u{3030}") == t.tr("\u{9030}") {
            return Err(format!("two undefined characters have the same code: {a} {b}").into());
        }
        Ok(())
    })],
};

// ------------------------------------------------------------------------ C07

pub const C07: Prop = Prop {
    id: "C07",
    quick: 350_000,
    thorough: 20_000_000,
    rule: "a contraction with two or more characters was applied",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        g.attributes();
        g.long = g.s.chance(1, 12);
        for _ in 0..g.s.range(1, 10) {
            g.contraction();
            if g.s.chance(1, 5) {
                g.nocross();
            }
        }
        g.spice(&[]);
        shuffled(&mut g);
        let texts: Vec<String> = (0..6).map(|_| g.text(10)).collect();
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &plain(texts), |a, tr| {
            tr.used.iter().any(|(r, _, l)| *l > 1 && CONTRACTIONS.contains(&a.model.kind(*r)))
        })
    },
    explicit: &[
        ("first_of_two_wins", |ctx| {
            example(ctx, "letter a 1\nletter b 12\nalways ab 3\nalways ab 4\n", "ab", &[], "⠄")
        }),
        ("tie_by_table_order", |ctx| {
            let l = "letter a 1\nletter e 15\nletter d 145\n";
            example(ctx, &format!("{l}endword ed 1246\nmidendword ed 5\n"), "aed", &[], "⠁⠫")?;
            example(ctx, &format!("{l}midendword ed 5\nendword ed 1246\n"), "aed", &[], "⠁⠐")
        }),
        ("after_uppercase", |ctx| {
            let t = "lowercase a 1\nlowercase b 12\nbase uppercase A a\nafter uppercase always b 6\n";
            example(ctx, t, "Ab", &[], "⠁⠠")?;
            example(ctx, t, "ab", &[], "⠁⠃")
        }),
    ],
};

// ------------------------------------------------------------------------ C08

pub const C08: Prop = Prop {
    id: "C08",
    quick: 420_000,
    thorough: 20_000_000,
    rule: "a number sign was written, or a contraction was suppressed in a number",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        g.numbers();
        for _ in 0..g.s.below(4) {
            let kind = *g.s.pick(&["always", "begnum", "midnum", "endnum", "word", "midword"]);
            let text = g.word("12a.-", 1, 3);
            let cells = Some(g.cells());
            g.push(Op::Text { kind, text, cells });
        }
        g.spice(&["numbers"]);
        shuffled(&mut g);
        let texts: Vec<String> = (0..6).map(|_| g.text(10)).collect();
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &plain(texts), |_, tr| tr.indicated("numsign"))
    },
    explicit: &[
        ("nocross_in_a_number", |ctx| {
            let t = "litdigit 1 2\nlitdigit 2 23\nnumsign 3456\nnocross always 12 6\n";
            example(ctx, t, "12", &[], "⠼⠂⠆")
        }),
    ],
};

// ------------------------------------------------------------------------ C09

pub const C09: Prop = Prop {
    id: "C09",
    quick: 315_000,
    thorough: 20_000_000,
    rule: "a sign for capitals was written",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        g.capitals();
        for _ in 0..g.s.below(3) {
            g.contraction();
            if g.s.chance(1, 5) {
                g.nocross();
            }
        }
        g.spice(&["capitals"]);
        shuffled(&mut g);
        let texts: Vec<String> = (0..6).map(|_| if g.s.chance(1, 4) { g.text(10) } else { g.caps_text(14) }).collect();
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &plain(texts), |_, tr| !tr.indications.is_empty())
    },
    explicit: &[
        ("capital_inside_a_contraction", |ctx| {
            let t = "lowercase f 124\nlowercase o 135\nbase uppercase O o\ncapsletter 6\nalways foo 123456\n";
            has_sign(ctx, t, "fOo", &[], '⠠')
        }),
    ],
};

// ------------------------------------------------------------------------ C10

pub const C10: Prop = Prop {
    id: "C10",
    quick: 315_000,
    thorough: 20_000_000,
    rule: "a sign for emphasis was written",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        g.emphasis();
        if g.s.chance(1, 4) {
            g.capitals();
        }
        for _ in 0..g.s.weighted(&[3, 1, 1]) {
            g.contraction();
            if g.s.chance(1, 5) {
                g.nocross();
            }
        }
        g.spice(&["capitals"]);
        shuffled(&mut g);
        let mut texts = vec![];
        for _ in 0..6 {
            let t = match g.s.below(3) {
                0 => g.text(8),
                1 => g.caps_text(10),
                _ => g.s.string("ab  .-", 1, 12),
            };
            let names = g.emph.clone();
            let spans = g.spans(t.chars().count(), &names);
            texts.push((t, spans));
        }
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &texts, |_, tr| tr.indications.iter().any(|i| i.1.contains("emph")))
    },
    explicit: &[
        ("end_before_begin", |ctx| {
            let mut t = String::from("letter a 1\nletter b 12\nemphclass bold\nemphclass italic\n");
            t += "begemph bold 46\nendemph bold 46-3\nbegemph italic 56\nendemph italic 56-3\n";
            example(ctx, &t, "ab", &[span("italic", 0..1), span("bold", 1..2)], "⠰⠁⠰⠄⠨⠃⠨⠄")
        }),
        ("nested_by_end", |ctx| {
            let mut t = String::from("space \\s 0\nletter a 1\nletter b 12\nemphclass bold\nemphclass italic\n");
            t += "begemph bold 46\nendemph bold 46-3\nbegemph italic 56\nendemph italic 56-3\n";
            example(ctx, &t, "ab ", &[span("bold", 0..3), span("italic", 0..2)], "⠰⠨⠁⠃⠨⠄⠰⠄⠀")
        }),
        ("emphasis_inside_a_contraction", |ctx| {
            let t = "letter a 1\nletter b 12\nletter c 14\nemphclass bold\nbegemph bold 46\nendemph bold 46-3\nalways abc 6\n";
            has_sign(ctx, t, "abc", &[span("bold", 1..2)], '⠨')
        }),
    ],
};

// ------------------------------------------------------------------------ C11

pub const C11: Prop = Prop {
    id: "C11",
    quick: 450_000,
    thorough: 20_000_000,
    rule: "a part of the text is in computer braille",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        g.computer_braille();
        for _ in 0..g.s.below(5) {
            g.contraction();
            if g.s.chance(1, 3) {
                g.nocross();
            }
        }
        if g.s.chance(1, 4) {
            g.numbers();
        }
        g.spice(&["compbrl", "numbers"]);
        shuffled(&mut g);
        let mut texts = vec![];
        for _ in 0..6 {
            let t = g.text(8);
            let mut spans = g.spans(t.chars().count(), &["computer_braille".into(), "bold".into()]);
            if g.s.chance(1, 2) {
                spans.clear();
            }
            texts.push((t, spans));
        }
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &texts, |a, tr| {
            tr.indicated("begcomp") || a.texts.iter().any(|x| x.1.iter().any(|s| s.0 == "computer_braille"))
        })
    },
    explicit: &[
        ("blank_in_trigger", |ctx| {
            let t = "space \\s 0\nletter a 1\nbegcomp 456\nendcomp 456\ncompbrl \\sa\n";
            example(ctx, t, "a a", &[], "⠁⠀⠁")
        }),
        ("regions_that_overlap", |ctx| {
            let t = "letter a 1\nletter b 12\nbegcomp 456\nendcomp 46\ncompbrl b\n";
            example(ctx, t, "aba", &[span("computer_braille", 0..1)], "⠸⠁⠃⠁⠨")?;
            let t = "letter a 1\nbegcomp 456\nendcomp 46\n";
            example(ctx, t, "aaa", &[span("computer_braille", 1..3), span("computer_braille", 0..2)], "⠸⠁⠁⠁⠨")?;
            example(ctx, t, "aa", &[span("computer_braille", 1..2), span("computer_braille", 0..1)], "⠸⠁⠁⠨")
        }),
        ("no_nocross", |ctx| {
            let t = "letter a 1\nletter b 12\nnocross always ab 3\n";
            example(ctx, t, "ab", &[span("computer_braille", 0..2)], "⠁⠃")?;
            example(ctx, t, "ab", &[], "⠄")
        }),
    ],
};

// ------------------------------------------------------------------------ C12

pub const C12: Prop = Prop {
    id: "C12",
    quick: 420_000,
    thorough: 20_000_000,
    rule: "a letter sign or a sign for no contraction was written",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        g.letter_signs();
        for _ in 0..g.s.below(4) {
            g.contraction();
            if g.s.chance(1, 5) {
                g.nocross();
            }
        }
        if g.s.chance(1, 4) {
            g.capitals();
        }
        g.spice(&["letters", "capitals"]);
        shuffled(&mut g);
        let texts: Vec<String> = (0..6).map(|_| if g.s.bool() { g.text(8) } else { g.s.string("abA 1.-(", 1, 8) }).collect();
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &plain(texts), |_, tr| tr.indicated("letsign") || tr.indicated("nocontractsign"))
    },
    explicit: &[],
};

// ------------------------------------------------------------------------ C13

pub const C13: Prop = Prop {
    id: "C13",
    quick: 240_000,
    thorough: 15_000_000,
    rule: "a match rule was applied",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        g.attributes();
        for _ in 0..g.s.range(1, 4) {
            g.match_rule();
        }
        for _ in 0..g.s.below(4) {
            g.contraction();
            if g.s.chance(1, 5) {
                g.nocross();
            }
        }
        g.spice(&["match"]);
        shuffled(&mut g);
        let texts: Vec<String> = (0..6).map(|_| g.text(8)).collect();
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &plain(texts), |a, tr| tr.uses(&a.model, "match"))
    },
    explicit: &[
        ("beginning_inside_a_contraction", |ctx| {
            example(ctx, "letter w 2456\nletter x 1346\nletter a 1\nalways wx 45\nmatch x a - 6\n", "wxa", &[], "⠘⠠")
        }),
        ("negated_string", |ctx| {
            let t = "letter a 1\nletter b 12\nletter c 14\nletter x 1346\nmatch - x !ab 6\n";
            example(ctx, t, "xac", &[], "⠠⠁⠉")?;
            example(ctx, t, "xab", &[], "⠭⠁⠃")
        }),
        ("delayed_across_a_zero_length_rule", |ctx| {
            let l = "letter a 1\nletter b 12\nletter c 14\nletter d 145\n";
            example(ctx, &format!("{l}match a b - 6\nnoback context []\"bcd\" @3\n"), "abcd", &[], "⠁⠄⠠⠉⠙")
        }),
        ("greedy_before_pattern", |ctx| {
            example(ctx, "letter b 12\nmatch %a* b - 6\n", "bb", &[], "⠠⠠")
        }),
        ("negated_alternation", |ctx| {
            let t = "letter b 12\nletter c 14\nletter x 1346\nmatch - x !(b|c) 6\n";
            example(ctx, t, "xb", &[], "⠭⠃")
        }),
    ],
};

// ------------------------------------------------------------------------ C14

/// The stages in back-translation: the other way round.
fn backward(g: &mut Gen, ctx: &mut Ctx) -> Outcome {
    let texts: Vec<String> = (0..6).map(|_| g.braille(8)).collect();
    let mut rules = std::mem::take(&mut g.rules);
    rename(&renaming(g.s), &mut rules);
    let Some((model, read)) = agree_back(ctx, &rules, &texts)? else { return Ok(()) };
    for (text, tr) in read {
        let context = tr.used.iter().any(|u| model.kind(u.0) == "context");
        for u in &tr.used_multi {
            ctx.label(&format!("backward {}", u.0));
        }
        if context || !tr.used_multi.is_empty() {
            ctx.nontrivial(&(render(&rules), &text));
            ctx.sample(|| format!("{}braille: {text}\ntext: {:?}", render(&rules), tr.output));
        }
    }
    Ok(())
}

pub const C14: Prop = Prop {
    id: "C14",
    quick: 315_000,
    thorough: 15_000_000,
    rule: "a context, correct or pass rule was applied",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        g.attributes();
        g.swaps();
        for _ in 0..g.s.range(1, 5) {
            let kind = *g.s.pick(&["context", "correct", "pass2", "pass3", "pass4"]);
            g.multi(kind);
        }
        if g.s.chance(1, 5) {
            let kind = *g.s.pick(&["context", "correct", "pass2", "pass3", "pass4"]);
            g.counting(kind);
        }
        for _ in 0..g.s.below(3) {
            g.contraction();
            if g.s.chance(1, 5) {
                g.nocross();
            }
        }
        let back = g.s.chance(1, 4);
        if !back {
            g.spice(&["context"]);
        }
        shuffled(&mut g);
        if back {
            return backward(&mut g, ctx);
        }
        let texts: Vec<String> = (0..6).map(|_| g.text(8)).collect();
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &plain(texts), |a, tr| !tr.used_multi.is_empty() || tr.uses(&a.model, "context"))
    },
    explicit: &[
        ("zero_length_after_plain_character", |ctx| {
            example(ctx, "letter b 12\nnoback context []\"b\" @6\n", "bb", &[], "⠠⠃⠠⠃")
        }),
        ("range_quantifier", |ctx| {
            let t = "digit 1 2\nnoback context $d1-3 @456\n";
            example(ctx, t, "1", &[], "⠸")?;
            example(ctx, t, "11", &[], "⠸")?;
            example(ctx, t, "111", &[], "⠸")?;
            example(ctx, t, "1111", &[], "⠸⠸")
        }),
        ("comparison", |ctx| {
            let t = "letter a 1\nletter c 14\nnoback context \"a\" @1#1=1\nnoback context #1<2\"c\" @456\n";
            example(ctx, t, "ac", &[], "⠁⠸")
        }),
        ("increment", |ctx| {
            let mut t = String::from("letter a 1\nletter b 12\nletter c 14\nnoback context \"a\" @1#1=1\n");
            t += "noback context \"b\" @12#1+\nnoback context #1=2\"c\" @456\n";
            example(ctx, &t, "abc", &[], "⠁⠃⠸")?;
            example(ctx, &t, "ac", &[], "⠁⠉")?;
            let t = t.replace("#1+", "#1-").replace("#1=2", "#1=0");
            example(ctx, &t, "abc", &[], "⠁⠃⠸")
        }),
        ("delayed_across_a_zero_length_rule", |ctx| {
            let l = "letter a 1\nletter b 12\nletter c 14\nletter d 145\n";
            example(ctx, &format!("{l}match a b - 6\nnoback context []\"bcd\" @3\n"), "abcd", &[], "⠁⠄⠠⠉⠙")
        }),
        ("negated_string", |ctx| {
            let l = "letter a 1\nletter b 12\nletter c 14\nletter x 1346\n";
            example(ctx, &format!("{l}noback context [\"x\"]!\"ab\" @6\n"), "xac", &[], "⠠⠁⠉")?;
            example(ctx, &format!("{l}noback context [\"x\"]!\"ab\" @6\n"), "xab", &[], "⠭⠁⠃")
        }),
    ],
};

// ------------------------------------------------------------------------ C25

pub const C25: Prop = Prop {
    id: "C25",
    quick: 490_000,
    thorough: 20_000_000,
    rule: "a prepunc or postpunc rule was applied",
    assumptions: ASSUME,
    case: |s, ctx| {
        let mut g = Gen::new(s);
        g.base();
        for _ in 0..g.s.range(1, 5) {
            let kind = *g.s.pick(&["prepunc", "postpunc"]);
            let text = g.word("(-.,a", 1, 2);
            let cells = Some(g.cells());
            let nocross = g.s.chance(1, 4);
            g.rules.push(Rule { dir: Dir::Both, nocross, with: vec![], op: Op::Text { kind, text, cells } });
        }
        for _ in 0..g.s.below(3) {
            g.contraction();
            if g.s.chance(1, 5) {
                g.nocross();
            }
        }
        g.spice(&["punctuation"]);
        shuffled(&mut g);
        let texts: Vec<String> = (0..6).map(|_| if g.s.bool() { g.text(8) } else { g.s.string("a1 (-.", 1, 9) }).collect();
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &plain(texts), |a, tr| tr.uses(&a.model, "prepunc") || tr.uses(&a.model, "postpunc"))
    },
    explicit: &[("nocross_at_word_edges", |ctx| {
        let t = "letter a 1\npunctuation ( 236\nnocross prepunc ( 6\n";
        example(ctx, t, "a(", &[], "⠁⠦")
    }), ("same_character_on_both_sides", |ctx| {
        let t = "space \\s 0\nletter a 1\npunctuation \" 5\nprepunc \" 236\npostpunc \" 356\n";
        example(ctx, t, "\"a\" \"", &[], "⠦⠁⠴⠀⠐")?;
        example(ctx, &t.replace("prepunc", "nocross prepunc").replace("postpunc", "nocross postpunc"), "\"a\" \"", &[], "⠦⠁⠴⠀⠐")
    })],
};

// ------------------------------------------------------------------------ C26

fn three_features(a: &Agreed, tr: &Translated) -> bool {
    let mut features: std::collections::BTreeSet<&str> = tr.indications.iter().map(|i| i.1).collect();
    for (r, _, _) in &tr.used {
        match a.model.kind(*r) {
            k if CONTRACTIONS.contains(&k) => features.insert("contraction"),
            k @ ("match" | "context" | "comp6" | "prepunc" | "postpunc") => features.insert(k),
            _ => false,
        };
    }
    for (_, r, _, _) in &tr.used_multi {
        features.insert(a.model.kind(*r));
    }
    features.len() >= 3
}

/// Rules of the tables of liblouis, and now and then all of them.
fn as_used(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let whole = s.chance(1, 8).then(|| s.below(real::all().len()));
    let (rules, words, classes) = match whole {
        Some(i) => (vec![], real::all()[i].words.clone(), real::all()[i].classes.clone()),
        None => real::excerpt(s),
    };
    let mut texts = vec![];
    for _ in 0..4 {
        let t = real::prose(s, &words);
        let mut spans = vec![];
        if s.chance(1, 3) && !classes.is_empty() {
            let n = t.chars().count();
            let a = s.below(n);
            spans.push((s.pick(&classes).clone(), a..a + s.below(n - a) + 1));
        }
        texts.push((t, spans));
    }
    let Some(i) = whole else {
        ctx.label("rules of liblouis");
        return finish(ctx, &rules, &texts, three_features);
    };
    let Some((model, t)) = real::modelled(i) else { return Ok(()) };
    ctx.label("a table of liblouis");
    for (text, spans) in &texts {
        ctx.note(format!("table: {}\ntext: {text:?}{}", real::all()[i].name, show_spans(spans)));
        ctx.eval();
        if let Ok(tr) = model.forward(text, spans) {
            let actual = t.tr_spans(text, spans);
            if actual != tr.output {
                return Err(mismatch(&format!("{} (the rules that the model knows)\n", real::all()[i].name), text, spans, &tr, model, &actual));
            }
        }
    }
    Ok(())
}

pub const C26: Prop = Prop {
    id: "C26",
    quick: 175_000,
    thorough: 15_000_000,
    rule: "rules or signs of at least three features took part: contractions, match, multipass, each kind of sign",
    assumptions: ASSUME,
    case: |s, ctx| {
        if s.chance(1, 6) {
            return as_used(s, ctx);
        }
        let mut g = Gen::new(s);
        g.mixed();
        let emph = g.emph.clone();
        let mut texts = vec![];
        for _ in 0..6 {
            let t = if g.s.chance(1, 4) { g.caps_text(10) } else { g.text(10) };
            let spans = if g.s.bool() { g.spans(t.chars().count(), &emph) } else { vec![] };
            texts.push((t, spans));
        }
        let (rules, texts) = g.done(texts);
        finish(ctx, &rules, &texts, three_features)
    },
    explicit: &[],
};
