//! C28: the rules that a trace names.

use super::cli::{finished, fresh, louis};
use super::meta::directed;
use super::total::wild_text;
use crate::engine::*;
use crate::generate::*;
use crate::sut::{self, Direction};
use crate::table::*;

/// A rule as a trace writes it: the beginning, and what else is in it.
fn written(r: &Rule) -> (String, Vec<String>) {
    let whole = |s: String| (format!("{s}\n"), vec![]);
    let cells = |c: &[Cell]| cells_str(c);
    let dots = |c: &Option<Vec<Cell>>| c.as_ref().map_or("=".to_string(), |c| cells_str(c));
    let place = |before: bool| if before { "before" } else { "after" };
    match &r.op {
        Op::Def { kind, c, cells: d } => whole(format!("{kind} {c} {}", cells(d))),
        Op::Base { class, derived, base } => whole(format!("base {class} {derived} {base}")),
        Op::Text { kind, text, cells: d } => whole(format!("{kind} {text} {}", dots(d))),
        Op::Sign { kind, cells: d } => whole(format!("{kind} {}", cells(d))),
        Op::Chars { kind, chars } => whole(format!("{kind} {chars}")),
        Op::EndCapsPhrase { before, cells: d } => whole(format!("endcapsphrase {} {}", place(*before), cells(d))),
        Op::Match { text, cells: d, .. } => ("match ".into(), vec![format!(" {text} "), dots(d)]),
        Op::Multi { kind, test, action } => {
            let mut v = vec![];
            fn tests(t: &Test, v: &mut Vec<String>) {
                match t {
                    Test::Str(s) => v.push(s.clone()),
                    Test::Cells(c) => v.push(cells_str(c)),
                    Test::Attrs(a, _) if a.chars().count() == 1 => v.push(format!("${a}")),
                    Test::Class(n, _) => v.push(format!("%{n}")),
                    Test::Not(t) => tests(t, v),
                    Test::Bracket(ts) => ts.iter().for_each(|t| tests(t, v)),
                    Test::Var(n, op, k) => v.push(format!("#{n}{op}{k}")),
                    _ => {}
                }
            }
            test.iter().for_each(|t| tests(t, &mut v));
            for a in action {
                v.push(match a {
                    Act::Str(s) => s.clone(),
                    Act::Cells(c) => cells_str(c),
                    Act::Swap(n) => format!("%{n}"),
                    Act::Set(n, k) => format!("#{n}={k}"),
                    Act::Inc(n) => format!("#{n}+"),
                    Act::Dec(n) => format!("#{n}-"),
                    Act::Copy => "*".into(),
                    Act::Drop => "?".into(),
                });
            }
            (format!("{kind} "), v)
        }
        _ => ("\n".into(), vec![]),
    }
}

struct Row {
    from: String,
    to: String,
    rule: String,
    stage: String,
}

/// Columns are filled with blanks, so blanks at the ends do not count.
fn same(a: &str, b: &str) -> bool {
    a.trim() == b.trim()
}
fn same_text(a: &str, b: &str) -> bool {
    same(&a.to_lowercase(), &b.to_lowercase())
}

/// Whether this rule says that this becomes that, in this stage.
fn says(r: &Rule, row: &Row, d: Direction) -> bool {
    let forward = d == Direction::Forward;
    if r.dir == if forward { Dir::NoFor } else { Dir::NoBack } {
        return false;
    }
    let (print, braille) = if forward { (&row.from, &row.to) } else { (&row.to, &row.from) };
    let stage = match &r.op {
        Op::Multi { kind: "correct", .. } => "Pre",
        Op::Multi { kind: "pass2", .. } => "Pass2",
        Op::Multi { kind: "pass3", .. } => "Pass3",
        Op::Multi { kind: "pass4", .. } => "Pass4",
        _ => "Main",
    };
    if stage != row.stage {
        return false;
    }
    match &r.op {
        Op::Sign { kind: "undefined", cells } => forward && print.chars().count() <= 1 && same(braille, &cells_str(cells)),
        Op::Sign { cells, .. } | Op::EndCapsPhrase { cells, .. } | Op::Emph { cells, .. } | Op::EndEmphPhrase { cells, .. } => {
            let d = cells_str(cells);
            // print letters among the cells get letter signs too
            print.is_empty() && same(braille, &d) || !forward && row.from.is_empty() && same(&row.to, &d)
        }
        // braille is read as a capital after a capital sign
        Op::Def { c, cells, .. } => (same(print, &c.to_string()) || !forward && same_text(print, &c.to_string())) && same(braille, &cells_str(cells)),
        Op::Chars { kind: "contraction", chars } => same_text(print, chars),
        Op::Base { derived, .. } => same(print, &derived.to_string()),
        Op::Text { text, cells, .. } | Op::Match { text, cells, .. } => same_text(print, text) && cells.as_ref().is_none_or(|c| same(braille, &cells_str(c))),
        Op::Multi { action, test, .. } => {
            // what stands in the brackets, or everything
            let bracket = test.iter().find_map(|t| if let Test::Bracket(ts) = t { Some(ts) } else { None }).unwrap_or(test);
            let taken: Option<String> = bracket
                .iter()
                .map(|t| match t {
                    Test::Str(s) => Some(s.clone()),
                    Test::Cells(c) => Some(cells_str(c)),
                    _ => None,
                })
                .collect();
            if taken.is_some_and(|t| !same_text(&t, &row.from)) {
                return false;
            }
            let mut plain = String::new();
            for a in action {
                match a {
                    Act::Str(s) => plain += s,
                    Act::Cells(c) => plain += &cells_str(c),
                    Act::Set(..) | Act::Inc(_) | Act::Dec(_) | Act::Drop => {}
                    Act::Copy | Act::Swap(_) => return true,
                }
            }
            same(&row.to, &plain)
        }
        _ => false,
    }
}

pub const C28: Prop = Prop {
    id: "C28",
    quick: 21_000,
    thorough: 2_000_000,
    rule: "the trace names a rule other than the definition of a character",
    assumptions: &["texts and tables have no characters of which the listing itself is drawn"],
    case: |s, ctx| {
        let mut g = Gen::new(s);
        directed(&mut g);
        let rules = g.rules.clone();
        let (words, used) = (g.words.clone(), g.used.clone());
        let table = render(&rules);
        let (d, name) = *s.pick(&[(Direction::Forward, "forward"), (Direction::Forward, "forward"), (Direction::Backward, "backward")]);
        let Ok(t) = sut::build(&table, d) else { return Ok(()) };
        let drawn = |x: &str| x.chars().any(|c| c.is_control() || "│─┌┐└┘├┤┬┴┼\u{2028}\u{2029}\u{feff}".contains(c));
        let mut texts = vec![];
        for _ in 0..s.range(2, 8) {
            let text: String = if d == Direction::Forward {
                wild_text(s, &words)
            } else if s.bool() {
                let Ok(f) = sut::build(&table, Direction::Forward) else { continue };
                f.tr(&wild_text(s, &words))
            } else {
                (0..s.range(1, 8)).map(|_| if s.bool() { cell_char(*s.pick(&used)) } else { cell_char(s.below(64) as Cell) }).collect()
            };
            let text = text.replace(['\0', '\n', '\r', '\t'], " ");
            if !drawn(&text) && !drawn(&t.tr(&text)) {
                texts.push(text);
            }
        }
        if texts.is_empty() {
            return Ok(());
        }
        let dir = fresh(&ctx.scratch.join("trace"));
        std::fs::write(dir.join("t.ctb"), &table).unwrap();
        let input: String = texts.iter().map(|t| format!("{t}\n")).collect();
        let r = louis(&["trace", "-d", name, "t.ctb"], Some(&input), &dir, &[dir.clone()])?;
        let fail = |what: String| -> Outcome { Err(format!("{what}\nlouis trace -d {name} {input:?}\ntable:\n{table}\nprinted:\n{}\nand:\n{}", r.out, r.err).into()) };
        if let Err(e) = finished(&r) {
            return fail(e);
        }
        let forward = d == Direction::Forward;
        let mut at: isize = -1;
        for line in r.out.lines() {
            if line.starts_with("> ") {
                at += 1;
                continue;
            }
            if !line.starts_with('│') {
                continue;
            }
            let columns: Vec<&str> = line.split('│').collect();
            let [_, n, from, to, rule, stage, _] = columns[..] else { continue };
            if n.trim().parse::<usize>().is_err() {
                continue;
            }
            ctx.eval();
            let row = Row { from: from.trim().into(), to: to.trim().into(), rule: rule.trim().into(), stage: stage.trim().into() };
            let text = &texts[at as usize];
            if row.rule.is_empty() {
                ctx.label("no rule");
                // that is a character about which the table says nothing
                let definition = rules.iter().find(|r| {
                    let (print, braille, out) = match &r.op {
                        Op::Def { c, cells, .. } => (c.to_string(), cells_str(cells), Dir::NoFor),
                        _ => return false,
                    };
                    if forward { r.dir != out && print == row.from } else { r.dir != Dir::NoBack && braille == row.from }
                });
                if let Some(r) = definition {
                    // print characters in braille can trigger computer braille, for which there
                    // is nothing but comp6 rules in this direction
                    let comp = !forward && rules.iter().any(|r| matches!(&r.op, Op::Chars { kind: "compbrl", .. }));
                    if !row.from.is_empty() && !comp {
                        return fail(format!("no rule is named for {:?} in the trace of {text:?}, but there is {:?}", row.from, r.to_string()));
                    }
                }
                if row.from.chars().count() > 1 || row.to.is_empty() && !row.from.is_empty() {
                    return fail(format!("no rule is named for {:?} in the trace of {text:?}", row.from));
                }
                continue;
            }
            ctx.label(row.rule.split(' ').next().unwrap());
            let norm = |x: &str| x.split_whitespace().collect::<Vec<_>>().join(" ");
            let shown = norm(&row.rule);
            let named: Vec<&Rule> = rules
                .iter()
                .filter(|r| {
                    let (start, parts) = written(r);
                    let whole = start.ends_with('\n');
                    let start = norm(&start);
                    (if whole { shown == start } else { shown.starts_with(&start) }) && parts.iter().all(|p| shown.contains(&norm(p)))
                })
                .collect();
            if named.is_empty() {
                return fail(format!("{:?} in the trace of {text:?} is no rule of the table", row.rule));
            }
            if !named.iter().any(|r| says(r, &row, d)) {
                return fail(format!("{:?} does not say that {:?} becomes {:?} in the stage {}, as the trace of {text:?} has it", row.rule, row.from, row.to, row.stage));
            }
            // of the definitions of a character the first is used, but digits, hyphens and
            // decimal points have several
            if forward && let Op::Def { kind, c, .. } = &named[0].op && !kind.contains("digit") && !["decpoint", "hyphen"].contains(kind) {
                let first = rules.iter().find(|r| r.dir != Dir::NoFor && matches!(&r.op, Op::Def { c: x, .. } if x == c));
                if !first.is_some_and(|r| named.contains(&r)) {
                    return fail(format!("{:?} in the trace of {text:?} is not the first definition", row.rule));
                }
            }
            if !named.iter().any(|r| matches!(r.op, Op::Def { .. })) {
                ctx.nontrivial(&(&table, text, &row.rule));
            }
        }
        ctx.sample(|| format!("{input:?} with\n{table}is traced as\n{}", r.out));
        Ok(())
    },
    explicit: &[],
};
