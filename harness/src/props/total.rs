//! Reading tables and translating with whatever was accepted: C01 to C05.

use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::lines;
use crate::real;
use crate::sut::{self, Direction, Rejected, Span, T};
use crate::table::*;

// ------------------------------------------------------------------------ C01

/// Bytes a table of this size may take to be read. The class expansion of a rule is
/// proportional to the number of characters in the table, hence the square.
fn read_budget(len: usize) -> u64 {
    (4 << 20) + 40_000 * len as u64 + 200 * (len as u64) * (len as u64)
}

fn read(ctx: &mut Ctx, table: &str) -> Outcome {
    ctx.note(format!("table:\n{table}"));
    for d in [Direction::Forward, Direction::Backward] {
        ctx.eval();
        let (r, bytes) = allocated(|| sut::build(table, d).is_ok());
        if bytes > read_budget(table.len()) {
            return Err(format!("reading {} bytes of table allocated {bytes} bytes:\n{table}", table.len()).into());
        }
        ctx.label(if r { "accepted" } else { "rejected" });
        if table.lines().any(|l| !l.trim().is_empty() && !l.trim().starts_with('#')) {
            ctx.nontrivial(&(table, r, d == Direction::Forward));
        }
    }
    ctx.sample(|| table.to_string());
    Ok(())
}

pub fn any_table(s: &mut Src) -> String {
    let n = s.weighted(&[0, 6, 4, 3, 2, 1, 1]);
    let mut t = String::new();
    for _ in 0..n {
        match s.below(12) {
            0 => t.push_str(&lines::any_string(s)),
            1 => {
                let n = s.below(12);
                for _ in 0..n {
                    let c = s.scalar();
                    t.push(c);
                }
            }
            2 | 3 => t.push_str(&lines::valid(s).tokens.join(" ")),
            4 => t.push_str(&real::line(s)),
            _ => t.push_str(&lines::any(s)),
        }
        t.push_str(s.pick(&["\n", "\n", "\n", "\n", "\r\n", "\r", "", "\n\n"]));
    }
    t
}

pub const C01: Prop = Prop {
    id: "C01",
    quick: 1_000_000,
    thorough: 20_000_000,
    rule: "the table has a line that is neither blank nor a comment",
    assumptions: &["lines of up to a few thousand characters: reading and matching recurse over an operand"],
    case: |s, ctx| {
        let t = if s.chance(1, 6) {
            let mut g = Gen::new(s);
            g.mixed();
            let r = g.rules;
            render(&r)
        } else {
            any_table(s)
        };
        read(ctx, &t)
    },
    explicit: &[
        ("comparison", |ctx| {
            for op in ["=", "<", ">", "<=", ">="] {
                for k in ["context", "correct", "pass2", "pass3", "pass4"] {
                    read(ctx, &format!("{k} #1{op}2 ?\n"))?;
                    read(ctx, &format!("{k} !#1{op}2 ?\n"))?;
                }
            }
            Ok(())
        }),
        ("negated_group", |ctx| {
            for p in ["!(a!b)", "!(!a)", "!(a|!b)", "!(^a)", "!(a$)", "!(%a*!.)+", "!(!(a!b)c)"] {
                read(ctx, &format!("letter a 1\nmatch {p} a {p} 6\n"))?;
            }
            Ok(())
        }),
        ("nesting", |ctx| {
            for n in [10, 100, 1000] {
                for (a, b) in [("(", ")"), ("!(", ")"), ("(", ")*"), ("(a|", ")")] {
                    read(ctx, &format!("letter a 1\nmatch {}a{} a - 6\n", a.repeat(n), b.repeat(n)))?;
                }
                read(ctx, &format!("context {}\"a\"{} ?\n", "[".repeat(n), "]".repeat(n)))?;
                read(ctx, &format!("context {}\"a\" ?\n", "!".repeat(n)))?;
                read(ctx, &format!("always {} {}\n", "a".repeat(n), "1-".repeat(n) + "1"))?;
            }
            Ok(())
        }),
        ("deep_nesting", |ctx| {
            let n = 100_000;
            answers(ctx, &format!("space \\s 0\nletter a 1\nmatch {}a{} a - 6\n", "(".repeat(n), ")".repeat(n)), "a")
        }),
    ],
};

/// The command line tool reads the table and translates the text without being killed.
fn answers(ctx: &mut Ctx, table: &str, text: &str) -> Outcome {
    ctx.eval();
    let dir = ctx.scratch.clone();
    std::fs::write(dir.join("t.ctb"), table).unwrap();
    let r = super::cli::louis(&["translate", "t.ctb"], Some(&format!("{text}\n")), &dir, &[dir.clone()])?;
    match r.code {
        Some(0) | Some(1) => Ok(()),
        _ => {
            let shown = |s: &str| s.chars().take(200).collect::<String>();
            Err(format!("louis translate ends with {:?} {}\ntable: {}...\ntext: {}...", r.code, shown(&r.err), shown(table), shown(text)).into())
        }
    }
}

// ------------------------------------------------------------------------ C02

/// Tables of all opcodes, whatever they mean together.
pub fn wild_table(s: &mut Src) -> (String, Vec<String>, Vec<String>) {
    if s.chance(1, 12) {
        let (t, r) = real::some_lines(s);
        let words = (0..10).map(|_| s.pick(&r.words).clone()).collect();
        return (t, words, r.classes.clone());
    }
    let mut g = Gen::new(s);
    g.mixed();
    let (rules, words, emph) = (g.rules, g.words, g.emph);
    let mut t = String::new();
    let extra = s.weighted(&[3, 3, 2, 1]);
    let mut where_to: Vec<usize> = (0..extra).map(|_| s.below(rules.len() + 1)).collect();
    where_to.sort();
    for (i, r) in rules.iter().enumerate() {
        while where_to.first() == Some(&i) {
            where_to.remove(0);
            let l = if s.chance(1, 3) { lines::any(s) } else { lines::valid(s).tokens.join(" ") };
            // a line with a mistake would only make the table be rejected
            if !l.contains(['\n', '\r']) && sut::build(&l, Direction::Forward).is_ok() {
                t.push_str(&l);
                t.push('\n');
            }
        }
        t.push_str(&r.to_string());
        t.push('\n');
    }
    (t, words, emph)
}

pub fn wild_text(s: &mut Src, words: &[String]) -> String {
    let mut t = String::new();
    for _ in 0..s.below(12) {
        match s.below(6) {
            0 | 1 if !words.is_empty() => t.push_str(s.pick(words)),
            2 => {
                let c = s.scalar();
                t.push(c)
            }
            3 => {
                let c = cell_char(s.below(40) as Cell);
                t.push(c)
            }
            _ => t.push(s.ch("aabbcABCXx112. -(,+=\t\n\u{a0}ßİ")),
        }
    }
    t
}
pub fn wild_spans(s: &mut Src, n: usize, names: &[String]) -> Vec<Span> {
    let mut v = vec![];
    for _ in 0..s.weighted(&[4, 2, 1, 1]) {
        let name = match s.below(6) {
            0 => "computer_braille".into(),
            1 => lines::any_string(s),
            _ if !names.is_empty() => s.pick(names).clone(),
            _ => "bold".into(),
        };
        let at = |s: &mut Src| match s.below(12) {
            0 => usize::MAX,
            1 => usize::MAX - 1,
            2 => n + s.below(10),
            _ => s.below(n + 1),
        };
        let (a, b) = (at(s), at(s));
        v.push((name, a..b));
    }
    v
}

/// The most characters any rule of the table can write in one go, and the number of rules.
fn bounds(table: &str) -> (usize, usize) {
    let longest = table.lines().map(|l| l.chars().count()).max().unwrap_or(0) + 12;
    (longest, table.lines().count() + 8)
}

fn survives(ctx: &mut Ctx, table: &str, t: &T, d: Direction, text: &str, spans: &[Span]) -> Outcome {
    ctx.note(format!("table:\n{table}\n{} text: {text:?}{}", name_of(d), show_spans(spans)));
    ctx.eval();
    let n = text.chars().count();
    let (longest, rules) = bounds(real::all().iter().find(|r| r.name == table).map_or(table, |r| &r.text));
    let (out, bytes) = allocated(|| t.tr_spans(text, spans));
    // every stage writes, at each position, at most once per zero-length rule and once for the
    // character; an action may copy what it matched several times
    let mut cap = n;
    for _ in 0..5 {
        cap = cap.saturating_add(1).saturating_mul(rules).saturating_mul(longest).saturating_mul(cap.max(1));
    }
    if out.chars().count() > cap {
        return Err(format!("output of {} characters\n{}", out.chars().count(), ctx.note).into());
    }
    let _ = bytes;
    if let Some(stages) = sut::trace(t, text, &sut::options(spans)) {
        for st in stages {
            let consumed: usize = st.iter().map(|s| s.input.chars().count()).sum();
            // indications: at most four signs for each class at each position
            let most = (consumed + 1) * (rules + 1) * 4 + consumed;
            if st.len() > most {
                return Err(format!("{} steps for {consumed} characters\n{}", st.len(), ctx.note).into());
            }
        }
    }
    if n > 0 {
        ctx.nontrivial(&(table, text, show_spans(spans), name_of(d)));
    }
    Ok(())
}

pub fn name_of(d: Direction) -> &'static str {
    if d == Direction::Forward { "forward" } else { "backward" }
}

pub const C02: Prop = Prop {
    id: "C02",
    quick: 175_000,
    thorough: 8_000_000,
    rule: "an accepted table and a text that is not empty",
    assumptions: &["texts of up to 3000 characters, 150 with match or multipass rules, whose patterns make the work grow with a power of the length", "memory of a translation is limited to 1 GiB, processor time to 60 s (usual: less than 1 ms)"],
    case: |s, ctx| {
        let (table, words, emph) = wild_table(s);
        let d = if s.chance(1, 3) { Direction::Backward } else { Direction::Forward };
        let t = match sut::build(&table, d) {
            Ok(t) => t,
            Err(_) => {
                ctx.label("rejected");
                return Ok(());
            }
        };
        ctx.label("accepted");
        for _ in 0..6 {
            let text = wild_text(s, &words);
            let spans = wild_spans(s, text.chars().count(), &emph);
            survives(ctx, &table, &t, d, &text, &spans)?;
            ctx.sample(|| format!("{table}{} text: {text:?}{}", name_of(d), show_spans(&spans)));
        }
        if s.chance(1, 8) {
            let i = s.below(real::all().len());
            let r = &real::all()[i];
            if let Some(t) = real::translator(i, d, 0) {
                let text = real::text(s, r);
                let spans = wild_spans(s, text.chars().count(), &r.classes);
                survives(ctx, r.name, t, d, &text, &spans)?;
                ctx.label("real table");
            }
        }
        if s.chance(1, 50) {
            // a long line
            let unit = wild_text(s, &words);
            // patterns are searched at each position: time and memory are quadratic
            let most = if ["match ", "context ", "correct ", "pass"].iter().any(|k| table.contains(k)) { 150 } else { 3000 };
            let n = s.range(1, 1.max(most / unit.chars().count().max(1)));
            let text = unit.repeat(n);
            let spans = wild_spans(s, text.chars().count(), &emph);
            survives(ctx, &table, &t, d, &text, &spans)?;
            ctx.label("long text");
        }
        Ok(())
    },
    explicit: &[
        ("compbrl_with_a_blank", |ctx| {
            let table = "space \\s 0\nletter a 1\nbegcomp 456\nendcomp 456\ncompbrl \\sa\ncompbrl \\s\n";
            let t = sut::forward(table)?;
            for text in ["a a", " ", "  a", " a a ", "a"] {
                survives(ctx, table, &t, Direction::Forward, text, &[])?;
            }
            Ok(())
        }),
        ("very_long_operand", |ctx| {
            let n = 200_000;
            answers(ctx, &format!("space \\s 0\nletter a 1\nalways {} 12\n", "a".repeat(n)), &"a".repeat(n))
        }),
        // a word is searched for all patterns of the dictionary, not all substrings of the word
        ("hyphenating_a_long_word", |ctx| {
            std::fs::write(ctx.scratch.join("h.dic"), "UTF-8\na1b\n.ab2a\n").unwrap();
            answers(ctx, "space \\s 0\nletter a 1\nletter b 12\ninclude h.dic\nnocross always ab 6\n", &"ab".repeat(10_000))
        }),
    ],
};

// ------------------------------------------------------------------------ C03

pub const C03: Prop = Prop {
    id: "C03",
    quick: 98_000,
    thorough: 2_000_000,
    rule: "two translators of the same table gave an answer for a text that is not empty",
    assumptions: &["threads are scheduled by the operating system: the check samples schedules"],
    case: |s, ctx| {
        let (table, words, emph) = wild_table(s);
        let d = if s.chance(1, 4) { Direction::Backward } else { Direction::Forward };
        let make = || sut::build(&table, d);
        let first = match make() {
            Ok(t) => t,
            Err(e) => {
                // the same tables are rejected, for the same reason
                ctx.eval();
                ctx.label("rejected");
                return match make() {
                    Err(f) if f.text == e.text => Ok(()),
                    Err(f) => Err(format!("{} / {}\n{table}", e.text, f.text).into()),
                    Ok(_) => Err(format!("rejected, then accepted:\n{table}").into()),
                };
            }
        };
        let mut asked: Vec<(String, Vec<Span>)> = vec![];
        for _ in 0..s.range(2, 5) {
            let t = wild_text(s, &words);
            let spans = wild_spans(s, t.chars().count(), &emph);
            asked.push((t, spans));
        }
        ctx.note(format!("table:\n{table}{} texts: {asked:?}", name_of(d)));
        let answers: Vec<String> = asked.iter().map(|(t, sp)| first.tr_spans(t, sp)).collect();
        let differ = |what: &str, i: usize, got: &str| -> Fail {
            format!(
                "{what}\ntable:\n{table}{} text: {:?}{}\nfirst: {}\nthen:  {got}",
                name_of(d),
                asked[i].0,
                show_spans(&asked[i].1),
                answers[i]
            )
            .into()
        };
        // a history of calls on the same translator
        for _ in 0..s.range(2, 6) {
            let i = s.below(asked.len());
            ctx.eval();
            let got = first.tr_spans(&asked[i].0, &asked[i].1);
            if got != answers[i] {
                return Err(differ("the same translator, asked again", i, &got));
            }
        }
        // other translators, with other hash seeds
        for _ in 0..3 {
            let t = make().map_err(|e| format!("accepted, then rejected: {}\n{table}", e.text))?;
            for i in (0..asked.len()).rev() {
                ctx.eval();
                let got = t.tr_spans(&asked[i].0, &asked[i].1);
                if got != answers[i] {
                    return Err(differ("another translator", i, &got));
                }
                if !asked[i].0.is_empty() {
                    ctx.nontrivial(&(&table, &asked[i].0, show_spans(&asked[i].1)));
                }
            }
        }
        if s.chance(1, 8) {
            let i = s.below(real::all().len());
            let r = &real::all()[i];
            if let (Some(a), Some(b)) = (real::translator(i, d, 0), real::translator(i, d, 1)) {
                let text = real::text(s, r);
                let spans = wild_spans(s, text.chars().count(), &r.classes);
                let answers = [a, b, a].map(|t| t.tr_spans(&text, &spans));
                ctx.eval();
                if answers[0] != answers[1] || answers[0] != answers[2] {
                    return Err(format!("table: {}\n{} text: {text:?}{}\nanswers: {answers:?}", r.name, name_of(d), show_spans(&spans)).into());
                }
                ctx.label("real table");
            }
        }
        // threads
        if s.chance(1, 8) {
            ctx.label("threads");
            let bad = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..4)
                    .map(|k| {
                        let (first, asked, answers) = (&first, &asked, &answers);
                        sc.spawn(move || {
                            for r in 0..3 {
                                for j in 0..asked.len() {
                                    let i = (j * (k + 1) + r) % asked.len();
                                    let got = first.tr_spans(&asked[i].0, &asked[i].1);
                                    if got != answers[i] {
                                        return Some((i, got));
                                    }
                                }
                            }
                            None
                        })
                    })
                    .collect();
                hs.into_iter().filter_map(|h| h.join().unwrap()).next()
            });
            ctx.evaluations += 12 * asked.len() as u64;
            if let Some((i, got)) = bad {
                return Err(differ("in a thread", i, &got));
            }
        }
        // another process
        if s.chance(1, 300) {
            ctx.label("another process");
            let got = ask_process(ctx, &table, d, &asked)?;
            for i in 0..asked.len() {
                ctx.eval();
                if got.get(i) != Some(&answers[i]) {
                    return Err(differ("another process", i, got.get(i).map(|s| s.as_str()).unwrap_or("(nothing)")));
                }
            }
        }
        ctx.sample(|| format!("{table}{} texts: {asked:?}\nanswers: {answers:?}", name_of(d)));
        Ok(())
    },
    explicit: &[("equal_weights", |ctx| {
        let l = "letter a 1\nletter e 15\nletter d 145\nlitdigit 1 2\n";
        let table = format!("{l}endword ed 1246\nmidendword ed 5\nsufword a 6\nprfword a 5\nbegword a 56\nbegmidword a 456\n");
        let first = sut::forward(&table)?;
        let answers: Vec<String> = ["aed", "ed", "a", "aa", "aaed"].iter().map(|t| first.tr(t)).collect();
        for _ in 0..40 {
            let t = sut::forward(&table)?;
            for (i, text) in ["aed", "ed", "a", "aa", "aaed"].iter().enumerate() {
                ctx.eval();
                if t.tr(text) != answers[i] {
                    return Err(format!("{table}\n{text}: {} or {}", answers[i], t.tr(text)).into());
                }
            }
        }
        Ok(())
    })],
};

/// The answers of a fresh process.
fn ask_process(ctx: &mut Ctx, table: &str, d: Direction, asked: &[(String, Vec<Span>)]) -> Result<Vec<String>, Fail> {
    let file = ctx.scratch.join("ask");
    let mut parts = vec![table.to_string(), name_of(d).to_string()];
    for (t, spans) in asked {
        parts.extend([t.clone(), spans.len().to_string()]);
        for (class, r) in spans {
            parts.extend([class.clone(), r.start.to_string(), r.end.to_string()]);
        }
    }
    std::fs::write(&file, pack(&parts)).map_err(|e| Fail::new(format!("harness: {e}")))?;
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("answer")
        .arg(&file)
        .output()
        .map_err(|e| Fail::new(format!("harness: {e}")))?;
    if !o.status.success() {
        return Err(Fail::new(format!("another process ended with {}: {}\ntable:\n{table}\nasked: {asked:?}", o.status, String::from_utf8_lossy(&o.stderr))));
    }
    Ok(unpack(&o.stdout))
}

/// Strings with their lengths: any of them may hold any character.
fn pack(parts: &[String]) -> Vec<u8> {
    let mut q = vec![];
    for s in parts {
        q.extend_from_slice(&(s.len() as u64).to_le_bytes());
        q.extend_from_slice(s.as_bytes());
    }
    q
}
fn unpack(q: &[u8]) -> Vec<String> {
    let mut parts = vec![];
    let mut i = 0;
    while i + 8 <= q.len() {
        let n = u64::from_le_bytes(q[i..i + 8].try_into().unwrap()) as usize;
        parts.push(String::from_utf8(q[i + 8..i + 8 + n].to_vec()).unwrap());
        i += 8 + n;
    }
    parts
}

/// The other side of `ask_process`.
pub fn answer(file: &std::path::Path) -> i32 {
    let mut parts = unpack(&std::fs::read(file).unwrap()).into_iter();
    let mut next = || parts.next();
    let (table, direction) = (next().unwrap(), next().unwrap());
    let d = if direction == "forward" { Direction::Forward } else { Direction::Backward };
    let t = sut::build(&table, d).unwrap();
    let mut answers = vec![];
    while let Some(text) = next() {
        let n: usize = next().unwrap().parse().unwrap();
        let spans: Vec<Span> = (0..n).map(|_| (next().unwrap(), next().unwrap().parse().unwrap()..next().unwrap().parse().unwrap())).collect();
        answers.push(t.tr_spans(&text, &spans));
    }
    use std::io::Write;
    std::io::stdout().write_all(&pack(&answers)).unwrap();
    0
}

// ------------------------------------------------------------------------ C04

pub const C04: Prop = Prop {
    id: "C04",
    quick: 228_000,
    thorough: 8_000_000,
    rule: "the translation has a step of a rule",
    assumptions: &["the steps are those of louis trace, read through the hook", "the text of a rule stands for the same text in other case"],
    case: |s, ctx| {
        let (table, words, emph) = wild_table(s);
        let d = if s.chance(1, 3) { Direction::Backward } else { Direction::Forward };
        let Ok(t) = sut::build(&table, d) else {
            ctx.label("rejected");
            return Ok(());
        };
        for _ in 0..6 {
            let text = wild_text(s, &words);
            let spans = wild_spans(s, text.chars().count(), &emph);
            accounted(ctx, &table, &t, d, &text, &spans)?;
        }
        if s.chance(1, 8) {
            let i = s.below(real::all().len());
            let r = &real::all()[i];
            if let Some(t) = real::translator(i, d, 0) {
                let text = real::text(s, r);
                let spans = wild_spans(s, text.chars().count(), &r.classes);
                accounted(ctx, r.name, t, d, &text, &spans)?;
                ctx.label("real table");
            }
        }
        Ok(())
    },
    explicit: &[],
};

/// The stages of a forward translation, by the names that a trace gives them.
const STAGES: [&str; 5] = ["Pre", "Main", "Pass2", "Pass3", "Pass4"];

fn same_but_case(a: &str, b: &[char]) -> bool {
    a.chars().zip(b).all(|(a, b)| a == *b || a.to_lowercase().eq(b.to_lowercase()))
}

fn accounted(ctx: &mut Ctx, table: &str, t: &T, d: Direction, text: &str, spans: &[Span]) -> Outcome {
    ctx.note(format!("table:\n{table}{} text: {text:?}{}", name_of(d), show_spans(spans)));
    ctx.eval();
    let result = t.tr_spans(text, spans);
    let Some(stages) = sut::trace(t, text, &sut::options(spans)) else {
        ctx.label("no hook");
        return Ok(());
    };
    let fail = |what: String, ctx: &Ctx| -> Outcome { Err(Fail::new(format!("{what}\n{}\nsteps: {stages:?}", ctx.note))) };
    let mut now: Vec<char> = text.chars().collect();
    let mut before: Option<usize> = None;
    for (n, st) in stages.iter().enumerate() {
        let mut p = 0;
        let mut names: Vec<&str> = st.iter().map(|s| s.stage.as_str()).collect();
        names.dedup();
        match names[..] {
            [] => {}
            [name] => {
                let at = STAGES.iter().position(|s| *s == name);
                let later = match (before, at) {
                    (_, None) => false,
                    (None, _) => true,
                    (Some(b), Some(a)) => (d == Direction::Forward) == (b < a) && a != b,
                };
                if !later {
                    return fail(format!("stage {n} is called {name}"), ctx);
                }
                before = at;
            }
            _ => return fail(format!("stage {n} has steps of {names:?}"), ctx),
        }
        for step in st {
            let len = step.input.chars().count();
            if p + len > now.len() {
                return fail(format!("stage {n} consumes more than there is"), ctx);
            }
            if !same_but_case(&step.input, &now[p..p + len]) {
                let there: String = now[p..p + len].iter().collect();
                return fail(format!("stage {n}: a step consumes {:?} where there is {there:?}", step.input), ctx);
            }
            p += len;
        }
        if p != now.len() {
            return fail(format!("stage {n} consumes {p} of {} characters", now.len()), ctx);
        }
        now = st.iter().flat_map(|s| s.output.chars()).collect();
    }
    let last: String = now.into_iter().collect();
    if last != result {
        return fail(format!("the last stage gives {last:?}, the translation is {result:?}"), ctx);
    }
    if stages.iter().flatten().any(|s| s.has_rule) {
        ctx.nontrivial(&(table, text, show_spans(spans), name_of(d)));
        ctx.sample(|| format!("{}\nsteps: {stages:?}", ctx_note(table, d, text, spans)));
    }
    ctx.label_if(stages.len() > 1, "several stages");
    Ok(())
}
fn ctx_note(table: &str, d: Direction, text: &str, spans: &[Span]) -> String {
    format!("{table}{} text: {text:?}{}", name_of(d), show_spans(spans))
}

// ------------------------------------------------------------------------ C05

fn is_bad(r: &Result<T, Rejected>) -> Option<Vec<usize>> {
    match r {
        Err(Rejected { lines: Some(l), .. }) => Some(l.clone()),
        _ => None,
    }
}

pub const C05: Prop = Prop {
    id: "C05",
    quick: 1_500_000,
    thorough: 8_000_000,
    rule: "the table has both lines that are to be rejected and others",
    assumptions: &["what a well-formed line of each opcode is, and which mistakes make it invalid, is written down in lines.rs"],
    case: |s, ctx| {
        let mut table = String::new();
        let mut bad: Vec<usize> = vec![];
        let mut known = vec![];
        // now and then hundreds of lines: every mistake is reported
        let n = if s.chance(1, 300) { s.range(20, 500) } else { s.range(1, 10) };
        let end = *s.pick(&["\n", "\n", "\r\n"]);
        for line in 1..=n {
            let text = match s.below(9) {
                0 => s.pick(&["", " ", "\t", "   \t "]).to_string(),
                1 => {
                    let c = s.pick(&["#", " #", "\t# ", "##", "# always", "#always a x", "# \u{2028} é"]).to_string();
                    c
                }
                2 => {
                    // any line: it counts as bad exactly when it is bad by itself
                    let l = if s.chance(1, 3) { real::line(s) } else { lines::any(s) };
                    let l: String = l.chars().filter(|c| *c != '\n' && *c != '\r').collect();
                    if l.contains("include") {
                        continue_blank(&mut table, end);
                        continue;
                    }
                    if let Some(at) = is_bad(&sut::build(&l, Direction::Forward)) {
                        if at != [1] {
                            return Err(format!("the only line {l:?} was reported as {at:?}").into());
                        }
                        bad.push(line);
                    }
                    ctx.label("any line");
                    l
                }
                3 | 4 => {
                    let (t, why) = lines::invalid(s);
                    let l = spaced(s, &t);
                    bad.push(line);
                    ctx.label(&format!("invalid: {}", why.split(' ').take(2).collect::<Vec<_>>().join(" ")));
                    known.push((line, false, l.clone(), why));
                    l
                }
                _ => {
                    let v = lines::valid(s);
                    let mut t = v.tokens;
                    if s.chance(1, 5) && t.last().is_some_and(|l| l != "replace") && t[0] != "multind" && !t.contains(&"replace".to_string()) {
                        t.push(s.pick(&["remark", "# remark", "-", "é \"x", "=", "always"]).to_string());
                    }
                    let l = spaced(s, &t);
                    known.push((line, true, l.clone(), String::new()));
                    ctx.label("valid line");
                    l
                }
            };
            table.push_str(&text);
            if line < n || s.bool() {
                table.push_str(end);
            }
        }
        ctx.note(format!("table:\n{table}\nbad lines: {bad:?}"));
        ctx.eval();
        // what is known about single lines
        for (line, ok, l, why) in &known {
            let r = sut::build(l, Direction::Forward);
            match (ok, is_bad(&r)) {
                (true, Some(_)) => return Err(format!("line {line} is valid but rejected: {l:?}: {}", r.err().unwrap().text).into()),
                (false, None) => return Err(format!("line {line} is accepted: {l:?}: {why}").into()),
                _ => {}
            }
        }
        for d in [Direction::Forward, Direction::Backward] {
            let r = sut::build(&table, d);
            match is_bad(&r) {
                None if bad.is_empty() => {}
                Some(l) if l == bad => {}
                got => {
                    return Err(format!("table:\n{table}\nbad lines: {bad:?}\nreported: {got:?}: {}", r.err().map(|e| e.text).unwrap_or_default()).into());
                }
            }
        }
        if !bad.is_empty() && bad.len() < n {
            ctx.nontrivial(&table);
            ctx.sample(|| format!("{table}\nbad lines: {bad:?}"));
        }
        Ok(())
    },
    explicit: &[("increment", |ctx| {
        ctx.eval();
        for a in ["#1+", "#1-", "*#1+", "#1+#2-"] {
            for k in ["context", "pass2", "correct"] {
                let t = format!("letter a 1\n{k} {} {a}\n", if k == "pass2" { "@1" } else { "\"a\"" });
                if let Some(l) = is_bad(&sut::build(&t, Direction::Forward)) {
                    return Err(format!("rejected in line {l:?}: {t}").into());
                }
            }
        }
        Ok(())
    })],
};

fn continue_blank(table: &mut String, end: &str) {
    table.push_str(end);
}

fn spaced(s: &mut Src, tokens: &[String]) -> String {
    let mut l = s.pick(&["", "", "", " ", "\t"]).to_string();
    for (i, t) in tokens.iter().enumerate() {
        if i > 0 {
            l.push_str(s.pick(&[" ", " ", "\t", "  ", " \t "]));
        }
        l.push_str(t);
    }
    l.push_str(s.pick(&["", "", " ", "\t"]));
    l
}
