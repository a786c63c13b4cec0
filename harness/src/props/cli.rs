//! The command line tool: C21 (tests in YAML files), C22 (display tables), C23 (queries) and C24.

use super::common::*;
use super::total::{wild_spans, wild_text};
use crate::engine::*;
use crate::generate::*;
use crate::lines;
use crate::real;
use crate::sut::{self, Direction, Span};
use crate::table::*;
use std::collections::{BTreeSet, HashMap};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

unsafe extern "C" {
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
}

#[derive(Debug)]
pub struct Ran {
    pub out: String,
    pub err: String,
    /// None when it was killed
    pub code: Option<i32>,
}

/// Runs `louis` with these arguments and this input.
pub fn louis<S: AsRef<std::ffi::OsStr>>(args: &[S], input: Option<&str>, dir: &Path, path: &[PathBuf]) -> Result<Ran, String> {
    let exe = std::env::current_exe().unwrap().with_file_name("louis");
    let path: Vec<String> = path.iter().map(|d| d.to_string_lossy().into_owned()).collect();
    let mut c = Command::new(exe);
    c.args(args)
        .current_dir(dir)
        .env("LOUIS_TABLE_PATH", path.join(":"))
        .env("RAYON_NUM_THREADS", "3")
        .env_remove("RUST_LOG")
        .env_remove("RUST_BACKTRACE")
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            // seconds of CPU time
            let limit = [20u64, 20];
            setrlimit(0, &limit);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| format!("harness: {e}"))?;
    if let Some(text) = input {
        use std::io::Write;
        let mut stdin = child.stdin.take().unwrap();
        // the tool may end before it has read everything
        let _ = stdin.write_all(text.as_bytes());
    }
    let o = child.wait_with_output().map_err(|e| format!("harness: {e}"))?;
    let text = |b: Vec<u8>| String::from_utf8(b).map_err(|_| "the output is not UTF-8".to_string());
    Ok(Ran { out: text(o.stdout)?, err: text(o.stderr)?, code: o.status.code() })
}

pub fn finished(r: &Ran) -> Result<(), String> {
    if r.code != Some(0) || r.err.contains("panicked") {
        return Err(format!("ended with {:?}: {}", r.code, r.err));
    }
    Ok(())
}

pub fn fresh(dir: &Path) -> PathBuf {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    dir.to_path_buf()
}

// ----------------------------------------------------------------------- YAML

/// A scalar of YAML in one of its spellings.
fn scalar(s: &mut Src, v: &str) -> String {
    let printable = v.chars().all(|c| !c.is_control() && c != '\u{feff}' && !('\u{2028}'..='\u{2029}').contains(&c) && c as u32 != 0x85 && (c as u32) < 0xfffe);
    let plain = printable && !v.is_empty() && v.chars().all(|c| c.is_alphanumeric() || ('\u{2800}'..='\u{28ff}').contains(&c));
    match s.below(4) {
        0 if plain => v.to_string(),
        1 | 2 if printable => format!("'{}'", v.replace('\'', "''")),
        _ => {
            let mut o = String::from("\"");
            for c in v.chars() {
                match c {
                    '"' => o += "\\\"",
                    '\\' => o += "\\\\",
                    '\n' => o += "\\n",
                    '\t' => o += "\\t",
                    c if printable && s.chance(3, 4) => o.push(c),
                    c if (c as u32) < 0x100 => o += &format!("\\x{:02x}", c as u32),
                    c if (c as u32) < 0x10000 => o += &format!("\\u{:04x}", c as u32),
                    c => o += &format!("\\U{:08x}", c as u32),
                }
            }
            o + "\""
        }
    }
}

/// The texts of tests are unescaped like the operands of tables.
fn escaped(s: &mut Src, v: &str) -> String {
    v.chars()
        .map(|c| match c {
            '\\' => "\\\\".to_string(),
            // the YAML library ends a string there
            '\0' => "\\x0000".to_string(),
            ' ' if s.chance(1, 8) => "\\s".to_string(),
            c if (c as u32) < 0x10000 && s.chance(1, 16) => format!("\\x{:04x}", c as u32),
            c => c.to_string(),
        })
        .collect()
}

fn block(key: &str, lines: &[String]) -> String {
    let mut t = format!("{key}: |\n");
    for l in lines {
        t += &format!("  {l}\n");
    }
    t
}

type Map = Vec<(char, Cell)>;

/// What a display table does to a text: of two rules about the same the first one is applied.
fn displayed(rules: &[(Map, Vec<Dir>)], forward: bool, text: &str) -> String {
    let mut m: HashMap<char, char> = HashMap::new();
    for (map, dirs) in rules {
        for ((c, cell), dir) in map.iter().zip(dirs) {
            if *dir == (if forward { Dir::NoFor } else { Dir::NoBack }) {
                continue;
            }
            if forward {
                m.entry(cell_char(*cell)).or_insert(*c);
            } else {
                m.entry(*c).or_insert(cell_char(*cell));
            }
        }
    }
    text.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect()
}

fn display_rules(s: &mut Src, n: usize, cells: &[Cell]) -> (Map, Vec<Dir>) {
    let mut map = vec![];
    let mut dirs = vec![];
    for _ in 0..n {
        let c = if s.chance(1, 8) { s.scalar() } else { s.ch("abcdefgABC123 .,⠁⠃xé") };
        let cell = if !cells.is_empty() && s.chance(2, 3) { *s.pick(cells) } else { s.below(256) as Cell };
        map.push((c, cell));
        dirs.push(match s.below(8) {
            0 => Dir::NoFor,
            1 => Dir::NoBack,
            _ => Dir::Both,
        });
    }
    (map, dirs)
}
fn display_lines(s: &mut Src, (map, dirs): &(Map, Vec<Dir>)) -> Vec<String> {
    let mut out = vec![];
    for ((c, cell), dir) in map.iter().zip(dirs) {
        let mut st = Style { src: Some(s) };
        let line = format!("display {} {}", st.operand(&c.to_string()), st.cell(*cell));
        out.push(match dir {
            Dir::NoFor => format!("nofor {line}"),
            Dir::NoBack => format!("noback {line}"),
            Dir::Both => line,
        });
    }
    out
}

/// A table and where it stands in the YAML file: in the file, in another file, in two other files.
fn table_value(s: &mut Src, key: &str, lines: &[String], dir: &Path, names: &mut usize) -> String {
    let mut file = |lines: &[String]| {
        *names += 1;
        let name = format!("f{names}.ctb");
        std::fs::write(dir.join(&name), lines.iter().map(|l| format!("{l}\n")).collect::<String>()).unwrap();
        name
    };
    match s.below(5) {
        0 | 1 if !lines.is_empty() && lines.iter().all(|l| block_ok(l)) => block(key, lines),
        2 => format!("{key}: {}\n", file(lines)),
        3 => {
            let cut = s.below(lines.len() + 1);
            let (a, b) = (file(&lines[..cut]), file(&lines[cut..]));
            if s.bool() {
                format!("{key}: [{a}, {b}]\n")
            } else if key == "display" && s.bool() {
                format!("{key}: {a},{b}\n")
            } else {
                format!("{key}:\n  - {a}\n  - {b}\n")
            }
        }
        4 if key == "table" => format!("{key}: {{locale: xx, __assert-match: {}}}\n", file(lines)),
        _ => format!("{key}: \"{}\"\n", file(lines)),
    }
}
/// Whether a line survives a block of YAML as it is.
fn block_ok(l: &str) -> bool {
    !l.is_empty() && !l.starts_with([' ', '\t']) && l.chars().all(|c| (!c.is_control() || c == '\t') && !('\u{2028}'..='\u{2029}').contains(&c) && !('\u{fffe}'..='\u{ffff}').contains(&c) && c != '\u{85}' && c != '\u{feff}')
}

#[derive(Clone, Debug)]
enum Xfail {
    No,
    Yes,
    Per(Option<bool>, Option<bool>),
}
impl Xfail {
    fn of(s: &mut Src) -> (Xfail, Option<String>) {
        match s.below(10) {
            0 => (Xfail::Yes, Some("true".into())),
            1 => (Xfail::Yes, Some(s.pick(&["on", "\"on\"", "a reason", "TRUE", "yes", "Fix me", "\"a: reason\"", "''", "' '", "'#12 | off'", "offline"]).to_string())),
            2 => (Xfail::No, Some(s.pick(&["off", "false", "\"off\""]).to_string())),
            3 | 4 => {
                let f = if s.bool() { Some(s.bool()) } else { None };
                let b = if s.bool() { Some(s.bool()) } else { None };
                let mut parts = vec![];
                for (name, v) in [("forward", f), ("backward", b)] {
                    if let Some(v) = v {
                        let t = if v { s.pick(&["true", "on", "not yet", "\"\""]) } else { s.pick(&["false", "off"]) };
                        parts.push(format!("{name}: {t}"));
                    }
                }
                if s.bool() {
                    parts.reverse();
                }
                (Xfail::Per(f, b), Some(format!("{{{}}}", parts.join(", "))))
            }
            _ => (Xfail::No, None),
        }
    }
    fn holds(&self, forward: bool) -> bool {
        match self {
            Xfail::No => false,
            Xfail::Yes => true,
            Xfail::Per(f, b) => (if forward { f } else { b }).unwrap_or(false),
        }
    }
}

/// The masks of a typeform; each class occurs once.
fn typeform(s: &mut Src, spans: &[Span], n: usize) -> (String, Vec<Span>) {
    let mut parts = vec![];
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    for (class, r) in spans {
        if r.is_empty() || r.start >= n || !seen.insert(class.clone()) || !class.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') || class.is_empty() {
            continue;
        }
        let r = r.start..r.end.min(n);
        let mut mask: Vec<char> = vec!['-'; r.end];
        for i in r.clone() {
            mask[i] = '+';
        }
        out.push((class.clone(), r.clone()));
        if s.chance(1, 3) && r.end + 1 < n {
            // a second stretch
            mask.extend("- ".chars().take(1));
            mask.push('+');
            out.push((class.clone(), r.end + 1..r.end + 2));
        }
        while mask.len() < n && s.bool() {
            mask.push(s.ch("- x"));
        }
        parts.push(format!("{class}: '{}'", mask.iter().collect::<String>()));
    }
    (format!("{{{}}}", parts.join(", ")), out)
}

struct Doc {
    text: String,
    /// what is printed for the tests that don't succeed
    printed: Vec<String>,
    counts: [usize; 5],
    /// the file can't be run as a whole
    broken: bool,
}

/// What makes a whole YAML file unusable.
const MALFORMED: &[&str] = &[
    "nonsense: 1\n",
    "Tests:\n  - [a, b]\n",
    "flags: {testmode: sideways}\n",
    "flags: {testmode: Forward}\n",
    "flags: {mode: forward}\n",
    "flags: forward\n",
    "tests:\n  - [a]\n",
    "tests:\n  - []\n",
    "tests:\n  - [a, b, c, d]\n",
    "tests:\n  - {a: b}\n",
    "tests:\n  - [a, [b]]\n",
    "tests: yes\n",
    "tests:\n  - [a, b, {xfail: [forward]}]\n",
    "tests:\n  - [a, b, {xfail: {sideways: true}}]\n",
    "tests:\n  - [a, b, {xfial: true}]\n",
    "tests:\n  - [a, b, {typeform: ++}]\n",
    "tests:\n  - [a, b, {typeform: [x, ++]}]\n",
    "tests:\n  - [a, b, {inputPos: [a]}]\n",
    "tests:\n  - [a, b, {outputPos: [-1]}]\n",
    "tests:\n  - [a, b, {cursorPos: x}]\n",
    "tests:\n  - [a, b, {cursorPos: [1]}]\n",
    "tests:\n  - [a, b, {cursorPos: [1, 2, 3]}]\n",
    "tests:\n  - [a, b, {maxOutputLength: 65536}]\n",
    "tests:\n  - [a, b, {realInputLength: 1.5}]\n",
    "tests:\n  - [a, b, {mode: [sideways]}]\n",
    "tests:\n  - [a, b, {mode: noContractions}]\n",
    "tests:\n  - ['\\q', b]\n",
    "tests:\n  - [a, '\\x12']\n",
    "tests:\n  - [a, b\n",
    "tests:\n  - [a, 'b]\n",
    "tests:\n\t- [a, b]\n",
    "---\ntests:\n  - [a, b]\n",
    "table: {locale: xx}\ntests:\n  - [a, b]\n",
    "table: nowhere.ctb\ntests:\n  - [a, b]\n",
    "table: [[x]]\ntests:\n  - [a, b]\n",
    "display: {locale: xx}\ntests:\n  - [a, b]\n",
    "flags: {testmode: forward}\ntable: |\n  letter a\ntests:\n  - [a, b]\n",
    "flags: {testmode: backward}\ntable: |\n  include nowhere.ctb\ntests:\n  - [a, b]\n",
    "- a\n",
];

/// A YAML file with tests, right ones and wrong ones, and what they come to.
fn document(s: &mut Src, ctx: &mut Ctx, dir: &Path, names: &mut usize) -> Result<Doc, Fail> {
    let mut doc = Doc { text: String::new(), printed: vec![], counts: [0; 5], broken: false };
    let mut display: Vec<(Map, Vec<Dir>)> = vec![];
    let mut mode = "forward";
    for part in 0..s.range(1, 3) {
        if s.chance(1, 4) {
            let n = s.below(8);
            let d = display_rules(s, n, &[]);
            let lines = display_lines(s, &d);
            doc.text += &table_value(s, "display", &lines, dir, names);
            display = vec![d];
        }
        let mut tables = vec![];
        let mut words = vec![];
        let mut emph = vec![];
        let mut used = vec![];
        for _ in 0..s.weighted(&[0, 5, 1, 1]) {
            let mut g = Gen::new(s);
            if g.s.bool() {
                g.mixed();
            } else {
                g.base();
                g.emphasis();
                g.contraction();
            }
            let (rules, w, e, u) = (std::mem::take(&mut g.rules), g.words.clone(), g.emph.clone(), g.used.clone());
            if s.chance(1, 6) && !tables.is_empty() {
                // a table after anything else replaces the others
                if s.bool() {
                    let n = s.below(8);
                    let d = display_rules(s, n, &[]);
                    let lines = display_lines(s, &d);
                    doc.text += &table_value(s, "display", &lines, dir, names);
                    display = vec![d];
                } else {
                    doc.text += &format!("flags: {{testmode: {mode}}}\n");
                }
                tables.clear();
                ctx.label("tables that are replaced");
            }
            words.extend(w);
            emph.extend(e);
            used.extend(u);
            let lines: Vec<String> = rules.iter().map(|r| r.to_string()).collect();
            doc.text += &table_value(s, "table", &lines, dir, names);
            tables.push(render(&rules));
        }
        if part == 0 && s.bool() || s.chance(1, 2) {
            mode = *s.pick(&["forward", "backward", "bothDirections", "bothDirections"]);
            doc.text += &format!("flags: {{testmode: {mode}}}\n");
        }
        let directions: &[Direction] = match mode {
            "forward" => &[Direction::Forward],
            "backward" => &[Direction::Backward],
            _ => &[Direction::Forward, Direction::Backward],
        };
        let mut built = vec![];
        for t in &tables {
            for d in directions {
                match sut::build(t, *d) {
                    Ok(b) => built.push((*d, b)),
                    Err(_) => doc.broken = true,
                }
            }
        }
        if doc.broken {
            ctx.label("a table is rejected");
        }
        doc.text += "tests:\n";
        let n = s.range(1, 5);
        let mut results: Vec<(usize, usize, usize, [usize; 4], String)> = vec![];
        for t in 0..n {
            let first = directions[0] == Direction::Forward;
            let mut input = wild_text(s, &words);
            if !first {
                input = used.iter().take(s.below(6)).map(|c| cell_char(*c)).collect::<String>() + &input;
            }
            let spans = if s.chance(1, 3) { wild_spans(s, input.chars().count(), &emph) } else { vec![] };
            let (form, spans) = typeform(s, &spans, input.chars().count());
            let run = |d: Direction, b: &sut::T, input: &str| {
                ctx.eval();
                if d == Direction::Forward {
                    displayed(&display, true, &b.tr_spans(input, &spans))
                } else {
                    b.tr_spans(&displayed(&display, false, input), &spans)
                }
            };
            let mut run = run;
            let mut expected = match built.iter().find(|(d, _)| *d == directions[0]) {
                Some((d, b)) => run(*d, b, &input),
                None => "x".into(),
            };
            match s.below(6) {
                0 => expected = wild_text(s, &words),
                1 => expected.push(' '),
                2 => {
                    expected.pop();
                }
                _ => {}
            }
            if expected.chars().count() > 100 {
                expected = expected.chars().take(100).collect();
            }
            let (xfail, how) = Xfail::of(s);
            // written in some of the ways
            let (i, e) = (escaped(s, &input), escaped(s, &expected));
            let (i, e) = (scalar(s, &i), scalar(s, &e));
            let mut fields = vec![i, e];
            if s.chance(1, 6) {
                fields.insert(0, "'a description'".into());
            }
            let mut options = vec![];
            if let Some(how) = how {
                options.push(format!("xfail: {how}"));
            }
            if !spans.is_empty() || s.chance(1, 8) {
                options.push(format!("typeform: {form}"));
            }
            if s.chance(1, 10) {
                options.push("inputPos: [0, 1]".into());
            }
            if s.chance(1, 10) {
                options.push(s.pick(&["cursorPos: 0", "cursorPos: [1, 2]"]).to_string());
            }
            if s.chance(1, 10) {
                // nothing is made of these
                let more = ["outputPos: [0]", "expected_typeform: {italic: '+'}", "realInputLength: 3", "maxOutputLength: 65535", "mode: []"];
                options.push(s.pick(&more).to_string());
            }
            s.shuffle(&mut options);
            if !options.is_empty() {
                fields.push(format!("{{{}}}", options.join(", ")));
            }
            doc.text += &format!("  - [{}]\n", fields.join(", "));
            for (k, (d, b)) in built.iter().enumerate() {
                let forward = *d == Direction::Forward;
                let swapped = mode == "bothDirections" && !forward;
                let (input, expected) = if swapped { (&expected, &input) } else { (&input, &expected) };
                let actual = run(*d, b, input);
                let dir = if forward { "Forward" } else { "Backward" };
                let details = format!("input: {input:?}, expected: {expected:?}, actual: {actual:?}, direction: {dir}");
                let (kind, line) = match (actual == *expected, xfail.holds(forward)) {
                    (true, false) => (0, String::new()),
                    (false, false) => (1, format!("Failure {{ {details} }}")),
                    (false, true) => (2, format!("ExpectedFailure {{ {details} }}")),
                    (true, true) => (3, format!("UnexpectedSuccess {{ input: {input:?}, direction: {dir} }}")),
                };
                let mut c = [0; 4];
                c[kind] = 1;
                results.push((if forward { 0 } else { 1 }, k, t, c, line));
            }
        }
        // first all tables forward, then all tables backward
        results.sort_by_key(|r| (r.0, r.1, r.2));
        for (_, _, _, c, line) in results {
            doc.counts[0] += 1;
            for (i, n) in c.iter().enumerate() {
                doc.counts[i + 1] += n;
            }
            if !line.is_empty() {
                doc.printed.push(line);
            }
        }
    }
    Ok(doc)
}

pub const C21: Prop = Prop {
    id: "C21",
    quick: 24_000,
    thorough: 500_000,
    rule: "a file of the run has tests with at least two different verdicts",
    assumptions: &["the translations that the tests ask for are those of the library (C01 to C19 are about them)"],
    case: |s, ctx| {
        let dir = fresh(&ctx.scratch.join("yaml"));
        let mut names = 0;
        let mut docs = vec![];
        let mut paths = vec![];
        for i in 0..s.weighted(&[0, 4, 2, 1]) {
            let mut doc = document(s, ctx, &dir, &mut names)?;
            let name = format!("doc{i}.yaml");
            let mut bytes = vec![];
            if s.chance(1, 6) {
                doc.broken = true;
                ctx.label("malformed");
                match s.below(12) {
                    0 => doc.text.clear(),
                    1 => doc.text = "tests".into(),
                    2 => bytes = doc.text.encode_utf16().chain("".encode_utf16()).flat_map(|u| u.to_le_bytes()).collect(),
                    3 => doc.text = MALFORMED[s.below(MALFORMED.len())].trim_start_matches("---\n").to_string() + "nonsense:\n" + &doc.text,
                    _ => doc.text += MALFORMED[s.below(MALFORMED.len())],
                }
            }
            if bytes.is_empty() {
                bytes = doc.text.clone().into_bytes();
            } else {
                bytes.splice(0..0, [0xff, 0xfe]);
            }
            if doc.broken && s.chance(1, 16) {
                ctx.label("missing");
            } else {
                std::fs::write(dir.join(&name), &bytes).unwrap();
            }
            paths.push(name);
            docs.push(doc);
        }
        let shown = || docs.iter().map(|d| d.text.clone()).collect::<Vec<_>>().join("\n----\n");
        ctx.note(shown());
        let summary = s.chance(1, 3);
        let mut args: Vec<String> = vec!["check".into()];
        if summary {
            args.push("--summary".into());
        }
        args.extend(paths.iter().cloned());
        let r = louis(&args, None, &dir, &[dir.clone()])?;
        let fail = |what: String| -> Outcome { Err(format!("{what}\nYAML:\n{}\nprinted:\n{}{}", shown(), r.out, r.err).into()) };
        if let Err(e) = finished(&r) {
            return fail(e);
        }
        let ok: Vec<&Doc> = docs.iter().filter(|d| !d.broken).collect();
        if ok.len() == docs.len() && !r.err.is_empty() {
            return fail("a file was not run".into());
        }
        for (d, p) in docs.iter().zip(&paths) {
            if d.broken != r.err.contains(p.as_str()) {
                return fail(format!("{p}: {}", if d.broken { "nothing is said about what is wrong with it" } else { "nothing is wrong with it" }));
            }
        }
        if summary {
            if let Some(l) = r.out.lines().find(|l| docs.iter().any(|d| d.printed.iter().any(|p| p == l))) {
                return fail(format!("the summary lists {l}"));
            }
            let mut rows: Vec<(String, [usize; 5])> =
                docs.iter().zip(&paths).filter(|(d, _)| !d.broken).map(|(d, p)| (p.clone(), d.counts)).collect();
            let mut total = [0; 5];
            for (_, c) in &rows {
                for i in 0..5 {
                    total[i] += c[i];
                }
            }
            rows.push(("Total".into(), total));
            let mut seen: Vec<(String, usize, Vec<f64>)> = vec![];
            for l in r.out.lines() {
                let cells: Vec<&str> = l.split('│').map(|c| c.trim()).collect();
                if cells.len() < 8 {
                    continue;
                }
                let Ok(n) = cells[2].parse() else { continue };
                let p: Vec<f64> = cells[3..7].iter().map(|c| c.trim_end_matches('%').parse().unwrap_or(f64::NAN)).collect();
                seen.push((cells[1].to_string(), n, p));
            }
            if seen.len() != rows.len() {
                return fail(format!("{} rows in the summary, not {}", seen.len(), rows.len()));
            }
            for (name, c) in &rows {
                let Some((_, n, p)) = seen.iter().find(|r| r.0 == *name) else { return fail(format!("{name} is missing in the summary")) };
                if *n != c[0] {
                    return fail(format!("{name}: {n} tests, not {}", c[0]));
                }
                for i in 0..4 {
                    let percent = c[i + 1] as f64 * 100.0 / c[0] as f64;
                    if c[0] > 0 && !((p[i] - percent).abs() < 0.1) {
                        return fail(format!("{name}: {p:?} of the verdicts {:?}", &c[1..]));
                    }
                }
            }
        } else {
            let printed: Vec<&str> = ok.iter().flat_map(|d| d.printed.iter().map(|l| l.as_str())).collect();
            let lines: Vec<&str> = r.out.lines().collect();
            if lines != printed {
                return fail(format!("expected is:\n{}\n", printed.join("\n")));
            }
        }
        for d in &ok {
            ctx.label(&format!("{} verdicts", d.counts[1..].iter().filter(|c| **c > 0).count()));
            if d.counts[1..].iter().filter(|c| **c > 0).count() > 1 {
                ctx.nontrivial(&d.text);
                ctx.sample(|| d.text.clone());
            }
        }
        Ok(())
    },
    explicit: &[],
};

// ------------------------------------------------------------------------ C22

pub const C22: Prop = Prop {
    id: "C22",
    quick: 42_000,
    thorough: 500_000,
    rule: "the display table changes the text, or two of its rules are about the same character or cell",
    assumptions: &["display tables are observed through the tests of `louis check`: the library doesn't have them"],
    case: |s, ctx| {
        let dir = fresh(&ctx.scratch.join("display"));
        let mut names = 0;
        let mut g = Gen::new(s);
        g.base();
        g.contraction();
        let table = render(&g.rules);
        let (words, used) = (g.words.clone(), g.used.clone());
        let (Ok(f), Ok(b)) = (sut::forward(&table), sut::backward(&table)) else { return Ok(()) };
        let lines: Vec<String> = table.lines().map(|l| l.to_string()).collect();
        let n = s.below(14);
        let d = display_rules(s, n, &used);
        let mut dl = display_lines(s, &d);
        if s.chance(1, 4) {
            // other rules don't matter in a display table
            for l in ["letter a 1", "always ab 12", "# display a 1"] {
                let at = s.below(dl.len() + 1);
                dl.insert(at, l.into());
            }
        }
        let display = vec![d];
        let mut doc = table_value(s, "table", &lines, &dir, &mut names);
        doc += &table_value(s, "display", &dl, &dir, &mut names);
        let mut texts = vec![];
        for forward in [true, false] {
            doc += &format!("flags: {{testmode: {}}}\ntests:\n", if forward { "forward" } else { "backward" });
            for _ in 0..s.range(1, 5) {
                ctx.eval();
                let input = if forward {
                    wild_text(s, &words)
                } else {
                    (0..s.below(8)).map(|_| if s.bool() || display[0].0.is_empty() { s.ch("abcdefgABC123 .,⠁⠃xé") } else { s.pick(&display[0].0).0 }).collect()
                };
                let (raw, out) = if forward {
                    let raw = f.tr(&input);
                    let out = displayed(&display, true, &raw);
                    (raw, out)
                } else {
                    let cells = displayed(&display, false, &input);
                    (input.clone(), b.tr(&cells))
                };
                let changed = if forward { raw != out } else { displayed(&display, false, &input) != input };
                if changed {
                    ctx.nontrivial(&(&table, &input, forward));
                    ctx.label(if forward { "changed forward" } else { "changed backward" });
                }
                let (i, o) = (escaped(s, &input), escaped(s, &out));
                doc += &format!("  - [{}, {}]\n", scalar(s, &i), scalar(s, &o));
                texts.push((input, out));
            }
        }
        std::fs::write(dir.join("doc.yaml"), &doc).unwrap();
        ctx.note(doc.clone());
        let r = louis(&["check", "doc.yaml"], None, &dir, &[dir.clone()])?;
        finished(&r)?;
        if !r.out.is_empty() || !r.err.is_empty() {
            return Err(format!("display table:\n{}\n\nYAML:\n{doc}\nprinted:\n{}{}", dl.join("\n"), r.out, r.err).into());
        }
        ctx.sample(|| doc.clone());
        Ok(())
    },
    explicit: &[],
};

// ------------------------------------------------------------------------ C23

/// The set of paths that `louis query` prints.
fn paths_of(out: &str) -> Option<Vec<String>> {
    let inner = out.trim_end_matches('\n').strip_prefix('{')?.strip_suffix('}')?;
    let mut v = vec![];
    let mut rest = inner;
    while !rest.is_empty() {
        rest = rest.strip_prefix('"')?;
        let end = rest.find('"')?;
        v.push(rest[..end].to_string());
        rest = &rest[end + 1..];
        rest = rest.strip_prefix(", ").unwrap_or(rest);
    }
    Some(v)
}

pub const C23: Prop = Prop {
    id: "C23",
    quick: 40_000,
    thorough: 500_000,
    rule: "some tables, but not all, are found",
    assumptions: &["names of files are made of letters, digits, dots and hyphens", "the directories of the search path exist"],
    case: |s, ctx| {
        let base = fresh(&ctx.scratch.join("meta"));
        let keys = ["language", "type", "Type", "grade", "x1", "dots"];
        let values = ["en", "fr", "EN", "literary", "1", "2", "a=b", "en-us", "e:n", "=", "literary!"];
        let dirs: Vec<PathBuf> = (0..s.range(1, 3)).map(|d| base.join(format!("d{d}"))).collect();
        let mut all: Vec<(String, BTreeSet<(String, String)>)> = vec![];
        // what lines that are no metadata could be taken for
        let mut not: Vec<(String, String)> = vec![];
        let mut shown = String::new();
        for d in &dirs {
            std::fs::create_dir_all(d).unwrap();
            for k in 0..s.below(5) {
                let name = format!("{}{k}.{}", s.pick(&["t", "en-", "x"]), s.pick(&["ctb", "utb", "txt", "ctb"]));
                let path = d.join(&name);
                let mut meta = BTreeSet::new();
                let mut t = String::new();
                let end = *s.pick(&["\n", "\n", "\r\n"]);
                for _ in 0..s.below(7) {
                    let (key, value) = (s.pick(&keys).to_string(), s.pick(&values).to_string());
                    match s.below(12) {
                        // not metadata
                        0 => t += &format!("# {key}:{value}"),
                        1 => t += &format!(" #+{key}:{value}"),
                        2 => t += &format!("#+{key}:"),
                        3 => {
                            let v = format!("{value}{}{value}", s.pick(&[" ", "\t", "\u{7f}", "\u{a0}", "\u{1}"]));
                            t += &format!("#+{key}:{v}");
                            not.push((key, v));
                        }
                        4 => {
                            let k = match s.below(4) {
                                0 => format!("{key}-y"),
                                1 => format!("{key} y"),
                                2 => format!("{key}é"),
                                _ => format!("_{key}"),
                            };
                            t += &format!("#+{k}:{value}");
                            not.push((k, value));
                        }
                        5 => t += &format!("#-{key}:{value}"),
                        6 => t += "always a 1",
                        7 => {
                            let v = if s.bool() { format!("é{value}") } else { format!("{value}ñ") };
                            t += &format!("#+{key}:{v}");
                            not.push((key, v));
                        }
                        // metadata
                        k => {
                            match k {
                                8 => t += &format!("#+{key}: {value}"),
                                9 => t += &format!("#+ {key} :\t{value}  "),
                                _ => t += &format!("#+{key}:{value}"),
                            }
                            meta.insert((key, value));
                        }
                    }
                    t += end;
                }
                if s.chance(1, 12) {
                    // what is no text is no table
                    let mut bytes = t.clone().into_bytes();
                    bytes.extend([0xff, 0xfe]);
                    std::fs::write(&path, bytes).unwrap();
                    meta.clear();
                } else {
                    std::fs::write(&path, &t).unwrap();
                }
                shown += &format!("--- {}\n{t}", path.display());
                all.push((path.to_string_lossy().into_owned(), meta));
            }
            if s.chance(1, 4) {
                // directories below are not searched
                let sub = d.join("sub.ctb");
                std::fs::create_dir_all(&sub).unwrap();
                std::fs::write(sub.join("t.ctb"), "#+language:en\n#+type:literary\n").unwrap();
            }
        }
        for _ in 0..s.range(1, 3) {
            ctx.eval();
            let mut query: Vec<(String, String)> = vec![];
            let of: Vec<(String, String)> = if !all.is_empty() && s.chance(2, 3) { s.pick(&all).1.iter().cloned().collect() } else { vec![] };
            for _ in 0..s.weighted(&[0, 4, 3, 1]) {
                query.push(if !not.is_empty() && s.chance(1, 8) {
                    ctx.label("query of invalid metadata");
                    s.pick(&not).clone()
                } else if !of.is_empty() && s.chance(4, 5) {
                    s.pick(&of).clone()
                } else {
                    (s.pick(&keys).to_string(), s.pick(&values).to_string())
                });
            }
            let q: String = query.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",");
            ctx.note(format!("{shown}\nquery: {q}"));
            let r = louis(&["query", &q], None, &base, &dirs)?;
            finished(&r)?;
            let Some(found) = paths_of(&r.out) else { return Err(format!("{shown}\nquery: {q}\nprinted: {}{}", r.out, r.err).into()) };
            let set: BTreeSet<String> = found.iter().cloned().collect();
            let expected: BTreeSet<String> =
                all.iter().filter(|(_, m)| query.iter().all(|kv| m.contains(kv))).map(|(p, _)| p.clone()).collect();
            if set != expected || found.len() != set.len() {
                return Err(format!("{shown}\nquery: {q}\nfound:    {found:?}\nexpected: {expected:?}\n{}", r.err).into());
            }
            ctx.label(&format!("{} found", expected.len()));
            if !expected.is_empty() && expected.len() < all.len() {
                ctx.nontrivial(&(&shown, &q));
                ctx.sample(|| format!("{shown}query: {q}\n{expected:?}"));
            }
        }
        if s.chance(1, 8) {
            // what is no query
            ctx.eval();
            let q = s.pick(&["", "language", "language=en,type", ",", "language=en,"]);
            let r = louis(&["query", q], None, &base, &dirs)?;
            finished(&r)?;
            if !r.out.is_empty() || r.err.is_empty() {
                return Err(format!("query {q:?} printed {:?} and {:?}", r.out, r.err).into());
            }
        }
        Ok(())
    },
    explicit: &[("no_query", |ctx| {
        for q in ["", "x", "a=b,x", ","] {
            ctx.eval();
            let r = louis(&["query", q], None, &ctx.scratch.clone(), &[ctx.scratch.clone()])?;
            finished(&r)?;
        }
        Ok(())
    })],
};

// ------------------------------------------------------------------------ C24

/// `louis parse` without a table reads rules from its input, and says of each what it is.
fn parse_lines(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let dir = fresh(&ctx.scratch.join("parse"));
    let mut lines = vec![];
    let mut good = vec![];
    for _ in 0..s.range(1, 12) {
        let l = match s.below(8) {
            0 => s.pick(&["", "#", "# a comment", "#always a 1"]).to_string(),
            1 | 2 => lines::any(s),
            3 => real::line(s),
            4 => lines::invalid(s).0.join(" "),
            _ => lines::valid(s).tokens.join(" "),
        };
        if l.contains(['\n', '\r']) || l.trim_start().starts_with('#') != l.starts_with('#') || l.trim().is_empty() && !l.is_empty() {
            continue;
        }
        if !l.is_empty() && !l.starts_with('#') {
            if l.contains("include") {
                continue;
            }
            // on its own
            good.push(sut::build(&l, Direction::Forward).map_or_else(|e| e.lines.is_none(), |_| true));
        }
        lines.push(l);
    }
    let input: String = lines.iter().map(|l| format!("{l}\n")).collect();
    ctx.note(format!("louis parse\n{input}"));
    ctx.eval();
    ctx.label("parse lines");
    let r = louis(&["parse"], Some(&input), &dir, &[dir.clone()])?;
    let fail = |what: String| -> Outcome { Err(format!("{what}\nlouis parse\n{input}\nprinted:\n{}\nand:\n{}", r.out, r.err).into()) };
    if let Err(e) = finished(&r) {
        return fail(e);
    }
    let rules = good.iter().filter(|g| **g).count();
    let errors = good.len() - rules;
    let prompts = lines.len() + 1;
    if r.out.lines().map(|l| l.trim_start_matches("> ")).filter(|l| !l.is_empty()).count() != rules || r.out.matches("> ").count() < prompts {
        return fail(format!("{rules} of the lines are rules"));
    }
    if r.err.lines().count() != errors {
        return fail(format!("{errors} of the lines are none"));
    }
    if rules > 0 && errors > 0 {
        ctx.nontrivial(&input);
    }
    Ok(())
}

pub const C24: Prop = Prop {
    id: "C24",
    quick: 60_000,
    thorough: 500_000,
    rule: "the translation differs from the text",
    assumptions: &["texts are given as arguments of the command or as lines of its input"],
    case: |s, ctx| {
        if s.chance(1, 25) {
            return parse_lines(s, ctx);
        }
        let dir = fresh(&ctx.scratch.join("cli"));
        let mut g = Gen::new(s);
        g.mixed();
        let mut lines: Vec<String> = g.rules.iter().map(|r| r.to_string()).collect();
        let words = g.words.clone();
        let used = g.used.clone();
        let mut bad: Vec<usize> = vec![];
        if s.chance(1, 5) {
            for _ in 0..s.range(1, 2) {
                let (tokens, _) = lines::invalid(s);
                let l = tokens.join(" ");
                if l.contains(['\n', '\r']) || l.contains("include") || sut::build(&l, Direction::Forward).map_or_else(|e| e.lines.is_none(), |_| true) {
                    continue;
                }
                let at = s.below(lines.len() + 1);
                lines.insert(at, l);
                bad = bad.into_iter().map(|b| if b > at { b + 1 } else { b }).collect();
                bad.push(at + 1);
            }
            bad.sort();
        }
        let table: String = lines.iter().map(|l| format!("{l}\n")).collect();
        std::fs::write(dir.join("t.ctb"), &table).unwrap();
        let (d, name) = *s.pick(&[(Direction::Forward, "forward"), (Direction::Backward, "backward")]);
        let t = sut::build(&table, d);
        let mut texts = vec![];
        for _ in 0..s.range(1, 4) {
            let text: String = if d == Direction::Forward {
                wild_text(s, &words)
            } else {
                (0..s.range(1, 8)).map(|_| if s.chance(1, 6) { s.scalar() } else if s.bool() { cell_char(*s.pick(&used)) } else { cell_char(s.below(64) as Cell) }).collect()
            };
            texts.push(text.replace('\0', " "));
        }
        let which = s.below(5);
        // a table that includes what it cannot, or that is not there
        let broken = which < 4 && bad.is_empty() && s.chance(1, 10);
        let mut name_of = "t.ctb";
        if broken {
            match s.below(4) {
                0 => name_of = *s.pick(&["none.ctb", "none/t.ctb", "/none.ctb", "."]),
                _ => {
                    let l = s.pick(&["include none.ctb", "include t.ctb", "include sub/none.dic", "include u.cti"]).to_string();
                    std::fs::write(dir.join("u.cti"), "include t.ctb\n").unwrap();
                    let at = s.below(lines.len() + 1);
                    lines.insert(at, l);
                }
            }
        }
        let table: String = lines.iter().map(|l| format!("{l}\n")).collect();
        std::fs::write(dir.join("t.ctb"), &table).unwrap();
        let mut args: Vec<String> = vec![];
        let dash = s.pick(&["-d", "--direction"]).to_string();
        let with_direction = d == Direction::Backward || s.bool();
        let direction: Vec<String> = if with_direction { vec![dash, name.into()] } else { vec![] };
        let command = match which {
            0 | 1 => "translate",
            2 | 3 => "trace",
            _ => "parse",
        };
        args.push(command.into());
        let repl = (which == 1 || which == 3) && t.is_ok();
        let mut input = None;
        if command == "parse" {
            args.push("t.ctb".into());
        } else {
            args.extend(direction);
            if command == "trace" && s.bool() {
                args.extend(["--style".into(), s.pick(&["blank", "table"]).to_string()]);
            }
            if repl {
                args.push(name_of.into());
                texts = texts.iter().map(|t| t.replace(['\n', '\r'], " ")).collect();
                input = Some(texts.iter().map(|t| format!("{t}\n")).collect::<String>());
            } else {
                args.extend(["--".into(), name_of.to_string(), texts[0].clone()]);
                texts.truncate(1);
            }
        }
        ctx.eval();
        let r = louis(&args, input.as_deref(), &dir, &[dir.clone()])?;
        let fail = |what: String| -> Outcome { Err(format!("{what}\nlouis {args:?} {input:?}\ntable:\n{table}\nprinted:\n{}\nand:\n{}", r.out, r.err).into()) };
        ctx.note(format!("louis {args:?} {input:?}\ntable:\n{table}"));
        if let Err(e) = finished(&r) {
            return fail(e);
        }
        ctx.label(command);
        if !bad.is_empty() {
            // every bad line is named with its file and number, and nothing is translated
            ctx.label("bad lines");
            let named: Vec<usize> = r.err.lines().filter_map(|l| l.split("t.ctb:").nth(1)?.split(':').next()?.parse().ok()).collect();
            if !r.out.is_empty() || named != bad {
                return fail(format!("the bad lines are {bad:?}, named are {named:?}"));
            }
            return Ok(());
        }
        if broken {
            ctx.label("broken include");
            if !r.out.is_empty() || r.err.trim().is_empty() {
                return fail("the table cannot be read; that is to be said, and not on the standard output".into());
            }
            return Ok(());
        }
        if command == "parse" {
            let n = lines.iter().filter(|l| !l.trim().is_empty() && !l.trim().starts_with('#')).count();
            if r.out.lines().count() != n {
                return fail(format!("{} rules were printed, not {n}", r.out.lines().count()));
            }
            return Ok(());
        }
        let Ok(t) = t else {
            ctx.label("table that does not compile");
            if !r.out.is_empty() || r.err.is_empty() {
                return fail("nothing was said about the table".into());
            }
            return Ok(());
        };
        let outputs: Vec<String> = texts.iter().map(|x| t.tr(x)).collect();
        if command == "translate" {
            let expected = if repl {
                outputs.iter().map(|o| format!("> {o}\n")).collect::<String>() + "> "
            } else {
                format!("{}\n", outputs[0])
            };
            if r.out != expected {
                return fail(format!("expected:\n{expected}"));
            }
        } else {
            let mut rest = r.out.as_str();
            for (x, o) in texts.iter().zip(&outputs) {
                let start = if repl { format!("> {o}\n") } else { format!("{o}\n") };
                let Some(r) = rest.strip_prefix(&start) else { return fail(format!("expected:\n{start}")) };
                rest = r;
                if repl {
                    // the steps are not empty, and end before the next prompt
                    rest = &rest[rest.find("\n> ").map_or(0, |i| i + 1)..];
                }
                let _ = x;
            }
            if !repl {
                steps(&t, &texts[0], rest).or_else(|e| fail(e))?;
            }
        }
        for (x, o) in texts.iter().zip(&outputs) {
            if x != o {
                ctx.nontrivial(&(&table, x, command));
            }
        }
        ctx.sample(|| format!("louis {args:?} with\n{table}prints {}", r.out));
        Ok(())
    },
    explicit: &[("trace_of_every_opcode", |ctx| {
        // the names of all rules can be written
        let dir = fresh(&ctx.scratch.join("cli"));
        for (rule, text) in [
            ("letter a 1\nletter b 12\nalways ab 3", "ab"),
            ("letter a 1\ncorrect \"a\" \"b\"\nletter b 12", "a"),
            ("letter a 1\ncontext \"a\" @2", "a"),
            ("letter a 1\npass2 @1 @2", "a"),
            ("letter a 1\nletter b 12\nmatch a b - 4", "ab"),
            ("letter a 1\nlitdigit 1 2\nnumsign 3456", "1a"),
            ("letter a 1\nbase uppercase A a\ncapsletter 6\nbegcapsword 6-6\nendcapsword 6-3", "A AAa"),
            ("space \\s 0\nletter a 1\nlowword a 2\nsign + 3\nmath = 4\nhyphen - 5\nlargesign a 6", "a + = -"),
        ] {
            ctx.eval();
            std::fs::write(dir.join("t.ctb"), format!("{rule}\n")).unwrap();
            for d in ["forward", "backward"] {
                let r = louis(&["trace", "-d", d, "t.ctb", text], None, &dir, &[dir.clone()])?;
                finished(&r)?;
            }
        }
        Ok(())
    })],
};

/// The steps that `louis trace` lists are those of the translation.
fn steps(t: &sut::T, text: &str, listed: &str) -> Result<(), String> {
    let Some(stages) = sut::trace(t, text, &sut::options(&[])) else { return Ok(()) };
    let expected: Vec<_> = stages.iter().flatten().filter(|s| s.stage == "Main" || s.has_rule).collect();
    // texts may break lines and hold the characters of which the table is drawn
    if text.chars().any(|c| c.is_control() || "│─┌┐└┘├┤┬┴┼\u{2028}".contains(c)) || !listed.contains('│') {
        return Ok(());
    }
    let rows: Vec<Vec<&str>> = listed.lines().filter(|l| l.starts_with('│')).map(|l| l.split('│').map(|c| c.trim()).collect()).collect();
    let rows: Vec<&Vec<&str>> = rows.iter().filter(|r| r.len() >= 7 && r[1].parse::<usize>().is_ok()).collect();
    if rows.iter().any(|r| r.len() > 7) {
        return Ok(());
    }
    if rows.len() != expected.len() {
        return Err(format!("{} steps are listed, not {}", rows.len(), expected.len()));
    }
    for (i, (row, s)) in rows.iter().zip(&expected).enumerate() {
        if row[1] != (i + 1).to_string() || row[2] != s.input.trim() || row[3] != s.output.trim() || row[5] != s.stage || row[4].is_empty() == s.has_rule {
            return Err(format!("step {} is listed as {row:?}, but is {s:?}", i + 1));
        }
    }
    Ok(())
}
