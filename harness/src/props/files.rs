//! Tables in files that include other files: C20.

use super::common::*;
use super::total::{wild_spans, wild_text};
use crate::engine::*;
use crate::generate::*;
use crate::lines;
use crate::sut::{self, Direction, Rejected};
use crate::table::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

#[derive(Debug, Clone)]
pub struct File {
    /// the directory of the search path
    pub dir: usize,
    pub name: String,
    pub lines: Vec<Line>,
    /// whether the last line is ended
    open: bool,
    crlf: bool,
}
#[derive(Debug, Clone)]
pub enum Line {
    Plain(String),
    /// a line with a mistake
    Bad(String),
    /// the file with this number
    Include(usize),
    /// how a missing file is called
    Missing(String),
}

/// A table as a tree of files; the files of which the table consists are listed in `roots`.
pub struct Tree {
    pub files: Vec<File>,
    pub roots: Vec<usize>,
    pub dirs: usize,
}

impl Tree {
    /// The lines of a table are distributed to files.
    fn of(s: &mut Src, lines: Vec<String>) -> Tree {
        let mut t = Tree { files: vec![], roots: vec![], dirs: s.range(1, 3) };
        let n = s.weighted(&[0, 4, 1]);
        let cut = if n == 2 { s.below(lines.len() + 1) } else { lines.len() };
        for part in [&lines[..cut], &lines[cut..]] {
            if part.is_empty() && !t.roots.is_empty() {
                continue;
            }
            let root = t.split(s, part.to_vec(), 0);
            t.roots.push(root);
        }
        t
    }
    fn split(&mut self, s: &mut Src, lines: Vec<String>, depth: usize) -> usize {
        let mut out = vec![];
        let mut i = 0;
        while i < lines.len() {
            if depth < 6 && s.chance(1, if depth == 0 { 4 } else { 6 }) {
                let n = s.below(8);
                let end = (i + n).min(lines.len());
                let f = self.split(s, lines[i..end].to_vec(), depth + 1);
                out.push(Line::Include(f));
                i = end;
                continue;
            }
            if !self.files.is_empty() && s.chance(1, 30) {
                // a file that is there already, once more
                out.push(Line::Include(s.below(self.files.len())));
            }
            out.push(Line::Plain(lines[i].clone()));
            i += 1;
        }
        if depth > 0 && s.chance(1, 8) {
            let f = self.split(s, vec![], 7);
            out.push(Line::Include(f));
        }
        let k = self.files.len();
        // files may be called the same in different directories
        let same = self.files.iter().map(|f| f.name.rsplit('/').next().unwrap().to_string()).nth(s.below(k + 1));
        let other = same.map(|n| format!("{}{n}", s.pick(&["", "sub/", "sub/x/", "t0.d/"])));
        if let Some(name) = other.filter(|n| self.files.iter().all(|f| f.name != *n) && s.chance(1, 2)) {
            self.files.push(File { dir: s.below(self.dirs), name, lines: out, open: s.chance(1, 6), crlf: s.chance(1, 8) });
            return k;
        }
        let name = match s.below(6) {
            0 => format!("sub/t{k}.ctb"),
            1 => format!("t{k}.uti"),
            2 => format!("t{k}"),
            3 => format!("ü-{k}.dis"),
            _ => format!("t{k}.ctb"),
        };
        self.files.push(File { dir: s.below(self.dirs), name, lines: out, open: s.chance(1, 6), crlf: s.chance(1, 8) });
        k
    }
    pub fn pasted(&self, f: usize, out: &mut String) {
        for l in &self.files[f].lines {
            match l {
                Line::Plain(l) | Line::Bad(l) => {
                    out.push_str(l);
                    out.push('\n');
                }
                Line::Include(f) => self.pasted(*f, out),
                Line::Missing(_) => {}
            }
        }
    }
    pub fn whole(&self) -> String {
        let mut t = String::new();
        for r in &self.roots {
            self.pasted(*r, &mut t);
        }
        t
    }
    pub fn path(&self, base: &Path, f: usize) -> PathBuf {
        base.join(format!("d{}", self.files[f].dir)).join(&self.files[f].name)
    }
    pub fn write(&self, s: &mut Src, base: &Path) -> Vec<PathBuf> {
        let _ = std::fs::remove_dir_all(base);
        let dirs: Vec<PathBuf> = (0..self.dirs).map(|d| base.join(format!("d{d}"))).collect();
        for d in &dirs {
            std::fs::create_dir_all(d.join("sub/x")).unwrap();
            std::fs::create_dir_all(d.join("t0.d")).unwrap();
        }
        for (i, f) in self.files.iter().enumerate() {
            let end = if f.crlf { "\r\n" } else { "\n" };
            let mut t = String::new();
            for (n, l) in f.lines.iter().enumerate() {
                match l {
                    Line::Plain(l) | Line::Bad(l) => t += l,
                    Line::Include(g) => {
                        let name = if s.chance(1, 10) {
                            self.path(base, *g).to_string_lossy().into_owned()
                        } else {
                            self.files[*g].name.clone()
                        };
                        t += &format!("include {name}");
                        t += s.pick(&["", "", "", " ", "  the rest", "\t# x"]);
                    }
                    Line::Missing(name) => t += &format!("include {name}"),
                }
                if n + 1 < f.lines.len() || !f.open {
                    t += end;
                }
            }
            std::fs::write(self.path(base, i), t).unwrap();
            // the same name further down the search path is not looked at
            if f.dir + 1 < self.dirs && s.chance(1, 4) {
                let other = base.join(format!("d{}", f.dir + 1)).join(&f.name);
                std::fs::write(other, "always a 12345678\nbroken\n").unwrap();
            }
        }
        dirs
    }
    fn depth(&self, f: usize) -> usize {
        1 + self.files[f].lines.iter().map(|l| if let Line::Include(g) = l { self.depth(*g) } else { 0 }).max().unwrap_or(0)
    }
    /// The lines with mistakes that are seen: a file with mistakes is not followed further.
    fn bad(&self, f: usize, out: &mut BTreeSet<(usize, usize)>) {
        let own: Vec<usize> =
            self.files[f].lines.iter().enumerate().filter(|(_, l)| matches!(l, Line::Bad(_))).map(|(i, _)| i + 1).collect();
        if own.is_empty() {
            for l in &self.files[f].lines {
                if let Line::Include(g) = l {
                    self.bad(*g, out);
                }
            }
        } else {
            out.extend(own.into_iter().map(|n| (f, n)));
        }
    }
    /// Below `f`, somewhere where a line can be changed: a file that is read.
    fn some(&self, s: &mut Src, f: usize) -> usize {
        let below: Vec<usize> = self.files[f].lines.iter().filter_map(|l| if let Line::Include(g) = l { Some(*g) } else { None }).collect();
        if below.is_empty() || s.chance(1, 4) { f } else { let g = *s.pick(&below); self.some(s, g) }
    }
}

/// A hyphenation dictionary with one mistake, and its line.
fn broken_dictionary(s: &mut Src) -> (String, Option<usize>) {
    let mut lines: Vec<String> = (0..s.below(6))
        .map(|_| match s.below(6) {
            0 => String::new(),
            1 => s.pick(&["% a comment", "# a comment"]).to_string(),
            2 => format!("{} {}", s.pick(&["LEFTHYPHENMIN", "RIGHTHYPHENMIN"]), s.below(5)),
            _ => format!("{}{}{}", s.pick(&["", "."]), s.range(1, 9), s.string("abc1", 1, 4)),
        })
        .collect();
    if s.chance(1, 2) {
        lines.insert(0, "UTF-8".into());
    }
    let bad = match s.below(6) {
        0 | 1 => format!("{}{}", s.pick(&["LEFTHYPHENMIN", "RIGHTHYPHENMIN"]), s.pick(&["", " ", " x", " -1", " 1 2", " 1.5"])),
        2 => {
            lines.insert(0, s.pick(&["ISO8859-1", "iso8859-1", " ISO8859-1 "]).to_string());
            return (lines.join("\n") + "\n", None);
        }
        _ => format!("{}{}", s.pick(&["", "."]), s.string("abc.0", 1, 4)),
    };
    let at = s.below(lines.len() + 1);
    lines.insert(at, bad);
    (lines.join("\n") + "\n", Some(at + 1))
}

fn lines_of(g: &mut Gen) -> Vec<String> {
    let mut lines: Vec<String> = g.rules.iter().map(|r| r.to_string()).collect();
    for _ in 0..g.s.below(4) {
        let at = g.s.below(lines.len() + 1);
        lines.insert(at, g.s.pick(&["", "# include nothing", "   ", "#+key:value"]).to_string());
    }
    lines
}

/// How the paths of the roots are given.
fn given(s: &mut Src, tree: &Tree, base: &Path) -> Vec<PathBuf> {
    tree.roots.iter().map(|r| if s.bool() { tree.path(base, *r) } else { PathBuf::from(&tree.files[*r].name) }).collect()
}

fn show(tree: &Tree) -> String {
    let mut t = String::new();
    for (i, f) in tree.files.iter().enumerate() {
        t += &format!("--- d{}/{}{}\n", f.dir, f.name, if tree.roots.contains(&i) { " (root)" } else { "" });
        for l in &f.lines {
            match l {
                Line::Plain(l) => t += l,
                Line::Bad(l) => t += &format!("{l}      <- mistake"),
                Line::Include(g) => t += &format!("include {}", tree.files[*g].name),
                Line::Missing(n) => t += &format!("include {n}      <- missing"),
            }
            t += "\n";
        }
    }
    t
}

pub const C20: Prop = Prop {
    id: "C20",
    quick: 88_000,
    thorough: 1_000_000,
    rule: "the table consists of at least three files and the translation is longer than one cell, or a mistake is planted in an included file",
    assumptions: &["files lie on a local file system, their names have no blanks", "of a file with mistakes the included files are not read, as now"],
    case: |s, ctx| {
        let base = ctx.scratch.join("tree");
        let mut g = Gen::new(s);
        if g.s.chance(1, 16) {
            super::meta::directed(&mut g);
        } else {
            g.mixed();
        }
        let lines = lines_of(&mut g);
        let (words, emph) = (std::mem::take(&mut g.words), std::mem::take(&mut g.emph));
        let mut tree = Tree::of(s, lines);
        let fault = s.weighted(&[12, 4, 2, 2, 1]);
        match fault {
            1 => {
                for _ in 0..s.range(1, 3) {
                    let root = *s.pick(&tree.roots);
                    let f = tree.some(s, root);
                    let (tokens, _) = lines::invalid(s);
                    let l = tokens.join(" ");
                    if sut::build(&l, Direction::Forward).map_or_else(|e| e.lines.is_none(), |_| true) || l.trim().is_empty() || l.trim().starts_with('#') || l.contains(['\n', '\r']) || l.contains("include") {
                        continue;
                    }
                    let at = s.below(tree.files[f].lines.len() + 1);
                    tree.files[f].lines.insert(at, Line::Bad(l));
                }
            }
            2 => {
                let root = *s.pick(&tree.roots);
                let f = tree.some(s, root);
                let name = s.pick(&["missing.ctb", "sub/none", "d0", "sub", "missing.dic"]).to_string();
                let at = s.below(tree.files[f].lines.len() + 1);
                tree.files[f].lines.insert(at, Line::Missing(name));
            }
            _ => {}
        }
        let mut dictionary = None;
        if fault == 4 {
            // a dictionary with a mistake
            let root = *s.pick(&tree.roots);
            let f = tree.some(s, root);
            let at = s.below(tree.files[f].lines.len() + 1);
            tree.files[f].lines.insert(at, Line::Missing("words.dic".into()));
            dictionary = Some(broken_dictionary(s));
        }
        let dirs = tree.write(s, &base);
        sut::table_path(&dirs);
        if let Some((text, _)) = &dictionary {
            std::fs::write(dirs[s.below(dirs.len())].join("words.dic"), text).unwrap();
        }
        let mut cycle = false;
        if fault == 3 {
            // a file includes itself or one that includes it, by some name
            let root = *s.pick(&tree.roots);
            let f = tree.some(s, root);
            let path = tree.path(&base, f);
            let text = std::fs::read_to_string(&path).unwrap();
            let name = if s.bool() {
                let link = format!("link{f}");
                std::os::unix::fs::symlink(&tree.path(&base, root), dirs[0].join(&link)).unwrap();
                link
            } else {
                tree.files[root].name.clone()
            };
            std::fs::write(&path, format!("include {name}\n{text}")).unwrap();
            cycle = true;
        }
        let paths = given(s, &tree, &base);
        let shown = show(&tree);
        ctx.note(shown.clone());
        let whole = tree.whole();
        let fail = |what: String| -> Outcome { Err(format!("{what}\n{shown}").into()) };
        let mut bad = BTreeSet::new();
        // the roots are read one after the other
        for r in &tree.roots {
            tree.bad(*r, &mut bad);
        }
        let missing = tree.files.iter().any(|f| f.lines.iter().any(|l| matches!(l, Line::Missing(_))));
        for d in [Direction::Forward, Direction::Backward] {
            ctx.eval();
            let files = sut::build_files(&paths, d);
            if cycle {
                let Err(e) = files else { return fail(format!("accepted although a table includes itself: {:?}", tree.roots)) };
                if !e.text.contains("Circular") {
                    return fail(format!("a cycle is reported as {}", e.text));
                }
                ctx.label("cycle");
                ctx.nontrivial(&whole);
                continue;
            }
            if !bad.is_empty() {
                let Err(e) = files else { return fail("accepted although a line is bad".into()) };
                places(&tree, &base, &bad, &e).or_else(|what| fail(what))?;
                ctx.label("bad line");
                if bad.iter().any(|(f, _)| !tree.roots.contains(f)) {
                    ctx.nontrivial(&(&shown, 1));
                }
                continue;
            }
            if let Some((text, line)) = &dictionary {
                let Err(e) = files else { return fail(format!("accepted although a dictionary has a mistake:\n{text}")) };
                if sut::build(&whole, d).is_err() {
                    ctx.label("rejected");
                    continue;
                }
                if line.is_some_and(|n| !e.text.contains(&format!("line {n}:")) && !e.text.contains(&format!("line: {n},"))) {
                    return fail(format!("line {line:?} of the dictionary\n{text}is wrong, but reported is {}", e.text));
                }
                ctx.label("mistake in a dictionary");
                ctx.nontrivial(&(&shown, text));
                continue;
            }
            if missing {
                let Err(e) = files else { return fail("accepted although a file is missing".into()) };
                if !e.text.contains("NotFound") {
                    return fail(format!("a missing file is reported as {}", e.text));
                }
                ctx.label("missing file");
                ctx.nontrivial(&(&shown, 2));
                continue;
            }
            let pasted = sut::build(&whole, d);
            let (a, b) = match (files, pasted) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(_), Err(_)) => {
                    ctx.label("rejected");
                    continue;
                }
                (Err(e), _) => return fail(format!("pasted it is accepted, but not as files: {}", e.text)),
                (_, Err(e)) => return fail(format!("as files it is accepted, but not pasted: {}", e.text)),
            };
            for _ in 0..3 {
                let mut text = wild_text(s, &words);
                if d == Direction::Backward {
                    text = text.chars().map(|c| if s.chance(1, 3) { c } else { cell_char(s.below(64) as Cell) }).collect();
                }
                let spans = wild_spans(s, text.chars().count(), &emph);
                ctx.eval();
                let (x, y) = (a.tr_spans(&text, &spans), b.tr_spans(&text, &spans));
                if x != y {
                    return fail(format!("text: {text:?}{}\nas files: {x:?}\npasted:   {y:?}", show_spans(&spans)));
                }
                if tree.files.len() >= 3 && x.chars().count() > 1 {
                    ctx.nontrivial(&(&shown, &text));
                }
            }
            ctx.sample(|| shown.clone());
            let depth = tree.roots.iter().map(|r| tree.depth(*r)).max().unwrap();
            ctx.label(&format!("depth {depth}"));
        }
        Ok(())
    },
    explicit: &[
        ("chains", |ctx| {
            // as deep as it may be, and one deeper
            let base = ctx.scratch.join("chain");
            for n in [1, 2, 10, 63, 64, 65, 80] {
                ctx.eval();
                let _ = std::fs::remove_dir_all(&base);
                std::fs::create_dir_all(&base).unwrap();
                for i in 0..n {
                    let next = if i + 1 < n { format!("include f{}\n", i + 1) } else { "letter a 1\n".into() };
                    std::fs::write(base.join(format!("f{i}")), next).unwrap();
                }
                sut::table_path(&[&base]);
                let r = sut::build_files(&[Path::new("f0")], Direction::Forward);
                match r {
                    Ok(t) if n <= 64 => {
                        if t.tr("a") != "⠁" {
                            return Err(format!("a chain of {n} tables: a is {}", t.tr("a")).into());
                        }
                    }
                    Err(e) if n > 64 && e.text.contains("TooDeep") => {}
                    Ok(_) => return Err(format!("a chain of {n} tables was accepted").into()),
                    Err(e) => return Err(format!("a chain of {n} tables was rejected: {}", e.text).into()),
                }
            }
            Ok(())
        }),
        ("cycles", |ctx| {
            let base = ctx.scratch.join("cycle");
            for n in [1, 2, 3, 64, 65, 100] {
                ctx.eval();
                let _ = std::fs::remove_dir_all(&base);
                std::fs::create_dir_all(&base).unwrap();
                for i in 0..n {
                    std::fs::write(base.join(format!("f{i}")), format!("letter a 1\ninclude f{}\n", (i + 1) % n)).unwrap();
                }
                sut::table_path(&[&base]);
                if sut::build_files(&[Path::new("f0")], Direction::Forward).is_ok() {
                    return Err(format!("a cycle of {n} tables was accepted").into());
                }
            }
            Ok(())
        }),
        ("shared", |ctx| {
            // a table may be included as often as one likes
            let base = ctx.scratch.join("shared");
            let _ = std::fs::remove_dir_all(&base);
            std::fs::create_dir_all(&base).unwrap();
            std::fs::write(base.join("base"), "letter a 1\n").unwrap();
            std::fs::write(base.join("x"), "include base\nalways aa 2\ninclude base\n").unwrap();
            std::fs::write(base.join("y"), "include x\ninclude base\ninclude x\n").unwrap();
            std::fs::write(base.join("z"), "include y\ninclude x\ninclude base\ninclude y\n").unwrap();
            sut::table_path(&[&base]);
            ctx.eval();
            match sut::build_files(&[Path::new("z")], Direction::Forward) {
                Ok(t) if t.tr("aaa") == "⠂⠁" => Ok(()),
                Ok(t) => Err(format!("aaa is {}", t.tr("aaa")).into()),
                Err(e) => Err(format!("rejected: {}", e.text).into()),
            }
        }),
    ],
};

/// Every bad line that can be seen is named, and no other.
fn places(tree: &Tree, base: &Path, bad: &BTreeSet<(usize, usize)>, e: &Rejected) -> Result<(), String> {
    let mut named: BTreeSet<(String, usize)> = BTreeSet::new();
    for part in e.text.split("ParseError { ").skip(1) {
        let path = part.strip_prefix("path: Some(\"").and_then(|p| p.split('"').next()).unwrap_or("?").to_string();
        let line = part.split("line: ").nth(1).map(|l| l.chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|l| l.parse().ok()).unwrap_or(0);
        named.insert((path, line));
    }
    let all: BTreeSet<(String, usize)> = bad.iter().map(|(f, n)| (tree.path(base, *f).to_string_lossy().into_owned(), *n)).collect();
    // with several tables only the mistakes of the first one that has any are reported
    let first: BTreeSet<(String, usize)> = tree
        .roots
        .iter()
        .map(|r| {
            let mut b = BTreeSet::new();
            tree.bad(*r, &mut b);
            b
        })
        .find(|b| !b.is_empty())
        .unwrap()
        .iter()
        .map(|(f, n)| (tree.path(base, *f).to_string_lossy().into_owned(), *n))
        .collect();
    if !named.is_subset(&all) || !named.is_superset(&first) {
        return Err(format!("the bad lines are {all:?}, but reported are {}", e.text));
    }
    Ok(())
}
