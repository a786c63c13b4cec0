//! Reference model of forward translation: a direct transcription of the documented meaning of
//! the opcodes, without tries, automata or precomputed tables.

pub mod back;
pub mod hyph;
pub mod indicate;
pub mod re;

use crate::sut::Span;
use crate::table::{Act, Dir, Op, Rule, Test, cell_char, cells_str};
use re::{CharSet, M, Re, Vars};
use std::collections::{HashMap, HashSet};

pub type Classes = HashMap<String, CharSet>;
pub const LITDIGIT: &str = "litdigit";
pub const MATH: &str = "math";

#[derive(Debug, Clone)]
pub enum Stop {
    /// The table is one that has to be rejected.
    Reject(String),
    /// The documentation doesn't say, or a recorded finding applies.
    Discard(&'static str),
}

/// Character definitions and classes of a list of rules.
#[derive(Default, Clone)]
pub struct Info {
    pub defs: HashMap<char, String>,
    pub classes: Classes,
    pub dots: Classes,
    pub swaps: HashMap<String, HashMap<char, String>>,
}

impl Info {
    pub fn of(rules: &[Rule]) -> Info {
        let mut i = Info::default();
        for r in rules {
            match &r.op {
                Op::Def { kind, c, cells } => {
                    let names: &[&str] = match *kind {
                        "space" => &["space"],
                        "punctuation" | "hyphen" | "decpoint" => &["punctuation"],
                        "digit" => &["digit"],
                        "litdigit" => &[LITDIGIT],
                        "letter" => &["letter"],
                        "lowercase" => &["lowercase", "letter"],
                        "uppercase" => &["uppercase", "letter"],
                        "sign" => &["sign"],
                        "math" => &[MATH],
                        _ => continue,
                    };
                    i.defs.entry(*c).or_insert(cells_str(cells));
                    for n in names {
                        i.classes.entry(n.to_string()).or_default().insert(*c);
                        if cells.len() == 1 {
                            i.dots.entry(n.to_string()).or_default().insert(cell_char(cells[0]));
                        }
                    }
                }
                Op::Text { kind: "always", text, cells: Some(cells) } if text.chars().all(|c| c.is_alphabetic()) => {
                    i.dots.entry("letter".into()).or_default().extend(cells.iter().map(|c| cell_char(*c)));
                }
                _ => {}
            }
        }
        for r in rules {
            match &r.op {
                Op::Base { class, derived, base } => {
                    if let Some(d) = i.defs.get(base).cloned() {
                        i.defs.entry(*derived).or_insert(d);
                        i.classes.entry(class.clone()).or_default().insert(*derived);
                        if class == "uppercase" || class == "lowercase" {
                            i.classes.entry("letter".into()).or_default().insert(*derived);
                        }
                    }
                }
                Op::Attribute { name, chars } => {
                    i.classes.entry(name.clone()).or_default().extend(chars.chars());
                    i.associated(name, chars);
                }
                Op::Chars { kind: kind @ ("seqdelimiter" | "seqbeforechars" | "seqafterchars"), chars } => {
                    i.classes.entry(kind.to_string()).or_default().extend(chars.chars());
                    i.associated(kind, chars);
                }
                Op::Swapcc { name, from, to } => {
                    i.classes.entry(name.clone()).or_default().extend(from.chars());
                    i.associated(name, from);
                    let m = from.chars().zip(to.chars().map(|c| c.to_string())).collect();
                    i.swaps.insert(name.clone(), m);
                }
                Op::Swapcd { name, from, to } => {
                    i.classes.entry(name.clone()).or_default().extend(from.chars());
                    i.associated(name, from);
                    let m = from.chars().zip(to.iter().map(|c| cells_str(c))).collect();
                    i.swaps.insert(name.clone(), m);
                }
                Op::Swapdd { name, from, to } => {
                    i.classes.entry(name.clone()).or_default().extend(from.iter().map(|c| cell_char(*c)));
                    i.dots.entry(name.clone()).or_default().extend(from.iter().map(|c| cell_char(*c)));
                    let m = from.iter().map(|c| cell_char(*c)).zip(to.iter().map(|c| cells_str(c))).collect();
                    i.swaps.insert(name.clone(), m);
                }
                _ => {}
            }
        }
        i
    }
    /// The cells of the characters that are a single cell are in the class too.
    fn associated(&mut self, class: &str, chars: &str) {
        for c in chars.chars() {
            if let Some(d) = self.defs.get(&c) {
                let mut d = d.chars();
                if let (Some(cell), None) = (d.next(), d.next()) {
                    self.dots.entry(class.to_string()).or_default().insert(cell);
                }
            }
        }
    }
    pub fn class(&self, name: &str) -> CharSet {
        self.classes.get(name).cloned().unwrap_or_default()
    }
    pub fn is(&self, name: &str, c: char) -> bool {
        self.classes.get(name).is_some_and(|s| s.contains(&c))
    }
    fn implicit(&self, text: &str) -> Result<String, Stop> {
        text.chars()
            .map(|c| self.defs.get(&c).cloned().ok_or_else(|| Stop::Reject(format!("no definition of {c:?}"))))
            .collect()
    }
}

/// What a neighbouring character has to be; a missing one counts as a space.
#[derive(Clone, PartialEq, Debug)]
struct Check {
    chars: CharSet,
    space: bool,
}
impl Check {
    fn of(all: &Classes, classes: &[&str]) -> Check {
        Check {
            chars: classes.iter().flat_map(|c| all.get(*c).cloned().unwrap_or_default()).collect(),
            space: classes.contains(&"space"),
        }
    }
    fn ok(&self, c: Option<char>) -> bool {
        c.map_or(self.space, |c| self.chars.contains(&c))
    }
}

/// A rule that translates a fixed text.
#[derive(Clone, Debug)]
struct Entry {
    text: Vec<char>,
    before: Vec<Check>,
    after: Vec<Check>,
    out: String,
    /// rules of a more specific kind replace other ones with the same condition
    rank: u8,
    rule: usize,
    kind: &'static str,
}
impl Entry {
    /// Whether one of them can never apply where the other one does.
    fn same_condition(&self, o: &Entry) -> bool {
        let gate = |e: &Entry| ["prepunc", "postpunc"].into_iter().find(|k| *k == e.kind);
        self.same_place(o) && gate(self) == gate(o)
    }
    fn same_place(&self, o: &Entry) -> bool {
        self.text == o.text && self.before == o.before && self.after == o.after
    }
    fn weight(&self) -> usize {
        self.text.len() + self.before.len() + self.after.len()
    }
    fn applies(&self, t: &[char], p: usize) -> bool {
        p + self.text.len() <= t.len()
            && self.text.iter().zip(&t[p..]).all(|(r, c)| re::fold(*c) == Some(*r))
            && self.before.iter().all(|b| b.ok(p.checked_sub(1).map(|p| t[p])))
            && self.after.iter().all(|a| a.ok(t.get(p + self.text.len()).copied()))
    }
}

#[derive(Default, Clone)]
struct Entries(Vec<Entry>);
impl Entries {
    /// Of two rules with the same condition the first one wins, unless the other one is of a more
    /// specific kind.
    fn insert(&mut self, e: Entry) {
        if self.0.iter().any(|o| o.same_place(&e) && o.rank > e.rank) {
            return;
        }
        self.0.retain(|o| !o.same_place(&e) || o.rank == e.rank);
        if !self.0.iter().any(|o| o.same_condition(&e)) {
            self.0.push(e);
        }
    }
    /// Those that apply, the preferred one of those with the same weight first.
    fn at<'a>(&'a self, t: &'a [char], p: usize) -> impl Iterator<Item = &'a Entry> {
        self.0.iter().filter(move |e| e.applies(t, p))
    }
}

struct Pattern {
    re: Re,
    out: Out,
    rule: usize,
    /// the part of the pattern after which the text may begin at several places
    ambiguous: bool,
}
#[derive(Clone)]
enum Out {
    Dots(String),
    Acts(Vec<Act>),
}

#[derive(Clone, Debug, PartialEq)]
struct Cand {
    start: usize,
    len: usize,
    weight: usize,
    out: String,
    effects: Vec<Act>,
    rule: usize,
    kind: &'static str,
    /// place in the order of equally good ones; None when the order isn't specified
    pattern: bool,
}

pub struct Model {
    pub info: Info,
    multi_swaps: HashMap<String, HashMap<char, String>>,
    main_swaps: HashMap<String, HashMap<char, String>>,
    rules: Vec<Rule>,
    chars: HashMap<char, (String, usize)>,
    undefined: Option<String>,
    entries: Entries,
    nocross: Entries,
    comp6: Entries,
    matches: Vec<Pattern>,
    contexts: Vec<Pattern>,
    stages: Vec<(&'static str, Vec<Pattern>)>,
    ind: indicate::Indications,
    hyph: Option<hyph::Hyph>,
}

#[derive(Default, Debug, Clone)]
pub struct Translated {
    pub output: String,
    /// (rule, start, length) of what was applied in the main stage
    pub used: Vec<(usize, usize, usize)>,
    /// (stage, rule, start, length) of what was applied in the other stages
    pub used_multi: Vec<(&'static str, usize, usize, usize)>,
    /// texts before and after the stages
    pub stages: Vec<String>,
    pub indications: Vec<(usize, &'static str)>,
    pub undefined: usize,
}
impl Translated {
    pub fn uses(&self, m: &Model, kind: &str) -> bool {
        self.used.iter().any(|u| m.kind(u.0) == kind) || self.used_multi.iter().any(|u| m.kind(u.1) == kind)
    }
    pub fn indicated(&self, what: &str) -> bool {
        self.indications.iter().any(|i| i.1 == what)
    }
}

pub fn kind_of(r: &Rule) -> &'static str {
    match &r.op {
        Op::Def { kind, .. } | Op::Text { kind, .. } | Op::Sign { kind, .. } | Op::Chars { kind, .. } => kind,
        Op::Multi { kind, .. } | Op::Emph { kind, .. } => kind,
        Op::Match { .. } => "match",
        Op::Base { .. } => "base",
        _ => "other",
    }
}

impl Model {
    pub fn new(all: &[Rule], hyph: Option<hyph::Hyph>) -> Result<Model, Stop> {
        let mut rules: Vec<Rule> = all.iter().filter(|r| r.dir != Dir::NoFor).cloned().collect();
        // `nocross` has no meaning for the rules that are not plain texts
        for r in &mut rules {
            if !matches!(r.op, Op::Text { .. }) {
                r.nocross = false;
            }
        }
        let info = Info::of(&rules);
        let all_info = Info::of(all);
        let mut m = Model {
            main_swaps: info.swaps.clone(),
            multi_swaps: all_info.swaps.clone(),
            ind: indicate::Indications::of(&rules, &info),
            info,
            chars: HashMap::new(),
            undefined: None,
            entries: Entries::default(),
            nocross: Entries::default(),
            comp6: Entries::default(),
            matches: vec![],
            contexts: vec![],
            stages: vec![],
            rules: vec![],
            hyph,
        };
        // decimal point and hyphen go before other definitions of a character
        let early = |k: &str| k == "decpoint" || k == "hyphen";
        let litdigits: HashSet<char> = rules
            .iter()
            .filter_map(|r| match &r.op {
                Op::Def { kind: "litdigit", c, .. } => Some(*c),
                _ => None,
            })
            .collect();
        for pass in [true, false] {
            for (n, r) in rules.iter().enumerate() {
                match &r.op {
                    Op::Def { kind, c, cells } if early(kind) == pass && *kind != "display" => {
                        if *kind != "digit" || !litdigits.contains(c) {
                            m.chars.entry(*c).or_insert((cells_str(cells), n));
                        }
                    }
                    Op::Base { derived, base, .. } if !pass => {
                        if let Some(d) = m.info.defs.get(base) {
                            m.chars.entry(*derived).or_insert((d.clone(), n));
                        }
                    }
                    _ => {}
                }
            }
        }
        for (n, r) in rules.iter().enumerate() {
            match &r.op {
                Op::Sign { kind: "undefined", cells } => m.undefined = Some(cells_str(cells)),
                Op::Chars { kind: "contraction", chars } => {
                    let out = m.info.implicit(chars)?;
                    m.insert(n, r, chars, out, "contraction", Some(WORD), Some(WORD));
                }
                Op::Text { kind, text, cells } => {
                    let out = match cells {
                        Some(c) => cells_str(c),
                        None => m.info.implicit(text)?,
                    };
                    let shapes = shapes(kind, text, &m.info);
                    for (b, a) in shapes {
                        m.insert(n, r, text, out.clone(), kind, *b, *a);
                    }
                }
                Op::Match { pre, text, post, cells } => {
                    let out = match cells {
                        Some(c) => cells_str(c),
                        None => m.info.implicit(text)?,
                    };
                    let folded = Re::Seq(text.chars().map(Re::Fold).collect());
                    let re = Re::Seq(vec![
                        re::of_pat(pre, true, &m.info.classes),
                        Re::Cap(Box::new(folded)),
                        re::of_pat(post, false, &m.info.classes),
                    ]);
                    if re.repeats_nothing() {
                        return Err(Stop::Discard("endless repetition of what may be empty"));
                    }
                    m.matches.push(Pattern { re, out: Out::Dots(out), rule: n, ambiguous: true });
                }
                Op::Multi { kind: "context", test, action } => {
                    check_swaps(action, &m.main_swaps)?;
                    m.contexts.push(multi(n, test, action, &m.info.classes));
                }
                _ => {}
            }
        }
        for kind in ["correct", "pass2", "pass3", "pass4"] {
            let cls = if kind == "correct" { &all_info.classes } else { &all_info.dots };
            let mut ps = vec![];
            for (n, r) in rules.iter().enumerate() {
                if let Op::Multi { kind: k, test, action } = &r.op
                    && *k == kind
                {
                    check_swaps(action, &m.multi_swaps)?;
                    ps.push(multi(n, test, action, cls));
                }
            }
            if !ps.is_empty() {
                m.stages.push((kind, ps));
            }
        }
        m.rules = rules;
        Ok(m)
    }

    pub fn kind(&self, rule: usize) -> &'static str {
        kind_of(&self.rules[rule])
    }
    /// The points where a word may be broken: i is between the characters i and i+1.
    pub fn hyphenation_points(&self, t: &[char]) -> std::collections::HashSet<usize> {
        self.hyph.as_ref().map(|h| h.breaks(t, &self.info)).unwrap_or_default()
    }
    pub fn rule(&self, rule: usize) -> &Rule {
        &self.rules[rule]
    }

    #[allow(clippy::too_many_arguments)]
    fn insert(
        &mut self,
        n: usize,
        r: &Rule,
        text: &str,
        out: String,
        kind: &'static str,
        before: Option<&'static [&'static str]>,
        after: Option<&'static [&'static str]>,
    ) {
        let e = entry(&self.info, &self.info.classes, n, r, text, out, kind, (before, after));
        let list = match kind {
            "comp6" => &mut self.comp6,
            _ if r.nocross => &mut self.nocross,
            _ => &mut self.entries,
        };
        list.insert(e);
    }

    pub fn forward(&self, text: &str, spans: &[Span]) -> Result<Translated, Stop> {
        let mut t: Vec<char> = text.chars().collect();
        let mut o = Translated { stages: vec![text.to_string()], ..Translated::default() };
        for (name, ps) in &self.stages {
            if *name == "correct" {
                t = self.stage(name, ps, &t, &mut o)?;
                o.stages.push(t.iter().collect());
            }
        }
        t = self.main(&t, spans, &mut o)?;
        o.stages.push(t.iter().collect());
        for (name, ps) in &self.stages {
            if *name != "correct" {
                t = self.stage(name, ps, &t, &mut o)?;
                o.stages.push(t.iter().collect());
            }
        }
        o.output = t.into_iter().collect();
        Ok(o)
    }

    fn find(
        &self,
        ps: &[Pattern],
        t: &[char],
        p: usize,
        vars: &Vars,
        swaps: &HashMap<String, HashMap<char, String>>,
        out: &mut Vec<Cand>,
    ) -> Result<(), Stop> {
        for pat in ps {
            let mut m = M { text: t, vars, fuel: 20_000, unset: false };
            let found = m.first(&pat.re, p);
            if pat.ambiguous && found.is_some() && m.all(&pat.re, p).len() > 1 {
                return Err(Stop::Discard("several places after the same beginning"));
            }
            if m.fuel == 0 {
                return Err(Stop::Discard("pattern too complex"));
            }
            if m.unset {
                return Err(Stop::Discard("variable that was never set"));
            }
            if let Some((end, Some((a, b)))) = found {
                let captured: String = t[a..b].iter().collect();
                let (o, effects) = match &pat.out {
                    Out::Dots(d) => (d.clone(), vec![]),
                    Out::Acts(acts) => (re::act(acts, &captured, swaps), effects(acts)),
                };
                out.push(Cand {
                    start: a,
                    len: b - a,
                    weight: end - p,
                    out: o,
                    effects,
                    rule: pat.rule,
                    kind: if pat.ambiguous { "match" } else { "context" },
                    pattern: true,
                });
            }
        }
        Ok(())
    }

    fn stage(
        &self,
        name: &'static str,
        ps: &[Pattern],
        t: &[char],
        o: &mut Translated,
    ) -> Result<Vec<char>, Stop> {
        let mut vars: Vars = [None; 64];
        let mut out: Vec<char> = vec![];
        let mut pending: Vec<Cand> = vec![];
        let mut seen: Vec<Cand> = vec![];
        let mut p = 0;
        loop {
            let mut fresh = vec![];
            self.find(ps, t, p, &vars, &self.multi_swaps, &mut fresh)?;
            pending.retain(|c| c.start >= p);
            pending.extend(fresh.iter().filter(|c| c.start > p).cloned());
            let due: Vec<Cand> = pending.iter().filter(|c| c.start == p).cloned().collect();
            let here: Vec<&Cand> = due.iter().chain(fresh.iter().filter(|c| c.start == p)).collect();
            match choose(&here, &seen)? {
                Some(c) => {
                    let c = c.clone();
                    out.extend(c.out.chars());
                    apply(&mut vars, &c.effects);
                    o.used_multi.push((name, c.rule, c.start, c.len));
                    if c.len == 0 {
                        seen.push(c);
                    } else {
                        seen.clear();
                        p += c.len;
                    }
                }
                None if p < t.len() => {
                    out.push(t[p]);
                    p += 1;
                    seen.clear();
                }
                None => return Ok(out),
            }
        }
    }

    fn main(&self, t: &[char], spans: &[Span], o: &mut Translated) -> Result<Vec<char>, Stop> {
        let mut vars: Vars = [None; 64];
        let mut out = String::new();
        let mut pending: Vec<Cand> = vec![];
        let mut seen: Vec<Cand> = vec![];
        let mut p = 0;
        let mut indicated = None;
        let signs = self.ind.signs(t, spans, &self.info);
        let in_number = self.ind.in_number(t, &self.info);
        let in_comp = self.ind.in_comp(t, spans, &self.info);
        let breaks = match &self.hyph {
            Some(h) => h.breaks(t, &self.info),
            None => HashSet::new(),
        };
        // the matches don't depend on how the text before them was translated
        let mut matches = vec![];
        for s in 0..=t.len() {
            self.find(&self.matches, t, s, &vars, &self.main_swaps, &mut matches)?;
        }
        let gate = |kind: &str, p: usize| match kind {
            "prepunc" => self.prepunc(t, p),
            "postpunc" => self.postpunc(t, p),
            _ => true,
        };
        loop {
            if indicated != Some(p) {
                for (_, what, s) in signs.iter().filter(|s| s.0 == p) {
                    out.push_str(s);
                    o.indications.push((p, what));
                }
                indicated = Some(p);
            }
            let entry = |e: &Entry| Cand {
                start: p,
                len: e.text.len(),
                weight: e.weight(),
                out: e.out.clone(),
                effects: vec![],
                rule: e.rule,
                kind: e.kind,
                pattern: false,
            };
            let number = in_number.contains(&p);
            let mut fresh = vec![];
            self.find(&self.contexts, t, p, &vars, &self.main_swaps, &mut fresh)?;
            pending.retain(|c| c.start >= p);
            pending.extend(fresh.iter().filter(|c| c.start > p).cloned());
            let mut here: Vec<Cand>;
            let mut nocross: Vec<Cand> = vec![];
            if in_comp.contains(&p) {
                here = self.comp6.at(t, p).map(entry).collect();
            } else {
                here = self.entries.at(t, p).filter(|e| gate(e.kind, p)).map(entry).collect();
                here.extend(matches.iter().filter(|c| c.start == p).cloned());
                here.extend(pending.iter().chain(&fresh).filter(|c| c.start == p).cloned());
                nocross = self
                    .nocross
                    .at(t, p)
                    .filter(|e| gate(e.kind, p))
                    .filter(|e| (p..p + e.text.len() - 1).all(|i| !breaks.contains(&i)))
                    .map(entry)
                    .collect();
                if number {
                    here.retain(|c| c.len <= 1);
                    nocross.retain(|c| c.len <= 1);
                }
            }
            let here: Vec<&Cand> = here.iter().collect();
            let nocross: Vec<&Cand> = nocross.iter().collect();
            let plain = choose(&here, &seen)?;
            let best = match (choose(&nocross, &[])?, plain) {
                (Some(n), Some(c)) if n.weight == c.weight && (n.out != c.out || n.len != c.len) => {
                    return Err(Stop::Discard("as good with and without nocross"));
                }
                (Some(n), Some(c)) if n.weight >= c.weight => Some(n),
                (Some(n), None) => Some(n),
                (_, c) => c,
            };
            let len = match best {
                Some(c) => {
                    out.push_str(&c.out);
                    apply(&mut vars, &c.effects);
                    o.used.push((c.rule, c.start, c.len));
                    if c.len == 0 {
                        seen.push(c.clone());
                    }
                    c.len
                }
                None if p < t.len() => {
                    match (self.chars.get(&t[p]), &self.undefined) {
                        (Some((d, n)), _) => {
                            out.push_str(d);
                            o.used.push((*n, p, 1));
                        }
                        (None, u) => {
                            o.undefined += 1;
                            match u {
                                Some(u) => out.push_str(u),
                                None => self.escape(t[p], &mut out),
                            }
                        }
                    }
                    1
                }
                None => return Ok(out.chars().collect()),
            };
            if signs.iter().any(|s| s.0 > p && s.0 < p + len) {
                return Err(Stop::Discard("sign inside of a contraction"));
            }
            if len > 0 {
                seen.clear();
            }
            p += len;
        }
    }

    /// How an undefined character is spelled: `\x` and its number, with the definitions of the
    /// table or else in computer braille.
    fn escape(&self, c: char, out: &mut String) {
        for c in format!("\\x{:x}", c as u32).chars() {
            match self.info.defs.get(&c) {
                Some(d) => out.push_str(d),
                None => out.push(nabcc(c)),
            }
        }
    }

    fn prepunc(&self, t: &[char], p: usize) -> bool {
        let is = |n: &str, c: char| self.info.is(n, c);
        if p > 0 && is("letter", t[p - 1]) {
            return false;
        }
        t[p + 1..].iter().take_while(|c| !is("space", **c)).any(|c| is("letter", *c) || is("digit", *c))
    }
    fn postpunc(&self, t: &[char], p: usize) -> bool {
        let is = |n: &str, c: char| self.info.is(n, c);
        if p + 1 < t.len() && is("letter", t[p + 1]) {
            return false;
        }
        t[..p].iter().rev().take_while(|c| !is("space", **c)).any(|c| is("letter", *c) || is("digit", *c))
    }
}

const WORD: &[&str] = &["space", "punctuation"];
const LETTER: &[&str] = &["letter"];
const EITHER: &[&str] = &["letter", "space", "punctuation"];
const DIGIT: &[&str] = &["digit"];

/// `classes` are those of the characters that are translated: of the text or of the cells.
#[allow(clippy::too_many_arguments)]
fn entry(
    info: &Info,
    classes: &Classes,
    n: usize,
    r: &Rule,
    text: &str,
    out: String,
    kind: &'static str,
    (before, after): Shape,
) -> Entry {
    let mut e =
        Entry { text: text.chars().collect(), before: vec![], after: vec![], out, rank: rank(kind), rule: n, kind };
    // a class without members is no condition
    let with = |side| r.with.iter().filter(move |w| w.0 == side && info.classes.contains_key(&w.1));
    e.before.extend(with(false).map(|w| Check::of(classes, &[&w.1])));
    e.before.extend(before.map(|b| Check::of(classes, b)));
    e.after.extend(after.map(|a| Check::of(classes, a)));
    e.after.extend(with(true).map(|w| Check::of(classes, &[&w.1])));
    e
}

type Shape = (Option<&'static [&'static str]>, Option<&'static [&'static str]>);

/// What has to stand before and after the text of a rule.
fn shapes(kind: &str, text: &str, info: &Info) -> &'static [Shape] {
    match kind {
        "always" | "syllable" | "largesign" => &[(None, None)],
        "word" | "joinword" | "lowword" => &[(Some(WORD), Some(WORD))],
        "begword" => &[(Some(WORD), Some(LETTER))],
        "midword" => &[(Some(LETTER), Some(LETTER))],
        "endword" => &[(Some(LETTER), Some(WORD))],
        "midendword" => &[(Some(LETTER), Some(EITHER))],
        "begmidword" => &[(Some(EITHER), Some(LETTER))],
        "partword" => &[(Some(LETTER), None), (None, Some(LETTER))],
        "prfword" => &[(Some(WORD), Some(WORD)), (Some(LETTER), Some(WORD))],
        "sufword" => &[(Some(WORD), Some(WORD)), (Some(WORD), Some(LETTER))],
        "begnum" => &[(Some(WORD), Some(DIGIT))],
        "midnum" => &[(Some(DIGIT), Some(DIGIT))],
        "endnum" => &[(Some(DIGIT), None)],
        "prepunc" | "postpunc" => {
            if text.chars().all(|c| info.is("punctuation", c)) {
                &[(None, None)]
            } else {
                &[]
            }
        }
        "comp6" => &[(None, None)],
        k => unreachable!("no model of {k}"),
    }
}

fn rank(kind: &str) -> u8 {
    match kind {
        "always" | "word" | "begword" | "sufword" | "midword" | "midendword" | "endword" | "begmidword" | "joinword"
        | "begnum" | "midnum" | "endnum" => 2,
        "capsletter" | "begcapsword" | "endcapsword" | "numsign" | "nonumsign" => 1,
        _ => 0,
    }
}

fn multi(n: usize, test: &[Test], action: &[Act], cls: &Classes) -> Pattern {
    Pattern { re: re::of_tests(test, cls), out: Out::Acts(action.to_vec()), rule: n, ambiguous: false }
}
fn check_swaps(acts: &[Act], swaps: &HashMap<String, HashMap<char, String>>) -> Result<(), Stop> {
    for a in acts {
        if let Act::Swap(n) = a
            && !swaps.contains_key(n)
        {
            return Err(Stop::Reject(format!("no swap class {n}")));
        }
    }
    Ok(())
}
fn effects(acts: &[Act]) -> Vec<Act> {
    acts.iter().filter(|a| matches!(a, Act::Set(..) | Act::Inc(_) | Act::Dec(_))).cloned().collect()
}
fn apply(vars: &mut Vars, effects: &[Act]) {
    for e in effects {
        match e {
            Act::Set(v, n) => vars[*v as usize] = Some(*n),
            Act::Inc(v) => vars[*v as usize] = Some(vars[*v as usize].unwrap_or(0).saturating_add(1)),
            Act::Dec(v) => vars[*v as usize] = Some(vars[*v as usize].unwrap_or(0).saturating_sub(1)),
            _ => {}
        }
    }
}

/// The best of the candidates that were not applied here already.
fn choose<'a>(here: &[&'a Cand], seen: &[Cand]) -> Result<Option<&'a Cand>, Stop> {
    let mut left = vec![];
    for c in here {
        if c.len == 0 {
            if let Some(s) = seen.iter().find(|s| s.out == c.out && s.weight == c.weight) {
                if s.rule != c.rule || s.effects != c.effects {
                    return Err(Stop::Discard("two rules that insert the same"));
                }
                continue;
            }
        }
        left.push(*c);
    }
    let Some(max) = left.iter().map(|c| c.weight).max() else { return Ok(None) };
    let best: Vec<&Cand> = left.into_iter().filter(|c| c.weight == max).collect();
    let first = best[0];
    // in back-translation it matters for what follows whether the cells were a capital sign
    let sign = |c: &Cand| matches!(c.kind, "capsletter" | "begcapsword" | "endcapsword");
    let differs = |c: &&Cand| {
        c.out != first.out || c.len != first.len || c.effects != first.effects || sign(c) != sign(first)
    };
    if best.iter().any(|c| c.pattern) && best.iter().any(differs)
    {
        return Err(Stop::Discard("tie"));
    }
    Ok(Some(first))
}

/// North American computer braille, as far as it is needed for the spelling of a number.
pub fn nabcc(c: char) -> char {
    let d = match c {
        '0' => "356",
        '1' => "2",
        '2' => "23",
        '3' => "25",
        '4' => "256",
        '5' => "26",
        '6' => "235",
        '7' => "2356",
        '8' => "236",
        '9' => "35",
        'a' => "1",
        'b' => "12",
        'c' => "14",
        'd' => "145",
        'e' => "15",
        'f' => "124",
        '\\' => "1256",
        'x' => "1346",
        c => unreachable!("{c}"),
    };
    cell_char(crate::table::cell(d))
}
