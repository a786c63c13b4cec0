//! Reference model of back-translation.

use super::*;
use crate::table::Cell;

/// A table for back-translation.
pub struct Back {
    info: Info,
    rules: Vec<Rule>,
    main_swaps: HashMap<String, HashMap<char, String>>,
    entries: Entries,
    nocross: Entries,
    contexts: Vec<Pattern>,
    /// those before and after the main one, in the order in which they are applied
    stages: Vec<(&'static str, Vec<Pattern>)>,
    /// the swap classes of the other stages are in here
    passes: Model,
    undefined: Option<String>,
    /// what the cells of letters mean in a number; None if two digits share the cell
    digits: HashMap<char, Option<(char, usize)>>,
    digit_cells: HashSet<char>,
    letter_cells: HashSet<char>,
    mid: Vec<Vec<char>>,
    sign: HashMap<&'static str, Vec<char>>,
}

fn chars_of(cells: &[Cell]) -> Vec<char> {
    cells_str(cells).chars().collect()
}

/// Whether the result of a rule can stand for something in the other direction.
fn invertible(acts: &[Act]) -> bool {
    acts.iter().any(|a| matches!(a, Act::Str(_) | Act::Cells(_)))
}

impl Back {
    pub fn new(all: &[Rule]) -> Result<Back, Stop> {
        // the model of the other direction shares the stages and the rejection of tables
        let mut flipped: Vec<Rule> = all.to_vec();
        for r in &mut flipped {
            r.dir = match r.dir {
                Dir::NoFor => Dir::Both,
                Dir::Both => Dir::Both,
                Dir::NoBack => Dir::NoFor,
            };
        }
        let passes = Model::new(&flipped, None)?;
        let rules = passes.rules.clone();
        let info = passes.info.clone();
        let mut m = Back {
            main_swaps: info.swaps.clone(),
            info,
            entries: Entries::default(),
            nocross: Entries::default(),
            contexts: vec![],
            stages: vec![],
            passes,
            undefined: None,
            digits: HashMap::new(),
            digit_cells: HashSet::new(),
            letter_cells: HashSet::new(),
            mid: vec![],
            sign: HashMap::new(),
            rules: vec![],
        };
        let letters: HashSet<String> = rules
            .iter()
            .filter_map(|r| match &r.op {
                Op::Def { kind: "letter" | "lowercase" | "uppercase", cells, .. } => Some(cells_str(cells)),
                _ => None,
            })
            .collect();
        m.letter_cells.extend(m.info.dots.get("letter").into_iter().flatten());
        for class in ["digit", LITDIGIT] {
            m.digit_cells.extend(m.info.dots.get(class).into_iter().flatten());
        }
        let early = |k: &str| k == "decpoint" || k == "hyphen";
        for pass in [true, false] {
            for (n, r) in rules.iter().enumerate() {
                if let Op::Def { kind, c, cells } = &r.op
                    && early(kind) == pass
                {
                    if *kind == "display" {
                        continue;
                    }
                    let cells = cells_str(cells);
                    if (*kind == "digit" || *kind == "litdigit") && letters.contains(&cells) && cells.chars().count() == 1 {
                        let cell = cells.chars().next().unwrap();
                        let known = m.digits.get(&cell).cloned();
                        let one = match known {
                            Some(Some((d, _))) if d == *c => Some((*c, n)),
                            Some(_) => None,
                            None => Some((*c, n)),
                        };
                        m.digits.insert(cell, one);
                        continue;
                    }
                    if *kind == "decpoint" {
                        m.mid.push(cells.chars().collect());
                    }
                    m.insert(n, r, c.to_string(), cells, kind, (None, None));
                }
                if pass {
                    continue;
                }
                match &r.op {
                    Op::Base { derived, base, .. } => {
                        if let Some(d) = m.info.defs.get(base).cloned() {
                            m.insert(n, r, derived.to_string(), d, "base", (None, None));
                        }
                    }
                    Op::Sign { kind: "undefined", cells } => m.undefined = Some(cells_str(cells)),
                    Op::Sign { kind, cells } if rank(kind) == 1 => {
                        if !letters.contains(&cells_str(cells)) {
                            m.insert(n, r, String::new(), cells_str(cells), kind, (None, None));
                            m.sign.insert(kind, chars_of(cells));
                        }
                    }
                    Op::Chars { kind: "numericmodechars", chars } => {
                        for c in chars.chars() {
                            m.mid.extend(m.info.defs.get(&c).map(|d| d.chars().collect()));
                        }
                    }
                    Op::Chars { kind: "contraction", chars } => {
                        let cells = m.info.implicit(chars)?;
                        m.insert(n, r, chars.clone(), cells, "contraction", (Some(WORD), Some(WORD)));
                    }
                    Op::Text { kind: "comp6" | "prepunc" | "postpunc", .. } => {}
                    Op::Text { kind, text, cells } => {
                        let cells = match cells {
                            Some(c) => cells_str(c),
                            None => m.info.implicit(text)?,
                        };
                        if *kind == "midnum" {
                            m.mid.push(cells.chars().collect());
                        }
                        for s in shapes(kind, text, &m.info) {
                            m.insert(n, r, text.clone(), cells.clone(), kind, *s);
                        }
                    }
                    Op::Multi { kind: "context", test, action } => m.contexts.push(multi(n, test, action, &m.info.classes)),
                    _ => {}
                }
            }
        }
        m.rules = rules;
        let stages = std::mem::take(&mut m.passes.stages);
        for (kind, ps) in stages {
            let ps: Vec<Pattern> = ps
                .into_iter()
                .filter(|p| match &p.out {
                    Out::Acts(a) => invertible(a),
                    _ => true,
                })
                .collect();
            m.stages.push((kind, ps));
        }
        m.stages.reverse();
        Ok(m)
    }

    fn insert(&mut self, n: usize, r: &Rule, text: String, cells: String, kind: &'static str, shape: Shape) {
        let e = entry(&self.info, &self.info.dots, n, r, &cells, text, kind, shape);
        if r.nocross { self.nocross.insert(e) } else { self.entries.insert(e) }
    }

    pub fn kind(&self, rule: usize) -> &'static str {
        kind_of(&self.rules[rule])
    }
    pub fn rule(&self, rule: usize) -> &Rule {
        &self.rules[rule]
    }

    pub fn backward(&self, braille: &str) -> Result<Translated, Stop> {
        let mut t: Vec<char> = braille.chars().collect();
        let mut o = Translated { stages: vec![braille.to_string()], ..Translated::default() };
        for (name, ps) in self.stages.iter().filter(|s| s.0 != "correct") {
            t = self.passes.stage(name, ps, &t, &mut o)?;
            o.stages.push(t.iter().collect());
        }
        t = self.main(&t, &mut o)?;
        o.stages.push(t.iter().collect());
        for (name, ps) in self.stages.iter().filter(|s| s.0 == "correct") {
            t = self.passes.stage(name, ps, &t, &mut o)?;
            o.stages.push(t.iter().collect());
        }
        o.output = t.into_iter().collect();
        Ok(o)
    }

    fn sign_at(&self, t: &[char], p: usize, kind: &str) -> Option<usize> {
        let s = self.sign.get(kind)?;
        (p <= t.len() && t[p..].starts_with(s)).then_some(s.len())
    }

    /// The positions where the cell of a digit means the digit.
    fn numbers(&self, t: &[char]) -> HashSet<usize> {
        let mut found = HashSet::new();
        let digit = |p: usize| t.get(p).is_some_and(|c| self.digit_cells.contains(c));
        let mut p = 0;
        let mut number = false;
        while p < t.len() {
            let after_letter = p > 0 && self.letter_cells.contains(&t[p - 1]);
            if let Some(n) = self.sign_at(t, p, "numsign").filter(|_| !after_letter) {
                number = true;
                p += n;
                continue;
            }
            if number {
                if let Some(n) = self.sign_at(t, p, "nonumsign") {
                    number = false;
                    p += n;
                    continue;
                }
                if digit(p) {
                    found.insert(p);
                    p += 1;
                    continue;
                }
                let mut end = p;
                while let Some(m) = self.mid.iter().find(|m| t[end..].starts_with(m)) {
                    end += m.len();
                }
                number = end > p && digit(end);
                if number {
                    p = end;
                    continue;
                }
            }
            p += 1;
        }
        found
    }

    /// The positions of cells whose whole text is in capitals, and of those with one capital.
    fn capitals(&self, t: &[char]) -> (HashSet<usize>, HashSet<usize>) {
        let (mut all, mut first) = (HashSet::new(), HashSet::new());
        let mut p = 0;
        while p < t.len() {
            if let Some(n) = self.sign_at(t, p, "begcapsword") {
                p += n;
                loop {
                    if let Some(n) = self.sign_at(t, p, "endcapsword") {
                        p += n;
                        break;
                    }
                    match t.get(p) {
                        Some(c) if self.letter_cells.contains(c) => all.insert(p),
                        _ => break,
                    };
                    p += 1;
                }
            } else if let Some(n) = self.sign_at(t, p, "capsletter") {
                p += n;
                first.insert(p);
            } else {
                p += 1;
            }
        }
        (all, first)
    }

    fn main(&self, t: &[char], o: &mut Translated) -> Result<Vec<char>, Stop> {
        let mut vars: Vars = [None; 64];
        let mut out = String::new();
        let mut pending: Vec<Cand> = vec![];
        let mut seen: Vec<Cand> = vec![];
        let mut p = 0;
        // what the next rule stands after, for the conditions about the character before it
        let mut before: Option<char> = None;
        let numbers = self.numbers(t);
        let (upper, title) = self.capitals(t);
        loop {
            let cand = |e: &Entry| Cand {
                start: p,
                len: e.text.len(),
                weight: e.weight(),
                out: e.out.clone(),
                effects: vec![],
                rule: e.rule,
                kind: e.kind,
                pattern: false,
            };
            let applies = |e: &&Entry| {
                t[p..].starts_with(&e.text)
                    && e.before.iter().all(|b| b.ok(before))
                    && e.after.iter().all(|a| a.ok(t.get(p + e.text.len()).copied()))
            };
            let mut fresh = vec![];
            self.passes.find(&self.contexts, t, p, &vars, &self.main_swaps, &mut fresh)?;
            pending.retain(|c| c.start >= p);
            pending.extend(fresh.iter().filter(|c| c.start > p).cloned());
            let mut here: Vec<Cand> = self.entries.0.iter().filter(applies).map(cand).collect();
            here.extend(pending.iter().chain(&fresh).filter(|c| c.start == p).cloned());
            let nocross: Vec<Cand> = self.nocross.0.iter().filter(applies).map(cand).collect();
            if numbers.contains(&p)
                && let Some(d) = self.digits.get(&t[p])
            {
                let Some((d, rule)) = d else { return Err(Stop::Discard("two digits with the same cells")) };
                if nocross.iter().any(|c| c.len == 1) || here.iter().any(|c| c.pattern && c.len <= 1) {
                    return Err(Stop::Discard("rule in place of a digit"));
                }
                here.retain(|c| c.len != 1);
                let (d, rule) = (d.to_string(), *rule);
                let e = Cand { start: p, len: 1, weight: 1, out: d, effects: vec![], rule, kind: "litdigit", pattern: false };
                here.push(e);
            }
            let here: Vec<&Cand> = here.iter().collect();
            let nocross: Vec<&Cand> = nocross.iter().collect();
            let plain = choose(&here, &seen)?;
            let best = match (choose(&nocross, &[])?, plain) {
                (Some(n), Some(c)) if n.weight == c.weight && (n.out != c.out || n.len != c.len) => {
                    return Err(Stop::Discard("as good with and without nocross"));
                }
                (Some(n), Some(c)) if n.weight >= c.weight => Some(n),
                (Some(n), None) => Some(n),
                (_, c) => c,
            };
            match best {
                Some(c) => {
                    if upper.contains(&p) {
                        if c.len == 0 {
                            return Err(Stop::Discard("insertion between capitals"));
                        }
                        out.extend(c.out.chars().flat_map(|c| c.to_uppercase()));
                        o.indications.push((p, "begcapsword"));
                    } else if title.contains(&p) {
                        if c.len == 0 {
                            return Err(Stop::Discard("insertion between capitals"));
                        }
                        let mut chars = c.out.chars();
                        out.extend(chars.next().into_iter().flat_map(|c| c.to_uppercase()));
                        out.extend(chars);
                        o.indications.push((p, "capsletter"));
                    } else {
                        out.push_str(&c.out);
                    }
                    if c.kind == "litdigit" {
                        o.indications.push((p, "digit"));
                    }
                    apply(&mut vars, &c.effects);
                    o.used.push((c.rule, c.start, c.len));
                    if c.len == 0 {
                        seen.push(c.clone());
                    } else {
                        seen.clear();
                        // a sign for capitals is not a part of the text
                        if !matches!(c.kind, "capsletter" | "begcapsword" | "endcapsword") {
                            before = Some(t[p + c.len - 1]);
                        }
                        p += c.len;
                    }
                }
                None if p < t.len() => {
                    o.undefined += 1;
                    match &self.undefined {
                        Some(u) => out.push_str(u),
                        None => self.passes.escape(t[p], &mut out),
                    }
                    seen.clear();
                    before = Some(t[p]);
                    p += 1;
                }
                None => return Ok(out.chars().collect()),
            }
        }
    }
}
