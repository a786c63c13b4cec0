//! Where the indicator signs go.

use super::{Info, LITDIGIT, re::fold};
use crate::sut::Span;
use crate::table::{Op, Rule, cells_str};
use std::collections::{BTreeSet, HashMap, HashSet};

type CharSet = HashSet<char>;
type Signs = Vec<(usize, &'static str, String)>;

#[derive(Default, Clone)]
struct Emph {
    name: String,
    sign: HashMap<&'static str, String>,
    endphrase: Option<String>,
    endphrase_after: bool,
    len: Option<usize>,
    mode: CharSet,
    no: CharSet,
}

#[derive(Default, Clone)]
pub struct Indications {
    sign: HashMap<&'static str, String>,
    endcapsphrase: Option<String>,
    endcapsphrase_after: bool,
    lencapsphrase: Option<usize>,
    capsmode: CharSet,
    noletsign: CharSet,
    noletsignafter: CharSet,
    noletsignbefore: CharSet,
    numericnocont: CharSet,
    numericmode: CharSet,
    midnum: CharSet,
    contractions: Vec<Vec<char>>,
    compbrl: Vec<Vec<char>>,
    emph: Vec<Emph>,
}

/// maximal ranges of `lo..hi` where `f`
fn runs(lo: usize, hi: usize, f: impl Fn(usize) -> bool) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = vec![];
    for i in (lo..hi).filter(|i| f(*i)) {
        match out.last_mut() {
            Some(l) if l.1 == i => l.1 = i + 1,
            _ => out.push((i, i + 1)),
        }
    }
    out
}

impl Indications {
    pub fn of(rules: &[Rule], _info: &Info) -> Self {
        let mut x = Indications::default();
        for r in rules {
            match &r.op {
                Op::Sign { kind, cells } => {
                    x.sign.insert(kind, cells_str(cells));
                }
                Op::Chars { kind, chars } => {
                    let set = chars.chars();
                    match *kind {
                        "capsmodechars" => x.capsmode = set.collect(),
                        "noletsign" => x.noletsign.extend(set),
                        "noletsignafter" => x.noletsignafter.extend(set),
                        "noletsignbefore" => x.noletsignbefore.extend(set),
                        "numericnocontchars" => x.numericnocont = set.collect(),
                        "numericmodechars" => x.numericmode = set.collect(),
                        "contraction" => x.contractions.push(set.collect()),
                        "compbrl" => x.compbrl.push(set.collect()),
                        _ => {}
                    }
                }
                Op::Text { kind: "midnum", text, .. } => x.midnum.extend(text.chars()),
                Op::Def { kind: "decpoint", c, .. } => {
                    x.midnum.insert(*c);
                }
                Op::Num { kind: "lencapsphrase", n } => x.lencapsphrase = Some(*n),
                Op::EndCapsPhrase { before, cells } => {
                    x.endcapsphrase = Some(cells_str(cells));
                    x.endcapsphrase_after = !before;
                }
                Op::Emphclass(n) => {
                    x.emph(n);
                }
                Op::Emph { kind, class, cells } => {
                    x.emph(class).sign.insert(kind, cells_str(cells));
                }
                Op::EndEmphPhrase { class, before, cells } => {
                    let e = x.emph(class);
                    e.endphrase = Some(cells_str(cells));
                    e.endphrase_after = !before;
                }
                Op::EmphChars { kind, class, chars } => {
                    let e = x.emph(class);
                    match *kind {
                        "emphmodechars" => e.mode = chars.chars().collect(),
                        _ => e.no = chars.chars().collect(),
                    }
                }
                Op::EmphLen { class, n } => x.emph(class).len = Some(*n),
                _ => {}
            }
        }
        x
    }
    fn emph(&mut self, name: &str) -> &mut Emph {
        let i = match self.emph.iter().position(|e| e.name == name) {
            Some(i) => i,
            None => {
                self.emph.push(Emph { name: name.into(), ..Emph::default() });
                self.emph.len() - 1
            }
        };
        &mut self.emph[i]
    }
    fn get(&self, kind: &str) -> Option<String> {
        self.sign.get(kind).cloned()
    }

    /// All signs with their positions, in the order in which they are written.
    pub fn signs(&self, t: &[char], spans: &[Span], info: &Info) -> Signs {
        let mut out = vec![];
        let kinds = [
            self.comp(t, spans, info),
            self.emphasis(t, spans, info),
            self.numbers(t, info),
            self.letsigns(t, info),
            self.capitals(t, info),
            self.nocontract(t, info),
        ];
        for mut signs in kinds {
            signs.sort_by_key(|s| s.0);
            out.extend(signs);
        }
        out
    }

    // numbers

    /// The numbers, and where each of them ends.
    fn number_runs(&self, t: &[char], info: &Info) -> Vec<(usize, usize)> {
        let num = |i: usize| i < t.len() && info.is(LITDIGIT, t[i]);
        let mut out = vec![];
        let mut i = 0;
        while i < t.len() {
            if !num(i) {
                i += 1;
                continue;
            }
            let start = i;
            while i < t.len()
                && (num(i)
                    || self.numericmode.contains(&t[i])
                    || self.numericmode.is_empty() && self.midnum.contains(&t[i]) && num(i + 1))
            {
                i += 1;
            }
            out.push((start, i));
        }
        out
    }
    fn numbers(&self, t: &[char], info: &Info) -> Signs {
        let Some(begin) = self.get("numsign") else { return vec![] };
        let mut out = vec![];
        for (a, b) in self.number_runs(t, info) {
            out.push((a, "numsign", begin.clone()));
            if let Some(end) = self.get("nonumsign")
                && b < t.len()
                && self.numericnocont.contains(&t[b])
            {
                out.push((b, "nonumsign", end));
            }
        }
        out
    }
    pub fn in_number(&self, t: &[char], info: &Info) -> HashSet<usize> {
        self.number_runs(t, info).into_iter().flat_map(|(a, b)| a..b).collect()
    }

    // computer braille

    fn comp_spans(&self, t: &[char], spans: &[Span], info: &Info) -> Vec<(usize, usize)> {
        let mut out: Vec<(usize, usize)> =
            spans.iter().filter(|s| s.0 == "computer_braille").map(|s| (s.1.start, s.1.end)).collect();
        for (a, b) in runs(0, t.len(), |i| !info.is("space", t[i])) {
            if (a..b).any(|i| self.compbrl.iter().any(|c| t[i..].starts_with(c))) && !out.contains(&(a, b)) {
                out.push((a, b));
            }
        }
        out.into_iter().map(|(a, b)| (a, b.min(t.len()))).filter(|(a, b)| a < b).collect()
    }
    fn comp(&self, t: &[char], spans: &[Span], info: &Info) -> Signs {
        let Some(begin) = self.get("begcomp") else { return vec![] };
        let mut out = vec![];
        // parts that overlap or touch are one region
        let inside = self.in_comp(t, spans, info);
        for (a, b) in runs(0, t.len(), |i| inside.contains(&i)) {
            out.push((a, "begcomp", begin.clone()));
            if let Some(end) = self.get("endcomp") {
                out.push((b, "endcomp", end));
            }
        }
        out
    }
    pub fn in_comp(&self, t: &[char], spans: &[Span], info: &Info) -> HashSet<usize> {
        self.comp_spans(t, spans, info).into_iter().flat_map(|(a, b)| a..b).collect()
    }

    // letter signs

    fn contraction_at(&self, t: &[char], i: usize, info: &Info) -> bool {
        let edge = |c: Option<&char>| c.is_none_or(|c| info.is("space", *c) || info.is("punctuation", *c));
        self.contractions.iter().any(|c| {
            let end = i + c.len();
            end <= t.len()
                && c.iter().zip(&t[i..]).all(|(r, c)| fold(*c) == Some(*r))
                && edge(i.checked_sub(1).map(|i| &t[i]))
                && edge(t.get(end))
        })
    }
    fn letsigns(&self, t: &[char], info: &Info) -> Signs {
        let Some(sign) = self.get("letsign") else { return vec![] };
        let letter = |c: &char| ["letter", "uppercase", "lowercase"].iter().any(|k| info.is(k, *c));
        (0..t.len())
            .filter(|&i| {
                if self.noletsign.contains(&t[i]) {
                    return false;
                }
                let prev = i.checked_sub(1).map(|i| &t[i]);
                let next = t.get(i + 1);
                let alone = letter(&t[i])
                    && !next.is_some_and(letter)
                    && !prev.is_some_and(|c| letter(c) || info.is("space", *c));
                let excused = prev.is_some_and(|c| self.noletsignafter.contains(c))
                    || next.is_some_and(|c| self.noletsignbefore.contains(c));
                alone && !excused || self.contraction_at(t, i, info)
            })
            .map(|i| (i, "letsign", sign.clone()))
            .collect()
    }
    fn nocontract(&self, t: &[char], info: &Info) -> Signs {
        let Some(sign) = self.get("nocontractsign") else { return vec![] };
        (0..t.len())
            .filter(|i| self.contraction_at(t, *i, info))
            .map(|i| (i, "nocontractsign", sign.clone()))
            .collect()
    }

    // capitals

    fn capitals(&self, t: &[char], info: &Info) -> Signs {
        let mut out = vec![];
        if !["capsletter", "begcapsword", "begcaps", "begcapsphrase"].iter().any(|k| self.sign.contains_key(k)) {
            return out;
        }
        let letter = |i: usize| info.is("letter", t[i]);
        let upper = |i: usize| letter(i) && info.is("uppercase", t[i]);
        let words = runs(0, t.len(), |i| letter(i) || self.capsmode.contains(&t[i]));
        // groups of words in capitals
        let mut group: Vec<Vec<usize>> = vec![];
        let mut flush = |group: &mut Vec<Vec<usize>>, out: &mut Signs| {
            if !group.is_empty() {
                self.caps_group(t, group, info, out);
                group.clear();
            }
        };
        for (a, b) in words {
            let letters: Vec<usize> = (a..b).filter(|i| letter(*i)).collect();
            if !letters.is_empty() && letters.iter().all(|i| upper(*i)) {
                group.push(letters);
                continue;
            }
            flush(&mut group, &mut out);
            // maximal sequences of capitals among the letters
            let mut k = 0;
            while k < letters.len() {
                if !upper(letters[k]) {
                    k += 1;
                    continue;
                }
                let first = k;
                while k < letters.len() && upper(letters[k]) {
                    k += 1;
                }
                self.caps_part(&letters[first..k], letters.get(k).copied(), &mut out);
            }
        }
        flush(&mut group, &mut out);
        out
    }
    fn capsletters(&self, letters: &[usize], out: &mut Signs) {
        if let Some(s) = self.get("capsletter") {
            out.extend(letters.iter().map(|i| (*i, "capsletter", s.clone())));
        }
    }
    /// Capitals within a word of mixed case, and the small letter that follows.
    fn caps_part(&self, letters: &[usize], next: Option<usize>, out: &mut Signs) {
        let open = letters[0];
        let close = letters[letters.len() - 1] + 1;
        if letters.len() == 1 && self.sign.contains_key("capsletter") {
            return self.capsletters(letters, out);
        }
        match (self.get("begcapsword"), self.get("endcapsword"), next) {
            (Some(b), _, None) => return out.push((open, "begcapsword", b)),
            (Some(b), Some(e), Some(n)) => {
                out.push((open, "begcapsword", b));
                return out.push((n, "endcapsword", e));
            }
            _ => {}
        }
        if let Some(b) = self.get("begcaps") {
            out.push((open, "begcaps", b));
            out.extend(self.get("endcaps").map(|e| (close, "endcaps", e)));
        } else {
            self.capsletters(letters, out);
        }
    }
    /// A whole word in capitals.
    fn caps_word(&self, letters: &[usize], out: &mut Signs) {
        self.caps_part(letters, None, out)
    }
    fn caps_group(&self, t: &[char], group: &[Vec<usize>], info: &Info, out: &mut Signs) {
        let open = group[0][0];
        let last = group.last().unwrap();
        let close = last.last().unwrap() + 1;
        let words = 1 + group
            .windows(2)
            .filter(|w| (*w[0].last().unwrap()..w[1][0]).any(|i| info.is("space", t[i])))
            .count();
        if words >= self.lencapsphrase.unwrap_or(2) {
            if let Some(b) = self.get("begcapsphrase") {
                out.push((open, "begcapsphrase", b));
                match &self.endcapsphrase {
                    Some(e) if self.endcapsphrase_after => out.push((close, "endcapsphrase", e.clone())),
                    Some(_) => self.caps_word(last, out),
                    None => out.extend(self.get("endcaps").map(|e| (close, "endcaps", e))),
                }
                return;
            }
            if let Some(b) = self.get("begcaps") {
                out.push((open, "begcaps", b));
                out.extend(self.get("endcaps").map(|e| (close, "endcaps", e)));
                return;
            }
        }
        for w in group {
            self.caps_word(w, out);
        }
    }

    // emphasis

    fn emphasis(&self, t: &[char], spans: &[Span], info: &Info) -> Signs {
        // kind: 0 closes something, 1 opens something that is closed later, 2 stands for itself
        struct S {
            at: usize,
            kind: u8,
            other: usize,
            class: usize,
            what: &'static str,
            sign: String,
        }
        let n = t.len();
        let mut all: Vec<S> = vec![];
        let mut class = 0;
        for e in &self.emph {
            let get = |k: &str| e.sign.get(k).cloned();
            if !["emphletter", "begemphword", "begemph", "begemphphrase"].iter().any(|k| e.sign.contains_key(k)) {
                continue;
            }
            class += 1;
            let active: BTreeSet<usize> = spans
                .iter()
                .filter(|s| s.0 == e.name)
                .flat_map(|s| s.1.start..s.1.end.min(n))
                .filter(|i| !e.no.contains(&t[*i]))
                .collect();
            let sep = |i: usize| {
                if e.mode.is_empty() { info.is("space", t[i]) } else { e.mode.contains(&t[i]) }
            };
            let mut put = |at, kind, other, what, sign| all.push(S { at, kind, other, class, what, sign });
            for (a, b) in runs(0, n, |i| active.contains(&i)) {
                let words = runs(a, b, |i| !sep(i));
                if let Some(begin) = get("begemph") {
                    let first = words.first().map_or(a, |w| w.0);
                    let last = words.last().map_or(b, |w| w.1);
                    put(first, 1, last, "begemph", begin);
                    if let Some(end) = get("endemph") {
                        put(last, 0, first, "endemph", end);
                    }
                    continue;
                }
                let (Some(first), Some(last)) = (words.first(), words.last()) else { continue };
                let clean = (first.0 == 0 || sep(first.0 - 1)) && (last.1 == n || sep(last.1));
                if clean {
                    let word = |w: &(usize, usize)| match (get("emphletter"), get("begemphword")) {
                        (Some(l), _) if w.1 - w.0 == 1 => Some((w.0, "emphletter", l)),
                        (_, Some(s)) => Some((w.0, "begemphword", s)),
                        _ => None,
                    };
                    let mut single = |w: &(usize, usize)| {
                        if let Some((at, what, s)) = word(w) {
                            put(at, 2, 0, what, s);
                        }
                    };
                    match get("begemphphrase") {
                        Some(p) if words.len() >= e.len.unwrap_or(4) => {
                            if e.endphrase.is_some() && e.endphrase_after {
                                put(first.0, 2, 0, "begemphphrase", p);
                                put(last.1, 0, first.0, "endemphphrase", e.endphrase.clone().unwrap());
                            } else if e.endphrase_after {
                                put(first.0, 2, 0, "begemphphrase", p);
                            } else {
                                // the phrase sign goes before the sign of the last word, even when
                                // they are at the same place
                                let last = word(last);
                                put(first.0, 2, 0, "begemphphrase", p);
                                if let Some((at, what, s)) = last {
                                    put(at, 2, 0, what, s);
                                }
                            }
                        }
                        _ => words.iter().for_each(&mut single),
                    }
                    continue;
                }
                let total: usize = words.iter().map(|w| w.1 - w.0).sum();
                if total == 1 && let Some(s) = get("emphletter") {
                    put(first.0, 2, 0, "emphletter", s);
                } else if let Some(s) = get("begemphword") {
                    put(a, 2, 0, "begemphword", s);
                    if let Some(end) = get("endemphword")
                        && b < n
                        && !sep(b)
                    {
                        put(b, 0, a, "endemphword", end);
                    }
                } else if let Some(s) = get("begemphphrase") {
                    put(a, 2, 0, "begemphphrase", s);
                    if let Some(end) = &e.endphrase
                        && b < n
                    {
                        put(b, 0, a, "endemphphrase", end.clone());
                    }
                }
            }
        }
        // inner brackets close first and open last
        let max = usize::MAX;
        all.sort_by_key(|s| match s.kind {
            0 => (s.at, 0, max - s.other, s.class),
            1 => (s.at, 1, max - s.other, max - s.class),
            _ => (s.at, 2, 0, 0),
        });
        all.into_iter().map(|s| (s.at, s.what, s.sign)).collect()
    }
}
