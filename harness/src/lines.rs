//! Lines of tables of every opcode: well-formed ones, ones with a known mistake, and ones with
//! unknown mistakes.

use crate::engine::Src;
use crate::generate::Gen;
use crate::table::*;

/// opcode, prefixes (0 none, 1 nofor and noback, 2 also nocross, 3 also classes), operands:
/// n name, c chars, 1 one character, d dots, = dots or `=`, # number, p before/after, b one cell,
/// , cells, : cell sequences, r two cell sequences, g two cells, m opcodes, T test, A action, P Q patterns,
/// f file, o optional chars
pub const SHAPES: &[(&str, u8, &str)] = &[
    ("undefined", 0, "d"),
    ("display", 1, "1b"),
    ("multind", 1, "dm"),
    ("space", 1, "1d"),
    ("punctuation", 1, "1d"),
    ("digit", 1, "1d"),
    ("grouping", 1, "ncg"),
    ("letter", 1, "1d"),
    ("base", 0, "n11"),
    ("lowercase", 1, "1d"),
    ("uppercase", 1, "1d"),
    ("litdigit", 1, "1d"),
    ("sign", 1, "1d"),
    ("math", 1, "1d"),
    ("modeletter", 1, "nd"),
    ("capsletter", 1, "d"),
    ("begmodeword", 1, "nd"),
    ("begcapsword", 1, "d"),
    ("endcapsword", 1, "d"),
    ("capsmodechars", 0, "c"),
    ("begcaps", 0, "d"),
    ("endcaps", 0, "d"),
    ("begcapsphrase", 0, "d"),
    ("endcapsphrase", 0, "pd"),
    ("lencapsphrase", 0, "#"),
    ("letsign", 0, "d"),
    ("noletsign", 0, "c"),
    ("noletsignbefore", 0, "c"),
    ("noletsignafter", 0, "c"),
    ("nocontractsign", 1, "d"),
    ("numsign", 0, "d"),
    ("nonumsign", 1, "d"),
    ("numericnocontchars", 0, "c"),
    ("numericmodechars", 0, "c"),
    ("midendnumericmodechars", 0, "c"),
    ("begmodephrase", 0, "nd"),
    ("endmodephrase", 0, "npd"),
    ("lenmodephrase", 0, "n#"),
    ("seqdelimiter", 0, "c"),
    ("seqbeforechars", 0, "c"),
    ("seqafterchars", 0, "c"),
    ("seqafterpattern", 0, "c"),
    ("seqafterexpression", 0, "c"),
    ("class", 0, "nc"),
    ("emphclass", 0, "n"),
    ("begemph", 1, "nd"),
    ("endemph", 1, "nd"),
    ("noemphchars", 0, "nc"),
    ("emphletter", 0, "nd"),
    ("begemphword", 0, "nd"),
    ("endemphword", 0, "nd"),
    ("emphmodechars", 0, "nc"),
    ("begemphphrase", 0, "nd"),
    ("endemphphrase", 0, "npd"),
    ("lenemphphrase", 0, "n#"),
    ("begcomp", 1, "d"),
    ("endcomp", 1, "d"),
    ("decpoint", 0, "1d"),
    ("hyphen", 1, "1d"),
    ("capsnocont", 0, ""),
    ("compbrl", 1, "c"),
    ("comp6", 0, "c="),
    ("nocont", 0, "c"),
    ("replace", 0, "co"),
    ("always", 3, "c="),
    ("repeated", 1, "cd"),
    ("repword", 0, "cd"),
    ("rependword", 0, "cr"),
    ("largesign", 0, "cd"),
    ("word", 1, "c="),
    ("syllable", 0, "c="),
    ("joinword", 0, "cd"),
    ("lowword", 1, "cd"),
    ("contraction", 0, "c"),
    ("sufword", 3, "c="),
    ("prfword", 3, "c="),
    ("begword", 3, "c="),
    ("begmidword", 3, "c="),
    ("midword", 3, "c="),
    ("midendword", 3, "c="),
    ("endword", 3, "c="),
    ("partword", 3, "c="),
    ("exactdots", 0, "c"),
    ("prepunc", 2, "cd"),
    ("postpunc", 2, "cd"),
    ("begnum", 2, "cd"),
    ("midnum", 2, "cd"),
    ("endnum", 2, "c="),
    ("joinnum", 2, "cd"),
    ("attribute", 0, "nc"),
    ("swapcd", 0, "s"),
    ("swapdd", 0, "s"),
    ("swapcc", 0, "s"),
    ("context", 1, "TA"),
    ("pass2", 1, "TA"),
    ("pass3", 1, "TA"),
    ("pass4", 1, "TA"),
    ("correct", 1, "TA"),
    ("match", 1, "PcQ="),
    ("literal", 0, "c"),
];

fn any_cell(s: &mut Src) -> Cell {
    if s.chance(1, 8) { s.below(0x8000) as Cell } else { s.below(64) as Cell }
}
fn any_cells(s: &mut Src) -> String {
    let n = s.weighted(&[0, 8, 3, 1]);
    let mut st = Style { src: Some(s) };
    let mut v = vec![];
    for _ in 0..n {
        let c = any_cell(st.src.as_mut().unwrap());
        v.push(st.cell(c));
    }
    v.join("-")
}
pub fn any_string(s: &mut Src) -> String {
    let n = s.weighted(&[0, 8, 5, 3, 1]);
    (0..n).map(|_| if s.chance(1, 10) { s.scalar() } else { s.ch("abcABC12 .-(\\\"ß") }).collect()
}
fn name(s: &mut Src) -> String {
    s.pick(&["letter", "uppercase", "digit", "bold", "italic", "vow", "1", "7", "a1", "x"]).to_string()
}

/// The operand of a shape; `T A P Q s` in the simplest forms of `Gen`.
fn operand(g: &mut Gen, op: &str, o: char, out: &mut Vec<String>) {
    match o {
        'n' => out.push(name(g.s)),
        'c' => {
            let t = any_string(g.s);
            let mut st = Style { src: Some(g.s) };
            out.push(st.operand(&t));
        }
        'o' => {
            if g.s.bool() {
                out.push("abc".into())
            }
        }
        '1' => {
            let c = g.s.scalar();
            let mut st = Style { src: Some(g.s) };
            out.push(st.operand(&c.to_string()));
        }
        'd' => out.push(any_cells(g.s)),
        '=' => {
            if g.s.chance(1, 4) {
                out.push("=".into())
            } else {
                out.push(any_cells(g.s))
            }
        }
        '#' => {
            let n = g.s.below(300);
            out.push(n.to_string())
        }
        'p' => out.push(g.s.pick(&["before", "after"]).to_string()),
        'b' => {
            let c = any_cell(g.s);
            out.push(dots(c))
        }
        'g' => {
            let (a, b) = (any_cell(g.s), any_cell(g.s));
            // the two cells are kept as a set
            out.push(format!("{},{}", dots(a), dots(if a == b { a ^ 1 } else { b })))
        }
        'r' => {
            let (a, b) = (any_cells(g.s), any_cells(g.s));
            out.push(format!("{a},{b}"))
        }
        'm' => {
            out.push("begemph".into());
            out.push("capsletter".into());
        }
        'T' => {
            g.swaps();
            g.rules.clear();
            let t = g.test(op.starts_with("pass"));
            let mut st = Style { src: Some(g.s) };
            out.push(st.tests(&t));
        }
        'A' => {
            let a = g.action(op);
            let mut st = Style { src: Some(g.s) };
            out.push(st.acts(&a));
        }
        'P' | 'Q' => {
            let p = if g.s.chance(1, 4) { Pat::Empty } else { g.pat(2) };
            let mut st = Style { src: Some(g.s) };
            let mut t = st.pat(&p, o == 'P');
            if g.s.chance(1, 4) {
                // attributes that the model doesn't know
                let one = g.s.ch("_#aul.$~<>^01234567").to_string();
                let set = g.s.string("_#aul.$~<>^01234567", 1, 3);
                let more = format!("%{}{}", if g.s.bool() { one } else { format!("[{set}]") }, g.s.pick(&["", "", "?", "*", "+"]));
                t = if p == Pat::Empty || g.s.bool() { more } else { format!("{t}{more}") };
            }
            out.push(t);
        }
        's' => {
            let n = g.s.range(1, 3);
            let nm = name(g.s);
            out.push(nm);
            match op {
                "swapcc" => {
                    let (a, b) = (&"abcd"[..n], &"xyzw"[..n]);
                    out.push(a.into());
                    out.push(b.into());
                }
                "swapcd" => {
                    out.push("abcd"[..n].into());
                    let v: Vec<String> = (0..n).map(|_| any_cells(g.s)).collect();
                    out.push(v.join(","));
                }
                _ => {
                    let v: Vec<String> = ["1", "12", "123"][..n].iter().map(|s| s.to_string()).collect();
                    out.push(v.join(","));
                    let v: Vec<String> = (0..n).map(|_| any_cells(g.s)).collect();
                    out.push(v.join(","));
                }
            }
        }
        _ => unreachable!(),
    }
}

fn prefixes(s: &mut Src, allowed: u8, out: &mut Vec<String>) {
    if allowed >= 1 && s.chance(1, 4) {
        out.push(s.pick(&["nofor", "noback"]).to_string());
    }
    if allowed >= 2 && s.chance(1, 5) {
        out.push("nocross".into());
    }
    if allowed >= 3 && s.chance(1, 5) {
        out.push(s.pick(&["before", "after"]).to_string());
        out.push(name(s));
    }
}

pub struct Line {
    pub tokens: Vec<String>,
    /// where the opcode is
    at: usize,
    pub shape: &'static (&'static str, u8, &'static str),
}

/// A line that is valid by itself.
pub fn valid(s: &mut Src) -> Line {
    let shape = s.pick(SHAPES);
    let mut g = Gen::new(s);
    let mut tokens = vec![];
    prefixes(g.s, shape.1, &mut tokens);
    let at = tokens.len();
    tokens.push(shape.0.to_string());
    for o in shape.2.chars() {
        operand(&mut g, shape.0, o, &mut tokens);
    }
    Line { tokens, at, shape }
}

const BAD_DOTS: &[&str] = &["", "g", "8x", "1-", "-1", "1--2", "12 ", "q1", "=1", "1=", "1G", "+"];
const BAD_TESTS: &[&str] = &["\"a", "$", "$k", "%", "@", "[", "[\"a\"", "#1", "!", "#a=1", "\"a\"x", "$l3-1", "$l2-2", "$l300"];
const BAD_ACTS: &[&str] = &["\"a", "@", "%", "#1", "#1=", "#a=1", "*x", "#300=1"];
const BAD_PATS: &[&str] = &["-(", "-[", "-|", "(a", "[a", "%", "%[", "*", "?", "+", "|a", "!", "!!a", "%q", "a)", "[]", "()"];
const BAD_CHARS: &[&str] = &["\\", "a\\", "\\q", "\\x", "\\x12", "\\xzzzz", "\\y1234", "\\y0004g"];

/// An escape sequence of which one digit is none.
fn bad_escape(s: &mut Src) -> String {
    let (kind, n) = *s.pick(&[('x', 4), ('y', 5)]);
    let mut d: Vec<char> = format!("{:05x}", s.pick(&[0x41, 0xe9, 0x3b1, 0x4e00, 0x10000])).chars().skip(5 - n).collect();
    if s.bool() {
        d = d.iter().map(|c| c.to_ascii_uppercase()).collect();
    }
    d[s.below(n)] = *s.pick(&['+', '-', '_', 'g', 'G', 'z', ':', '/', '@', '`', '.', '\u{ff11}', '\u{663}', 'é']);
    let before = *s.pick(&["", "", "a"]);
    let after = *s.pick(&["", "", "b", "1"]);
    format!("{before}\\{kind}{}{after}", d.into_iter().collect::<String>())
}

/// A line with a mistake, and what it is.
pub fn invalid(s: &mut Src) -> (Vec<String>, String) {
    let line = valid(s);
    let Line { mut tokens, at, shape } = line;
    let single: Vec<(usize, char)> = if shape.2.contains(['s', 'o', 'm']) {
        vec![]
    } else {
        shape.2.chars().enumerate().map(|(i, c)| (at + 1 + i, c)).collect()
    };
    match s.below(5) {
        0 => {
            // unknown opcode
            tokens[at] = s.pick(&["Always", "alway", "alwayss", "ALWAYS", "pass5", "1", "=", "lettér", "nocrosss"]).to_string();
            (tokens, "unknown opcode".into())
        }
        1 if !shape.2.is_empty() && shape.2 != "co" && !shape.2.contains('m') => {
            let keep = s.range(at + 1, tokens.len() - 1);
            tokens.truncate(keep);
            (tokens, "missing operand".into())
        }
        3 if shape.2 == "s" => {
            let chars = shape.0 != "swapdd";
            let one = |s: &mut Src, chars: bool, n: usize| -> String {
                if chars { s.string("abcd", n, n) } else { (0..n).map(|_| any_cells(s)).collect::<Vec<_>>().join(",") }
            };
            let (n, m) = *s.pick(&[(1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (3, 1)]);
            tokens.truncate(at + 2);
            let from = if shape.0 == "swapdd" { ["1", "12", "123"][..n].join(",") } else { one(s, chars, n) };
            let to = one(s, shape.0 == "swapcc", m);
            tokens.extend([from, to]);
            (tokens, format!("{n} to {m} of {}", shape.0))
        }
        2 if shape.1 < 2 => {
            let bad = if shape.1 == 0 { *s.pick(&["nofor", "noback", "nocross"]) } else { "nocross" };
            tokens.drain(..at);
            tokens.insert(0, bad.into());
            (tokens, format!("{bad} is not for {}", shape.0))
        }
        _ if single.iter().any(|(_, o)| "c1TAPQ".contains(*o)) && s.chance(1, 4) => {
            let texts: Vec<_> = single.iter().filter(|(_, o)| "c1TAPQ".contains(*o)).collect();
            let (i, o) = **s.pick(&texts);
            let bad = bad_escape(s);
            tokens[i] = if o == 'T' || o == 'A' { format!("\"{bad}\"") } else { bad.clone() };
            (tokens, format!("bad escape {bad:?} of {}", shape.0))
        }
        _ if !single.is_empty() => {
            let (i, o) = *s.pick(&single);
            let bad: &str = match o {
                'n' => s.pick(&["a-b", "a_b", "é", "a.b", "-", "\\x0041"]),
                'c' => s.pick(BAD_CHARS),
                '1' => s.pick(&["ab", "a\\s", "\\x00411", "\\q", "éa"]),
                'd' | 'b' | '=' | 'g' | 'r' => {
                    let b = *s.pick(BAD_DOTS);
                    if b.trim() != b || b.is_empty() { "x" } else { b }
                }
                '#' => s.pick(&["x", "1x", "one", "1.5", "99999999999"]),
                'p' => s.pick(&["Before", "behind", "0", "1"]),
                'T' => s.pick(BAD_TESTS),
                'A' => s.pick(BAD_ACTS),
                'P' | 'Q' => s.pick(BAD_PATS),
                _ => unreachable!(),
            };
            tokens[i] = bad.to_string();
            (tokens, format!("bad operand {bad:?} of {}", shape.0))
        }
        _ => {
            tokens[at] = "nosuchopcode".into();
            (tokens, "unknown opcode".into())
        }
    }
}

/// Pieces that are likely to matter somewhere.
const NASTY: &[&str] = &[
    "-", "=", "\"", "\"\"", "[]", "[\"\"]", "\"\"*", "*", "?", "**", "@", "@0", "@1-2", "0", "0-0", "1-", "123456789abcdef", "\\", "\\x", "\\x0041",
    "\\xd83d\\xdc02", "\\y1f402", "\\yfffff", "\\s", "\\\\", "#", "#1", "#1=", "#1=1", "#1<2", "#1>=2", "#255=255", "#0-", "#1+", "%a", "%[a]", "%[^]", "%[]",
    "$", "$l", "$l.", "$d1-3", "$d255", "$l0", "$l0-255", "$D9", "$a", "$w", "_", "_1", "_255", "`", "~", "!`", "!~", "![\"a\"]", "!!\"a\"", "[", "]", "!", "(a|b)", "(", "(a)*",
    "(a*)*", "((a?)?)+", "!(a|b)", "!(ab)*", "a|b", ".*", ".+", "^", "$", "!^", "[^a]", "[a-z]", "[\\]]", "before", "after", "nocross", "nofor", "noback",
    "always", "a", "A", "ab", "ß", "İ", "é", "🐂", "\u{301}", "\u{fffd}", "letter", "uppercase", "bold", "vow", "1", "2147483648", "-1", "99999999999999999999",
    "empmatchbefore", "empmatchafter", "%nosuch", "%vow", "%vow.", "%vow2-3", "%swapa", "1,2", "1,2,", ",", "1-2,3",
];

/// A line with any mistakes at all: valid lines with tokens and characters mutated, or tokens at
/// random.
pub fn any(s: &mut Src) -> String {
    let mut tokens = match s.below(8) {
        0 => {
            let n = s.below(5);
            let mut t: Vec<String> = vec![s.pick(SHAPES).0.to_string()];
            t.extend((0..n).map(|_| s.pick(NASTY).to_string()));
            t
        }
        _ => valid(s).tokens,
    };
    for _ in 0..s.weighted(&[3, 4, 2, 1]) {
        if tokens.is_empty() {
            break;
        }
        let i = s.below(tokens.len());
        match s.below(8) {
            0 => {
                tokens.remove(i);
            }
            1 => tokens.insert(i, s.pick(NASTY).to_string()),
            2 => {
                let j = s.below(tokens.len());
                tokens.swap(i, j);
            }
            3 => tokens[i] = s.pick(NASTY).to_string(),
            4 => {
                let n = s.pick(NASTY).to_string();
                tokens[i].push_str(&n);
            }
            5 => {
                let n = s.pick(NASTY).to_string();
                tokens[i] = n + &tokens[i];
            }
            6 => {
                let mut c: Vec<char> = tokens[i].chars().collect();
                if !c.is_empty() {
                    let j = s.below(c.len());
                    match s.below(3) {
                        0 => {
                            c.remove(j);
                        }
                        1 => c[j] = s.scalar(),
                        _ => c.insert(j, s.scalar()),
                    }
                }
                tokens[i] = c.into_iter().collect();
            }
            _ => {
                // nesting and repetition
                let n = s.pick(&[2usize, 8, 40]);
                let (a, b) = *s.pick(&[("(", ")"), ("[", "]"), ("!", ""), ("(", ")*"), ("", "a"), ("", "-1"), ("(", ")?"), ("", "\"a\"")]);
                tokens[i] = format!("{}{}{}", a.repeat(*n), tokens[i], b.repeat(*n));
            }
        }
    }
    tokens.join(" ")
}
