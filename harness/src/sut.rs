//! The code under test.

pub use louis::{Direction, EmphasisSpan, TranslationError, TranslationOptions, Translator};

pub struct T(pub Translator);

/// Why a table was not accepted.
#[derive(Debug, Clone)]
pub struct Rejected {
    /// The reported line numbers, in the reported order; None when the error is not about lines.
    pub lines: Option<Vec<usize>>,
    pub text: String,
}

pub fn build(table: &str, d: Direction) -> Result<T, Rejected> {
    Translator::from_table_source(table, d).map(T).map_err(rejected)
}

pub fn build_files<P: AsRef<std::path::Path>>(paths: &[P], d: Direction) -> Result<T, Rejected> {
    Translator::new(paths, d).map(T).map_err(rejected)
}

fn rejected(e: TranslationError) -> Rejected {
    match e {
        TranslationError::ParseFailed(es) => {
            let lines = es.iter().map(|e| line_of(&format!("{e:?}"))).collect::<Option<Vec<_>>>();
            let text = es.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>().join("; ");
            Rejected { lines, text }
        }
        e => Rejected { lines: None, text: e.to_string() },
    }
}

/// The line in the description of a parse error. The type of these errors is private, their
/// fields are not.
fn line_of(s: &str) -> Option<usize> {
    if !s.starts_with("ParseError") {
        return None;
    }
    let i = s.find("line: ")? + 6;
    let digits: String = s[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().ok()
}

pub fn forward(table: &str) -> Result<T, String> {
    build(table, Direction::Forward).map_err(|e| format!("table rejected: {}\n{table}", e.text))
}
pub fn backward(table: &str) -> Result<T, String> {
    build(table, Direction::Backward).map_err(|e| format!("table rejected: {}\n{table}", e.text))
}

pub type Span = (String, std::ops::Range<usize>);

pub fn options(spans: &[Span]) -> TranslationOptions {
    TranslationOptions::default()
        .with_emphasis(spans.iter().map(|(c, r)| EmphasisSpan::new(c.clone(), r.clone())).collect())
}

impl T {
    pub fn tr(&self, text: &str) -> String {
        self.0.translate(text).expect("translation failed")
    }
    pub fn tr_with(&self, text: &str, o: TranslationOptions) -> String {
        self.0.translate_with_options(text, o).expect("translation failed").output
    }
    pub fn tr_spans(&self, text: &str, spans: &[Span]) -> String {
        if spans.is_empty() { self.tr(text) } else { self.tr_with(text, options(spans)) }
    }
}

#[allow(dead_code)]
#[derive(Debug, Clone, PartialEq)]
pub struct Step {
    pub stage: String,
    pub input: String,
    pub output: String,
    pub has_rule: bool,
}

/// The steps of each stage, None when built without the hook.
#[cfg(louis_verif)]
pub fn trace(t: &T, text: &str, o: &TranslationOptions) -> Option<Vec<Vec<Step>>> {
    Some(
        louis::verif::trace(&t.0, text, o)
            .into_iter()
            .map(|s| {
                s.into_iter()
                    .map(|s| Step { stage: s.stage, input: s.input, output: s.output, has_rule: s.has_rule })
                    .collect()
            })
            .collect(),
    )
}
#[cfg(not(louis_verif))]
pub fn trace(_: &T, _: &str, _: &TranslationOptions) -> Option<Vec<Vec<Step>>> {
    None
}

/// Where tables are looked for by name from now on.
pub fn table_path<P: AsRef<std::path::Path>>(dirs: &[P]) {
    let v: Vec<String> = dirs.iter().map(|d| d.as_ref().to_string_lossy().into_owned()).collect();
    // nothing else runs in this process at the time
    unsafe { std::env::set_var("LOUIS_TABLE_PATH", v.join(":")) };
}
