use crate::engine::*;
use crate::model::back::Back;
use crate::model::{Model, Stop, Translated};
use crate::sut::{self, Span};
use crate::table::*;

pub fn show_spans(spans: &[Span]) -> String {
    spans.iter().map(|(c, r)| format!(" {c}[{}..{}]", r.start, r.end)).collect()
}

/// What the model says about each text, where it says something.
pub struct Agreed {
    pub model: Model,
    pub texts: Vec<(String, Vec<Span>, Translated)>,
}

/// The translator and the model agree about the table and about every text.
pub fn agree(ctx: &mut Ctx, rules: &[Rule], texts: &[(String, Vec<Span>)]) -> Result<Option<Agreed>, Fail> {
    let table = render(rules);
    ctx.note(format!("table:\n{table}texts: {texts:?}"));
    let model = match Model::new(rules, None) {
        Ok(m) => m,
        Err(Stop::Discard(why)) => {
            ctx.label(&format!("discarded: {why}"));
            return Ok(None);
        }
        Err(Stop::Reject(why)) => {
            ctx.label("table to be rejected");
            return match sut::build(&table, sut::Direction::Forward) {
                Ok(_) => Err(format!("the table was accepted although: {why}\ntable:\n{table}").into()),
                Err(_) => Ok(None),
            };
        }
    };
    let t = sut::forward(&table)?;
    let mut out = vec![];
    for (text, spans) in texts {
        ctx.eval();
        match model.forward(text, spans) {
            Err(Stop::Discard(why)) => ctx.label(&format!("discarded: {why}")),
            Err(Stop::Reject(why)) => return Err(format!("harness: {why}").into()),
            Ok(tr) => {
                let actual = t.tr_spans(text, spans);
                if actual != tr.output {
                    return Err(mismatch(&table, text, spans, &tr, &model, &actual));
                }
                out.push((text.clone(), spans.clone(), tr));
            }
        }
    }
    Ok(Some(Agreed { model, texts: out }))
}

pub fn mismatch(table: &str, text: &str, spans: &[Span], tr: &Translated, model: &Model, actual: &str) -> Fail {
    let used: Vec<String> =
        tr.used.iter().map(|(r, a, l)| format!("  {}..{}: {}", a, a + l, model.rule(*r))).collect();
    Fail::new(format!(
        "table:\n{table}text: {text:?}{}\nexpected: {}\nactual:   {}\nexpected stages: {:?}\nexpected rules:\n{}\nsigns: {:?}",
        show_spans(spans),
        tr.output,
        actual,
        tr.stages,
        used.join("\n"),
        tr.indications,
    ))
}

/// A fixed example: the table, a text with emphasis, and its translation.
pub fn example(ctx: &mut Ctx, table: &str, text: &str, spans: &[Span], expected: &str) -> Outcome {
    ctx.eval();
    let t = sut::forward(table)?;
    let actual = t.tr_spans(text, spans);
    if actual != expected {
        return Err(format!("table:\n{table}\ntext: {text:?}{}\nexpected: {expected}\nactual:   {actual}", show_spans(spans)).into());
    }
    Ok(())
}

pub fn span(class: &str, r: std::ops::Range<usize>) -> Span {
    (class.to_string(), r)
}

/// A fixed example of which only a sign in the translation is known.
pub fn has_sign(ctx: &mut Ctx, table: &str, text: &str, spans: &[Span], sign: char) -> Outcome {
    ctx.eval();
    let actual = sut::forward(table)?.tr_spans(text, spans);
    if !actual.contains(sign) {
        return Err(format!("table:\n{table}\ntext: {text:?}{}\nno {sign} in {actual}", show_spans(spans)).into());
    }
    Ok(())
}

/// The translator and the model of back-translation agree about the table and about every text.
pub fn agree_back(ctx: &mut Ctx, rules: &[Rule], texts: &[String]) -> Result<Option<(Back, Vec<(String, Translated)>)>, Fail> {
    let table = render(rules);
    ctx.note(format!("table:\n{table}braille: {texts:?}"));
    let model = match Back::new(rules) {
        Ok(m) => m,
        Err(Stop::Discard(why)) => {
            ctx.label(&format!("discarded: {why}"));
            return Ok(None);
        }
        Err(Stop::Reject(why)) => {
            ctx.label("table to be rejected");
            return match sut::build(&table, sut::Direction::Backward) {
                Ok(_) => Err(format!("the table was accepted although: {why}\ntable:\n{table}").into()),
                Err(_) => Ok(None),
            };
        }
    };
    let t = sut::backward(&table)?;
    let mut out = vec![];
    for text in texts {
        ctx.eval();
        match model.backward(text) {
            Err(Stop::Discard(why)) => ctx.label(&format!("discarded: {why}")),
            Err(Stop::Reject(why)) => return Err(format!("harness: {why}").into()),
            Ok(tr) => {
                let actual = t.tr(text);
                if actual != tr.output {
                    let used: Vec<String> =
                        tr.used.iter().map(|(r, a, l)| format!("  {}..{}: {}", a, a + l, model.rule(*r))).collect();
                    return Err(format!(
                        "table:\n{table}braille:  {text}\nexpected: {:?}\nactual:   {actual:?}\nexpected stages: {:?}\nexpected rules:\n{}",
                        tr.output,
                        tr.stages,
                        used.join("\n"),
                    )
                    .into());
                }
                out.push((text.clone(), tr));
            }
        }
    }
    Ok(Some((model, out)))
}

/// A fixed example of back-translation.
pub fn reads(ctx: &mut Ctx, table: &str, braille: &str, expected: &str) -> Outcome {
    ctx.eval();
    let actual = sut::backward(table)?.tr(braille);
    if actual != expected {
        return Err(format!("table:\n{table}\nbraille:  {braille}\nexpected: {expected:?}\nactual:   {actual:?}").into());
    }
    Ok(())
}
