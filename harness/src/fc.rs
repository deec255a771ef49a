use clap::Parser;
use filecheck::{Config, Options, Test, TestFailed, expr::Value as FcValue};
use litcheck::diagnostics::{DefaultSourceManager, Diagnostic, FileName, Report, SourceLanguage, SourceManager};
use serde_json::{Value, json};
use std::sync::Arc;

pub fn str_of(v: &Value) -> String {
    v.as_str().map(str::to_string).unwrap_or_default()
}

pub fn run_case(case: &Value) -> Value {
    let check = str_of(&case["check"]);
    let input = str_of(&case["input"]);
    let args: Vec<String> = case["args"]
        .as_array()
        .map(|a| a.iter().map(str_of).collect())
        .unwrap_or_default();
    let mut options = match Options::try_parse_from(args) {
        Ok(o) => o,
        Err(e) => return json!({"verdict": "badargs", "msg": e.to_string()}),
    };
    // What the filecheck command does with them before it starts
    options.comment_prefixes.sort();
    options.comment_prefixes.dedup();
    options.check_prefixes.sort();
    options.check_prefixes.dedup();
    if let Err(e) = options.validate() {
        return json!({"verdict": "badopts", "msg": e.to_string()});
    }
    let config = Config { source_manager: Arc::new(DefaultSourceManager::default()), options };
    let check_file =
        config.source_manager.load(SourceLanguage::Unknown, FileName::from("check.txt"), check.clone());
    let input_file =
        config.source_manager.load(SourceLanguage::Unknown, FileName::from("input.txt"), input.clone());
    // The span of a directive may begin with the blank in front of it, the end of the line before even
    let line_of = |off: usize| {
        let b = check.as_bytes();
        let mut at = off.min(b.len());
        while at < b.len() && b[at].is_ascii_whitespace() {
            at += 1;
        }
        b[..at].iter().filter(|b| **b == b'\n').count() + 1
    };
    match Test::new(check_file, &config).verify(input_file) {
        Ok(matches) => {
            let ms: Vec<Value> = matches
                .iter()
                .map(|m| {
                    let r = m.span.into_slice_index();
                    let p = m.pattern_span.into_slice_index();
                    let caps: Vec<Value> = m
                        .captures
                        .iter()
                        .filter_map(|c| {
                            let name = c.capture.variable_name()?;
                            let cr = c.span.into_slice_index();
                            Some(match &c.value {
                                FcValue::Undef => json!([name.to_string(), "undef", "", cr.start, cr.end]),
                                FcValue::Str(s) => json!([name.to_string(), "str", s, cr.start, cr.end]),
                                FcValue::Num(e) => json!([name.to_string(), "num", e.to_string(), cr.start, cr.end]),
                            })
                        })
                        .collect();
                    json!([line_of(p.start), r.start, r.end, caps])
                })
                .collect();
            json!({"verdict": "ok", "m": ms})
        }
        Err(report) => match report.downcast::<TestFailed>() {
            Ok(failed) => {
                // Rendering is part of what a user gets from a failed check
                let errs: Vec<String> = failed.errors.iter().map(|e| e.to_string()).collect();
                if case["shown"] == true {
                    let mut nodes = vec![];
                    failed.errors.iter().for_each(|e| look(e, &line_of, &mut nodes));
                    let dump = failed.related().and_then(|all| all.skip(failed.errors.len()).next().map(|d| {
                        json!({"text": d.to_string(), "labels": places(d).iter().map(|(_, t, s, e)| json!([t, s, e])).collect::<Vec<_>>()})
                    }));
                    json!({"verdict": "fail", "errs": errs, "nodes": nodes, "dump": dump})
                } else if case["report"] == true {
                    let texts: Vec<String> =
                        failed.errors.into_iter().map(|e| format!("{:?}", Report::new(e))).collect();
                    json!({"verdict": "fail", "errs": errs, "texts": texts})
                } else {
                    let rendered = format!("{:?}", Report::new(failed));
                    json!({"verdict": "fail", "errs": errs, "rendered": rendered.len()})
                }
            }
            Err(report) => {
                let rendered = format!("{report:?}");
                let len = rendered.len();
                let texts = if case["report"] == true { vec![rendered] } else { vec![] };
                json!({"verdict": "error", "msg": report.to_string(), "rendered": len, "texts": texts})
            }
        },
    }
}

pub fn num_case(_case: &Value) -> Value {
    todo!()
}

/// The labels of a diagnostic: the file each is in, its text, start and end
fn places(d: &dyn Diagnostic) -> Vec<(String, String, usize, usize)> {
    let Some(source) = d.source_code() else { return vec![] };
    d.labels()
        .into_iter()
        .flatten()
        .map(|l| {
            let name = source.read_span(l.inner(), 0, 0).ok().and_then(|c| c.name().map(str::to_string)).unwrap_or_default();
            (name, l.label().unwrap_or_default().to_string(), l.offset(), l.offset() + l.len())
        })
        .collect()
}

/// The errors in the order they are shown: the line of the check file each points at, and what is said of the input
fn look(d: &dyn Diagnostic, line_of: &dyn Fn(usize) -> usize, nodes: &mut Vec<Value>) {
    let own = places(d);
    let line = own.iter().find(|p| p.0 == "check.txt").map(|p| line_of(p.2));
    let mut said = vec![];
    for r in d.related().into_iter().flatten() {
        let at = places(r);
        if at.iter().any(|p| p.0 == "check.txt") {
            look(r, line_of, nodes);
        } else {
            let at: Vec<Value> = at.iter().map(|(_, t, s, e)| json!([t, s, e])).collect();
            said.push(json!([r.to_string(), at]));
        }
    }
    nodes.push(json!({"ln": line, "said": said}));
}
