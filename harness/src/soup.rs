//! C03: replay of TokenSoup.tla: every sequence of tokens is written as texts,
//! and each of these, and what is left when it is broken off, is parsed.

use crate::common::*;
use crate::norm::read_document;
use serde_json::{Value, json};
use tombi_config::TomlVersion;

fn token_text(t: &str, next: Option<&str>, i: usize, rng: &mut Rng, newline: usize) -> String {
    let pick = |rng: &mut Rng, l: &[&str]| l[rng.below(l.len())].replace('N', &i.to_string());
    match t {
        "k" => pick(rng, &["kN", "K-N", "_N", "kN-"]),
        "v" => pick(rng, &["20N-01-02", "0xN", "20N-01-02"]).replace("20", if i < 10 { "200" } else { "20" }),
        "s" => pick(rng, &["\"sN\"", "'sN'", "\"é😀N\"", "\"\\tN\\\"\"", "'e\u{301}\\N'", "\"#N\"", "\"[N]={,\""]),
        "t" => pick(rng, &["\"\"\"tN\"\"\"", "'''\nt N\n'''", "\"\"\"\n\"t\" \\\n  N\"\"\"", "'''''N'''", "\"\"\"N\\\"\"\"\"\"", "'''\r\nN # é'''"]),
        "_" => pick(rng, &[" ", " ", "\t", "   "]),
        "n" => match newline {
            0 => "\n".into(),
            1 => "\r\n".into(),
            _ => pick(rng, &["\n", "\r\n"]),
        },
        "c" => pick(rng, &["# N", "#", "# é😀 \"", "#[N] = {", "#\t'''"]),
        // a string that does not end, where nothing can end it
        "x" if next.is_none() => pick(rng, &["\"N", "'N", "\"\"\"N", "'''N", "@"]),
        "x" if next == Some("n") => pick(rng, &["\"N", "'N", "@"]),
        "x" => pick(rng, &["@", "\\", "*", "\u{1}", "é", "\u{7f}", "\"\\qN\"", "\u{200b}", "&&"]),
        other => other.into(),
    }
}

pub fn render(toks: &[String], rng: &mut Rng) -> String {
    let newline = rng.below(6).saturating_sub(3).min(2);
    toks.iter().enumerate().map(|(i, t)| token_text(t, toks.get(i + 1).map(String::as_str), i + 1, rng, newline)).collect()
}

/// What is wrong with the tree of the text.
pub fn tree_faults(text: &str) -> Vec<(String, String)> {
    let mut faults = vec![];
    let root = match catch(|| tombi_parser::parse(text).into_syntax_node()) {
        Ok(r) => r,
        Err(e) => return vec![("parse-panics".into(), e)],
    };
    let mut add = |k: &str, w: String| faults.push((k.to_string(), w));
    if root.text().to_string() != text {
        add("text-lost", format!("the tree is of {:?}", root.text().to_string()));
        return faults;
    }
    let mut at = 0usize;
    let mut place = root.range().start;
    let mut line = 0u32;
    let offset = |o: tombi_text::Offset| u32::from(o) as usize;
    for e in root.descendants_with_tokens() {
        let span = e.span();
        if offset(span.start) > offset(span.end) || offset(span.end) > text.len() {
            add("span-outside", format!("{:?} {span:?}", e.kind()));
            continue;
        }
        match e {
            tombi_rg_tree::NodeOrToken::Token(t) => {
                if offset(span.start) != at {
                    add("token-gap", format!("{:?} at {span:?}, the one before ended at {at}", t.kind()));
                }
                if text.get(offset(span.start)..offset(span.end)) != Some(t.text()) {
                    add("token-text", format!("{:?} {:?} at {span:?}", t.kind(), t.text()));
                }
                if t.range().start != place {
                    add("token-place", format!("{:?} {:?} is at {:?}, the one before ended at {place:?}", t.kind(), t.text(), t.range()));
                }
                if t.range().start.line != line {
                    add("token-line", format!("{:?} {:?} is at line {} instead of {line}", t.kind(), t.text(), t.range().start.line));
                }
                line += t.text().matches('\n').count() as u32;
                at = offset(span.end);
                place = t.range().end;
            }
            tombi_rg_tree::NodeOrToken::Node(n) => {
                let (first, last) = (n.first_token(), n.last_token());
                if n.text().to_string() != text[offset(span.start)..offset(span.end)] {
                    add("node-text", format!("{:?} {:?}", n.kind(), n.text().to_string()));
                }
                if let (Some(first), Some(last)) = (first, last)
                    && (n.range().start != first.range().start || n.range().end != last.range().end)
                {
                    add("node-place", format!("{:?} {:?}", n.kind(), n.range()));
                }
            }
        }
    }
    if at != text.len() {
        add("text-short", format!("the tokens end at {at}"));
    }
    faults
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 0, ..Default::default() };
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let toks = strs(&vector["toks"]);
    let stray = vector["stray"] == true;
    for round in 0..2 {
        let text = if round == 0 && !vector["text"].is_null() {
            vector["text"].as_str().unwrap().to_string()
        } else {
            render(&toks, &mut rng)
        };
        let mut with = vector.clone();
        with["text"] = json!(text);
        out.evals += 1;
        for (k, w) in tree_faults(&text) {
            out.fail(format!("tree:{k}"), format!("{text:?}: {w}"), with.clone());
        }
        for (key, version) in [("v10", TomlVersion::V1_0_0), ("v11", TomlVersion::V1_1_0)] {
            let want = vector[key].as_bool().unwrap();
            match catch(|| read_document(&text, version).map(|_| ())) {
                Err(e) => out.fail("panic:read", format!("{text:?}: {e}"), with.clone()),
                // what only v1.1.0 allows inside braces is read, and left to the linter to refuse
                Ok(got) if got.is_ok() != vector["v11"].as_bool().unwrap() && !stray => out.fail(
                    format!("syntax:{}", if vector["v11"] == true { "refused" } else { "accepted" }),
                    format!("{text:?} under {version}: {:?}", got.err()),
                    with.clone(),
                ),
                _ => {}
            }
            if stray || vector["v10"] != vector["v11"] || rng.below(3) == 0 {
                match catch(|| crate::norm::lint_errors(&text, version)) {
                    Err(e) => out.fail("panic:lint", format!("{text:?}: {e}"), with.clone()),
                    Ok(got) if got.is_empty() != want => out.fail(
                        format!("lint:{}:{key}", if want { "refused" } else { "accepted" }),
                        format!("{text:?} under {version}: {got:?}"),
                        with.clone(),
                    ),
                    _ => {}
                }
                let f = catch(|| {
                    block_on(async {
                        let store = offline_store();
                        let options = tombi_config::FormatOptions::default();
                        tombi_formatter::Formatter::new(version, &options, None, &store).format(&text).await.map_err(|e| format!("{e:?}"))
                    })
                });
                match f {
                    Err(e) => out.fail("panic:format", format!("{text:?}: {e}"), with.clone()),
                    Ok(Err(e)) if want => out.fail(format!("format:refused:{key}"), format!("{text:?} under {version}: {e}"), with.clone()),
                    _ => {}
                }
            }
        }
        // broken off, or with a piece taken out or put in
        let cuts: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
        if !cuts.is_empty() {
            let at = cuts[rng.below(cuts.len())];
            let other = cuts[rng.below(cuts.len())];
            let (a, b) = (at.min(other), at.max(other));
            let noise = ["\r", "\u{301}", "\"\"\"", "'", "[[", "]", "{", "}", ",", "\u{feff}", ".", "=", "\\", "#:", "\0", "-", "+", "T", "Z", ":", "_"];
            for broken in [
                text[..at].to_string(),
                text[at..].to_string(),
                format!("{}{}", &text[..a], &text[b..]),
                format!("{}{}{}", &text[..at], noise[rng.below(noise.len())], &text[at..]),
            ] {
                out.evals += 1;
                for (k, w) in tree_faults(&broken) {
                    out.fail(format!("tree:{k}"), format!("{broken:?}: {w}"), with.clone());
                }
                if let Err(e) = catch(|| {
                    let _ = read_document(&broken, TomlVersion::V1_0_0);
                    if broken.len() % 8 == 0 {
                        crate::norm::lint_errors(&broken, TomlVersion::V1_1_0);
                    }
                }) {
                    out.fail("panic:read", format!("{broken:?}: {e}"), with.clone());
                }
            }
        }
        if round == 0 && vector["v11"] == true {
            out.nontrivial.push(toks.concat());
        }
        if out.violations.is_empty() && round == 0 {
            out.sample = Some(json!({"text": text, "v1.0.0": vector["v10"], "v1.1.0": vector["v11"]}));
        }
    }
    out
}
