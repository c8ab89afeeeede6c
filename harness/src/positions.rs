//! C12: replay of Positions.tla on the conversions and of EditorText.tla on
//! the language server.

use crate::common::*;
use crate::lsp::{Gates, Server, apply_edits_in, file_uri, result, runtime, settle};
use serde_json::{Value, json};
use std::sync::Arc;
use tombi_text::{EncodingKind, IntoLsp, LineIndex};
use tower_lsp::lsp_types as lsp;

/// The characters that stand for a kind.
fn alternatives(kind: &str) -> &'static [&'static str] {
    match kind {
        "a" => &["a", "z", "_", "0"],
        "2" => &["\u{e9}", "\u{3b1}", "\u{416}"],
        "3" => &["\u{65e5}", "\u{20ac}", "\u{3042}"],
        "em" => &["\u{1f985}", "\u{1f469}", "\u{1f44d}"],
        "cm" => &["\u{301}", "\u{308}"],
        "vs" => &["\u{fe0f}"],
        "sk" => &["\u{1f3fd}", "\u{1f3fb}"],
        "zj" => &["\u{200d}"],
        "ri" => &["\u{1f1ef}", "\u{1f1f5}"],
        "hl" => &["\u{1112}", "\u{1100}"],
        "hv" => &["\u{1161}"],
        "tab" => &["\t"],
        "lf" => &["\n"],
        "crlf" => &["\r\n"],
        other => panic!("unknown kind {other}"),
    }
}

fn text_of(kinds: &[String], rng: &mut Rng) -> String {
    kinds.iter().map(|k| rng.pick(alternatives(k)).to_string()).collect()
}

fn kind_of(enc: &str) -> EncodingKind {
    match enc {
        "utf-8" => EncodingKind::Utf8,
        "utf-16" => EncodingKind::Utf16,
        _ => EncodingKind::Utf32,
    }
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let kinds = strs(&vector["text"]);
    let text = text_of(&kinds, &mut rng);
    let enc = vector["enc"].as_str().unwrap();
    let index = LineIndex::new(&text, kind_of(enc));
    let (to, from) = (vector["to"].as_array().unwrap(), vector["from"].as_array().unwrap());
    if index.len() != to.len() {
        out.fail("lines", format!("{text:?} has {} lines instead of {}", index.len(), to.len()), vector.clone());
        return out;
    }
    for (line, (to, from)) in to.iter().zip(from).enumerate() {
        for (col, want) in to.as_array().unwrap().iter().enumerate() {
            out.evals += 1;
            let position = tombi_text::Position::new(line as u32, col as u32);
            let got = catch(|| -> lsp::Position { position.into_lsp(&index) });
            let want = lsp::Position::new(line as u32, want.as_u64().unwrap() as u32);
            if got.as_ref().ok() != Some(&want) {
                out.fail(
                    format!("to:{enc}"),
                    format!("in {text:?} column {col} of line {line} is told as {got:?} instead of {want:?} in {enc}"),
                    vector.clone(),
                );
            }
        }
        for (ch, want) in from.as_array().unwrap().iter().enumerate() {
            out.evals += 1;
            let position = lsp::Position::new(line as u32, ch as u32);
            let got = catch(|| -> tombi_text::Position { position.into_lsp(&index) });
            let want = tombi_text::Position::new(line as u32, want.as_u64().unwrap() as u32);
            if got.as_ref().ok() != Some(&want) {
                out.fail(
                    format!("from:{enc}"),
                    format!("in {text:?} character {ch} of line {line} ({enc}) is understood as {got:?} instead of {want:?}"),
                    vector.clone(),
                );
            }
        }
    }
    if kinds.iter().any(|k| !["a", "lf", "crlf"].contains(&k.as_str())) {
        out.nontrivial.push(kinds.join(" "));
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"text": text, "encoding": enc, "columns": vector["to"]}));
    }
    out
}

fn units(enc: &str) -> fn(char) -> usize {
    match enc {
        "utf-8" => char::len_utf8,
        "utf-16" => char::len_utf16,
        _ => |_| 1,
    }
}

fn width(text: &str, enc: &str) -> u64 {
    text.chars().map(|c| units(enc)(c) as u64).sum()
}

const BIG: &str = "92233720368547758080";

pub fn editor(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let enc = vector["enc"].as_str().unwrap();
    let lines = vector["lines"].as_array().unwrap();
    let tokens = vector["tokens"].as_array().unwrap();
    let mut text = String::new();
    let mut starts = vec![];
    for (i, l) in lines.iter().enumerate() {
        starts.push(text.len());
        let s = |f: &str| l[f].as_str().unwrap();
        let key = format!("\"{i}{}\"", text_of(&strs(&l["key"]), &mut rng));
        let val = format!("\"{i}{}\"", text_of(&strs(&l["val"]), &mut rng));
        let com = format!("#{}", text_of(&strs(&l["com"]), &mut rng));
        text.push_str(s("lead"));
        match s("kind") {
            "kv" => text.push_str(&format!("{key}{}={}{val}", s("before"), s("after"))),
            "big" => text.push_str(&format!("{key}{}={}{}", s("before"), s("after"), BIG)),
            "kvc" => text.push_str(&format!("{key}{}={}{val}{}{com}", s("before"), s("after"), s("gap"))),
            "comment" => text.push_str(&com),
            "dir" => text.push_str(&format!("# tombi:x{}", &com[1..])),
            "link" => text.push_str(&format!("#:schema ./x{}", &com[1..])),
            "doc" => text.push_str(&format!("#:tombi x{}", &com[1..])),
            "table" => text.push_str(&format!("[{key}]")),
            _ => {}
        }
        let last = i + 1 == lines.len();
        // the last line may be without an end
        if !(last && rng.below(2) == 0) {
            text.push_str(if s("nl") == "lf" { "\n" } else { "\r\n" });
        }
    }
    let line_text = |n: usize| -> &str {
        let rest = &text[starts[n]..];
        rest[..rest.find('\n').unwrap_or(rest.len())].trim_end_matches('\r')
    };
    let dir = ctx.scratch.join(format!("editor-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join("tombi.toml"), "[schema]\nenabled = false\n");
    let uri = file_uri(&dir.join("x.toml"));
    let formatted = crate::layout::format(&text, tombi_config::TomlVersion::default(), &json!({}));
    let (evals, mut bad) = runtime().block_on(async {
        let mut bad: Vec<(String, String)> = vec![];
        let mut evals = 0;
        let gates: Arc<Gates> = Default::default();
        // what the server does not know it passes over
        let offer = match rng.below(3) {
            0 => json!({"positionEncodings": [enc]}),
            1 => json!({"positionEncodings": ["utf-7", enc, "utf-16"]}),
            _ if enc == "utf-16" => json!({}),
            _ => json!({"positionEncodings": [enc, "utf-16"]}),
        };
        let (mut server, answer) = Server::start_with(&dir, true, gates, offer.clone()).await;
        let agreed = answer["capabilities"]["positionEncoding"].as_str().unwrap_or("utf-16").to_string();
        if agreed != enc {
            bad.push(("agreed".into(), format!("the editor offers {offer} and the server answers {agreed}")));
            return (evals, bad);
        }
        let legend: Vec<String> = strs(&answer["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]);
        server.notify("textDocument/didOpen", json!({"textDocument":
            {"uri": uri, "languageId": "toml", "version": 1, "text": text}}));
        settle().await;
        let document = json!({"textDocument": {"uri": uri}});

        // semantic tokens
        evals += 1;
        let pending = server.request("textDocument/semanticTokens/full", document.clone());
        settle().await;
        let got = match pending.is_finished() {
            true => result(pending.await.ok().flatten()),
            false => Err("no answer".into()),
        };
        let mut want: Vec<(u64, u64, u64, String)> = vec![];
        for (n, ts) in tokens.iter().enumerate() {
            for t in ts.as_array().unwrap() {
                let name = match t["what"].as_str().unwrap() {
                    "key" => "key",
                    "eq" | "open" | "close" => "operator",
                    "word" => "keyword",
                    "num" => "number",
                    "val" => "string",
                    "com" => "comment",
                    _ => "table",
                };
                want.push((n as u64, t["at"].as_u64().unwrap(), t["len"].as_u64().unwrap(), name.into()));
            }
        }
        let told: Result<Vec<(u64, u64, u64, String)>, String> = got.map(|v| {
            let data: Vec<u64> = v["data"].as_array().map(|d| d.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
            let (mut line, mut at) = (0u64, 0u64);
            data.chunks(5)
                .map(|c| {
                    at = if c[0] == 0 { at.wrapping_add(c[1]) } else { c[1] };
                    line = line.wrapping_add(c[0]);
                    (line, at, c[2], legend.get(c[3] as usize).cloned().unwrap_or("?".into()))
                })
                .collect()
        });
        if told.as_ref().ok() != Some(&want) {
            bad.push((format!("tokens:{enc}"), format!("the semantic tokens of {text:?} are {told:?} instead of {want:?} in {enc}")));
        }

        // symbols: keys are told with their value's place
        evals += 1;
        let pending = server.request("textDocument/documentSymbol", document.clone());
        settle().await;
        let got = match pending.is_finished() {
            true => result(pending.await.ok().flatten()),
            false => Err("no answer".into()),
        };
        let mut found: Vec<(u64, u64, u64, u64)> = vec![];
        fn walk(v: &Value, found: &mut Vec<(u64, u64, u64, u64)>) {
            for s in v.as_array().into_iter().flatten() {
                let r = &s["range"];
                if s["kind"] == 15 {
                    let n = |p: &str, f: &str| r[p][f].as_u64().unwrap_or(u64::MAX);
                    found.push((n("start", "line"), n("start", "character"), n("end", "line"), n("end", "character")));
                }
                walk(&s["children"], found);
            }
        }
        match &got {
            Ok(v) => {
                walk(v, &mut found);
                found.sort();
                let want: Vec<(u64, Vec<u64>, u64)> = tokens
                    .iter()
                    .enumerate()
                    .filter_map(|(n, ts)| {
                        let ts = ts.as_array().unwrap();
                        let val = ts.iter().find(|t| t["what"] == "val")?;
                        let at = |t: &Value| t["at"].as_u64().unwrap();
                        Some((n as u64, vec![at(&ts[0]), at(val)], at(val) + val["len"].as_u64().unwrap()))
                    })
                    .collect();
                // the key of a value in a table belongs to it
                if found.len() != want.len()
                    || found.iter().zip(&want).any(|(f, w)| f.0 != w.0 || f.2 != w.0 || !w.1.contains(&f.1) || f.3 != w.2)
                {
                    bad.push((format!("symbols:{enc}"), format!("the symbols of {text:?} are at {found:?} instead of {want:?} in {enc}")));
                }
            }
            Err(e) => bad.push((format!("symbols:{enc}"), format!("no symbols of {text:?}: {e}"))),
        }

        // from the editor: pointing at the value's units finds the line's key
        for (n, ts) in tokens.iter().enumerate() {
            // a value that is no value is not told of
            if lines[n]["kind"] == "big" {
                continue;
            }
            for t in ts.as_array().unwrap().iter().filter(|t| t["what"] == "val" || t["what"] == "key") {
                let (at, len) = (t["at"].as_u64().unwrap(), t["len"].as_u64().unwrap());
                let ch = at + rng.below(len as usize) as u64;
                evals += 1;
                let pending = server.request("textDocument/hover", json!({"textDocument": {"uri": uri},
                    "position": {"line": n, "character": ch}}));
                settle().await;
                let got = match pending.is_finished() {
                    true => result(pending.await.ok().flatten()),
                    false => Err("no answer".into()),
                };
                // the comments at it may belong to what is told
                let ends = |line: &Value, from: bool| -> Option<Vec<u64>> {
                    let ts = tokens.get(line.as_u64()? as usize)?.as_array()?;
                    Some(ts.iter().map(|t| t["at"].as_u64().unwrap() + if from { 0 } else { t["len"].as_u64().unwrap() }).collect())
                };
                let told = got.as_ref().ok().and_then(|v| {
                    let (start, end) = (&v["range"]["start"], &v["range"]["end"]);
                    let (first, last) = (ends(&start["line"], true)?, ends(&end["line"], false)?);
                    let this = ts.as_array().unwrap();
                    let value = this[2]["at"].as_u64()? + this[2]["len"].as_u64()?;
                    let (l0, l1) = (start["line"].as_u64()? as usize, end["line"].as_u64()? as usize);
                    let (c0, c1) = (start["character"].as_u64()?, end["character"].as_u64()?);
                    Some(first.contains(&c0) && last.contains(&c1)
                        && (l0 < n || l0 == n && c0 == first[0])
                        && l1 == n && c1 >= value)
                });
                if told != Some(true) {
                    bad.push((format!("hover:{enc}"), format!(
                        "pointing at character {ch} of line {n} of {text:?} ({enc}) tells {got:?} and not of the key-value there")));
                }
            }
        }

        // the link to the schema
        evals += 1;
        let pending = server.request("textDocument/documentLink", document.clone());
        settle().await;
        let got = match pending.is_finished() {
            true => result(pending.await.ok().flatten()),
            false => Err("no answer".into()),
        };
        let found: Result<Vec<Value>, String> =
            got.map(|v| v.as_array().into_iter().flatten().map(|l| l["range"].clone()).collect());
        let want: Vec<Value> = match vector["link"].as_array().map(|l| l.as_slice()) {
            Some([at, len]) => {
                let (at, len) = (at.as_u64().unwrap(), len.as_u64().unwrap());
                vec![json!({"start": {"line": 0, "character": at}, "end": {"line": 0, "character": at + len}})]
            }
            _ => vec![],
        };
        if found.as_ref().ok() != Some(&want) {
            bad.push((format!("link:{enc}"), format!("the links of {text:?} ({enc}) are at {found:?} instead of {want:?}")));
        }

        // what the server complains about
        evals += 1;
        let pending = server.request("textDocument/diagnostic", document.clone());
        settle().await;
        let got = match pending.is_finished() {
            true => result(pending.await.ok().flatten()),
            false => Err("no answer".into()),
        };
        let found: Result<Vec<Value>, String> = got.map(|v| {
            v["items"].as_array().into_iter().flatten().filter(|d| d["message"].as_str().is_some_and(|m| m.contains("nteger") || m.contains("large")))
                .map(|d| d["range"].clone()).collect()
        });
        let want: Vec<Value> = tokens
            .iter()
            .enumerate()
            .flat_map(|(n, ts)| ts.as_array().unwrap().iter().filter(|t| t["what"] == "num").map(move |t| {
                let (at, len) = (t["at"].as_u64().unwrap(), t["len"].as_u64().unwrap());
                json!({"start": {"line": n, "character": at}, "end": {"line": n, "character": at + len}})
            }))
            .collect();
        if found.as_ref().ok() != Some(&want) {
            bad.push((format!("diagnostics:{enc}"), format!("{text:?} ({enc}) has the errors {found:?} instead of {want:?}")));
        }

        // formatting
        evals += 1;
        let mut options = document.clone();
        options["options"] = json!({"tabSize": 2, "insertSpaces": true});
        let pending = server.request("textDocument/formatting", options);
        settle().await;
        let got = match pending.is_finished() {
            true => result(pending.await.ok().flatten()),
            false => Err("no answer".into()),
        };
        match got {
            Ok(edits) => {
                let after = if edits.is_null() { text.clone() } else { apply_edits_in(&text, &edits, units(enc)) };
                let mut outside = None;
                for e in edits.as_array().into_iter().flatten() {
                    for p in ["start", "end"] {
                        let (l, c) = (&e["range"][p]["line"], &e["range"][p]["character"]);
                        let l = l.as_u64().unwrap() as usize;
                        let w = if l < starts.len() { width(line_text(l), enc) } else { 0 };
                        if c.as_u64().unwrap() > w {
                            outside = Some(e.clone());
                        }
                    }
                }
                match &formatted {
                    Ok(want) if *want == after => {}
                    Ok(want) => bad.push((format!("edits:{enc}"), format!(
                        "the edits {edits} applied to {text:?} in {enc} give {after:?} instead of {want:?}"))),
                    Err(e) => bad.push(("edits:unformatted".into(), format!("{text:?} is not formatted: {e}"))),
                }
                if let Some(e) = outside {
                    bad.push((format!("edits-outside:{enc}"), format!("the edit {e} of {text:?} is behind its line's end in {enc}")));
                }
            }
            Err(e) => bad.push((format!("edits:{enc}"), format!("{text:?} is not formatted: {e}"))),
        }
        (evals, bad)
    });
    out.evals += evals;
    for (key, what) in bad.drain(..) {
        out.fail(key, what, vector.clone());
    }
    if tokens.iter().any(|t| t.as_array().unwrap().len() > 1) {
        out.nontrivial.push(text.clone());
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"text": text, "encoding": enc, "tokens": tokens}));
    }
    out
}
