//! C03: replay of Nesting.tla: a text of any depth gets its answer, in time.

use crate::common::*;
use crate::norm::read_document;
use serde_json::{Value, json};
use std::time::{Duration, Instant};
use tombi_config::TomlVersion;

fn render(vector: &Value) -> String {
    let parts = vec!["k"; vector["head"]["parts"].as_u64().unwrap() as usize].join(".");
    let mut text = match vector["head"]["kind"].as_str().unwrap() {
        "key" => format!("{parts} = "),
        "table" => format!("[{parts}]\nk = "),
        "late" => format!("a = 1\n[{parts}]\n[{parts}.k]\nk = "),
        _ => format!("[[{parts}]]\nk = "),
    };
    let mut close: Vec<&str> = vec![];
    for run in vector["runs"].as_array().unwrap() {
        let (open, end) = match run["open"].as_str().unwrap() {
            "arr" => ("[", "]"),
            "more" => ("[1, ", "]"),
            "inl" => ("{k = ", "}"),
            "two" => ("{j = 1, k = ", "}"),
            _ => ("{k.k = ", "}"),
        };
        for _ in 0..run["count"].as_u64().unwrap() {
            text.push_str(open);
            close.push(end);
        }
    }
    text.push('1');
    let keep = match vector["state"].as_str().unwrap() {
        "closed" => close.len(),
        "short" => close.len() - 1,
        _ => 0,
    };
    text.extend(close.iter().rev().take(keep).copied());
    text.push('\n');
    text
}

/// Answer, or the time is over. A thread that does not answer is left behind.
fn in_time<T: Send + 'static>(limit: Duration, f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let _ = tx.send(catch(f));
        })
        .unwrap();
    match rx.recv_timeout(limit) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("panic: {e}")),
        Err(_) => Err("no answer".into()),
    }
}

pub fn check(vector: &Value, _ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 0, ..Default::default() };
    let text = render(vector);
    let answer = vector["answer"].as_str().unwrap();
    let limit = Duration::from_secs(60);
    let shown: String = text.chars().take(120).collect();
    let started = Instant::now();
    for version in [TomlVersion::V1_0_0, TomlVersion::V1_1_0] {
        let mut verdicts: Vec<(&str, Result<bool, String>)> = vec![];
        let t = text.clone();
        verdicts.push(("read", in_time(limit, move || read_document(&t, version).is_ok())));
        let t = text.clone();
        verdicts.push(("lint", in_time(limit, move || crate::norm::lint_errors(&t, version).is_empty())));
        // how deep a formatter may be asked in a build without optimisation
        let depth: u64 = vector["runs"].as_array().unwrap().iter().map(|r| r["count"].as_u64().unwrap()).sum();
        if !(40..=130).contains(&depth) {
            let t = text.clone();
            verdicts.push((
                "format",
                in_time(limit, move || {
                    block_on(async {
                        let store = offline_store();
                        let options = tombi_config::FormatOptions::default();
                        tombi_formatter::Formatter::new(version, &options, None, &store).format(&t).await.is_ok()
                    })
                }),
            ));
        }
        for (what, verdict) in verdicts {
            out.evals += 1;
            match verdict {
                Err(e) => out.fail(format!("deep:{what}:{}", if e == "no answer" { "slow" } else { "panic" }), format!("{shown:?} under {version}: {e}"), vector.clone()),
                Ok(ok) if answer != "any" && ok != (answer == "read") => {
                    out.fail(format!("deep:{what}:{}", if ok { "accepted" } else { "refused" }), format!("{shown:?} under {version}"), vector.clone())
                }
                _ => {}
            }
        }
        if !out.violations.is_empty() {
            break;
        }
    }
    out.nontrivial.push(format!("{}", vector["runs"]));
    if out.violations.is_empty() {
        out.sample = Some(json!({"text": shown, "bytes": text.len(), "answer": answer, "seconds": started.elapsed().as_secs_f32()}));
    }
    out
}
