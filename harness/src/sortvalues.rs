//! C07: replay of SortValues.tla.

use crate::common::*;
use crate::sortkeys::{Formatting, directive, trimmed};
use serde_json::{Value, json};
use tombi_config::TomlVersion;

fn order_json(how: &Value) -> String {
    let parts = how["sch"].as_array().unwrap();
    let table = |by: bool| {
        format!("{{\"type\": \"object\", \"properties\": {{\"name\": {{}}, \"id\": {{}}}}{}}}", if by { ", \"x-tombi-array-values-order-by\": \"name\"" } else { "" })
    };
    let by = how["by"] == true;
    match parts.first() {
        Some(p) if p[0] != "all" => {
            let of = |t: &str| match t {
                "table" => table(by),
                "date" => "{\"type\": \"string\", \"format\": \"date\"}".into(),
                t => format!("{{\"type\": \"{t}\"}}"),
            };
            let schemas: Vec<String> = parts.iter().map(|p| of(p[0].as_str().unwrap())).collect();
            let orders: Vec<String> = parts.iter().map(|p| p[1].to_string()).collect();
            let kind = if schemas.len() % 2 == 0 { "oneOf" } else { "anyOf" };
            format!(", \"items\": {{\"{kind}\": [{}]}}, \"x-tombi-array-values-order\": {{\"{kind}\": [{}]}}", schemas.join(", "), orders.join(", "))
        }
        p => {
            let items = if by { format!(", \"items\": {}", table(true)) } else { String::new() };
            let order = p.map(|p| format!(", \"x-tombi-array-values-order\": {}", p[1])).unwrap_or_default();
            format!("{items}{order}")
        }
    }
}

/// The values, comments and boundaries of the array in a text, in order.
fn marks(text: &str) -> Vec<String> {
    let start = text.find("t = [").map(|i| i + 5).unwrap_or(0);
    let c: Vec<char> = text[start..].chars().collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < c.len() && c[i] != ']' {
        match c[i] {
            '\n' => {
                let mut j = i + 1;
                while j < c.len() && matches!(c[j], ' ' | '\t' | '\r') {
                    j += 1;
                }
                if j < c.len() && c[j] == '\n' && out.last().is_none_or(|l| l != "|") {
                    out.push("|".into());
                }
                i += 1;
            }
            '#' => {
                let mut j = i;
                while j < c.len() && c[j] != '\n' {
                    j += 1;
                }
                let comment: String = c[i + 1..j].iter().collect();
                if !comment.contains("tombi:") {
                    out.push(comment.trim().to_string());
                }
                i = j;
            }
            '{' | '[' => {
                let (mut depth, mut j) = (0, i);
                loop {
                    match c.get(j) {
                        Some('{' | '[') => depth += 1,
                        Some('}' | ']') => depth -= 1,
                        None => depth = 0,
                        _ => {}
                    }
                    j += 1;
                    if depth == 0 {
                        break;
                    }
                }
                let whole: String = c[i..j.min(c.len())].iter().collect();
                out.push(whole.split_whitespace().collect::<Vec<_>>().join(" "));
                i = j;
            }
            x if x.is_whitespace() || x == ',' => i += 1,
            _ => {
                let mut j = i;
                while j < c.len() && !c[j].is_whitespace() && !matches!(c[j], ',' | ']' | '#') {
                    j += 1;
                }
                out.push(c[i..j].iter().collect());
                i = j;
            }
        }
    }
    trimmed(out)
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 0, ..Default::default() };
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let how = &vector["how"];
    let dir = ctx.scratch.join(format!("sort-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let mut conf = "[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n".to_string();
    if how["rules"] != "-" {
        conf.push_str(&format!("format.rules.array-values-order.enabled = {}\n", how["rules"].as_str().unwrap()));
    }
    if how["over"] != "-" {
        let value = match how["over"].as_str().unwrap() {
            "disabled" => "{ enabled = false }".to_string(),
            "enabled" => "{ enabled = true }".into(),
            o => format!("\"{o}\""),
        };
        conf.push_str(&format!("[[schemas.overrides]]\ntargets = [\"t\"]\nformat.rules.array-values-order = {value}\n"));
    }
    let schema = format!("{{\"type\": \"object\", \"properties\": {{\"t\": {{\"type\": \"array\"{}}}}}}}", order_json(how));
    let formatting = match Formatting::new(&dir, &schema, &conf) {
        Ok(f) => f,
        Err(e) => {
            out.fail("harness:config", e, vector.clone());
            return out;
        }
    };
    let version = if rng.below(2) == 0 { TomlVersion::V1_1_0 } else { TomlVersion::V1_0_0 };
    let comments = rng.below(3) > 0;
    let items = vector["items"].as_array().unwrap();
    let n = items.len();
    let values: Vec<String> = items.iter().enumerate().map(|(i, item)| {
        let (kind, v) = item["val"].as_str().unwrap().split_once(':').unwrap();
        match kind {
            "s" => format!("\"{v}\""),
            "t" => if rng.below(2) == 0 { format!("{{ name = \"{v}\", id = {i} }}") } else { format!("{{ id = {i}, name = \"{v}\" }}") },
            "x" => format!("{{ id = {i} }}"),
            "a" => format!("[{i}]"),
            _ => v.to_string(),
        }
    }).collect();
    let group = |i: usize| items[i]["group"].as_u64().unwrap() as usize;
    let leads: Vec<usize> = (0..n).map(|_| if comments { rng.below(3) } else { 0 }).collect();
    let trails: Vec<bool> = (0..n).map(|_| comments && rng.below(2) == 0).collect();
    let breaks: Vec<bool> = (0..8).map(|_| rng.below(2) == 0).collect();
    let dirt = directive("array-values-order", how["dir"].as_str().unwrap());
    let spread = comments || group(n - 1) > 1 || rng.below(2) == 0;
    let last_comma = spread && rng.below(2) == 0;
    let late_comma = rng.below(4) == 0;
    let place = if spread { rng.below(3) } else { 0 };
    let mut text = String::new();
    match place {
        0 if !dirt.is_empty() => text.push_str(&format!("{dirt}\nt = [")),
        2 if !dirt.is_empty() => text.push_str(&format!("t = [\n  {dirt}\n\n")),
        _ => text.push_str("t = ["),
    }
    if spread && !text.ends_with('\n') {
        text.push('\n');
    }
    for i in 0..n {
        if i > 0 && group(i) != group(i - 1) {
            text.push('\n');
            if breaks[group(i)] {
                text.push_str(&format!("  # D{}\n\n", group(i)));
            }
        }
        for k in 0..leads[i] {
            text.push_str(&format!("  # L{i}{k}\n"));
        }
        let comma = if i + 1 < n || last_comma { "," } else { "" };
        let trail = if trails[i] { format!(" # T{i}") } else { String::new() };
        text.push_str(&if !spread {
            format!("{}{comma} ", values[i])
        } else if late_comma && trails[i] && !comma.is_empty() {
            format!("  {}{trail}\n  {comma}\n", values[i])
        } else {
            format!("  {}{comma}{trail}\n", values[i])
        });
    }
    text.push(']');
    if place == 1 && !dirt.is_empty() {
        text.push_str(&format!(" {dirt}"));
    }
    text.push('\n');
    let right: Vec<usize> = vector["right"].as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize - 1).collect();
    let mut want: Vec<String> = vec![];
    for (at, &i) in right.iter().enumerate() {
        if at > 0 && group(i) != group(right[at - 1]) {
            want.push("|".into());
            if breaks[group(i)] {
                want.push(format!("D{}", group(i)));
                want.push("|".into());
            }
        }
        want.extend((0..leads[i]).map(|k| format!("L{i}{k}")));
        want.push(values[i].clone());
        if trails[i] {
            want.push(format!("T{i}"));
        }
    }
    out.evals += 1;
    let story = |t: &str| format!("[{}] under {version} with [{}] {schema}: {t}", text.replace('\n', " ⏎ "), conf.replace('\n', " ⏎ "));
    let once = match formatting.format(&text, version) {
        Ok(t) => t,
        Err(e) => {
            out.fail(format!("values:{}", if e.starts_with("panic") { "panic" } else { "refused" }), story(&e), vector.clone());
            return out;
        }
    };
    let got = marks(&once);
    if got != want {
        let (mut a, mut b) = (got.clone(), want.clone());
        a.sort();
        b.sort();
        let kind = if a != b { "lost" } else { "order" };
        out.fail(format!("values:{kind}"), story(&format!("gives {got:?} instead of {want:?}: [{}]", once.replace('\n', " ⏎ "))), vector.clone());
        return out;
    }
    match formatting.format(&once, version) {
        Ok(twice) if twice == once => {}
        r => out.fail("values:twice", story(&format!("[{}] then {r:?}", once.replace('\n', " ⏎ "))), vector.clone()),
    }
    if right.windows(2).any(|w| w[0] > w[1]) {
        out.nontrivial.push(vector.to_string());
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"text": text, "formatted": once}));
    }
    out
}
