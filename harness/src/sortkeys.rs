//! C07: replay of SortKeys.tla and SortValues.tla: documents are formatted, and what comes
//! out is read back as the sequence of its items, comments and group boundaries.

use crate::common::*;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use tombi_config::TomlVersion;

const PROPS: [&str; 6] = ["z", "k10", "B", "k9", "j10", "j9"];

fn order_json(order: &Value, key: &str) -> String {
    let parts = order.as_array().unwrap();
    match parts.first() {
        None => String::new(),
        Some(p) if p[0] == "all" => format!(", \"{key}\": {}", p[1]),
        _ => {
            let groups: Vec<String> = parts.iter().map(|p| format!("{}: {}", p[0], p[1])).collect();
            format!(", \"{key}\": {{{}}}", groups.join(", "))
        }
    }
}

fn schema_text(how: &Value) -> String {
    let props = |of: &str| PROPS.iter().map(|p| format!("\"{p}\": {of}")).collect::<Vec<_>>().join(", ");
    let sub = format!("{{\"type\": \"object\", \"properties\": {{{}}}{}}}", props("{}"), order_json(&how["sub"], "x-tombi-table-keys-order"));
    let reference = "{\"$ref\": \"#/definitions/sub\"}";
    let table = format!(
        "\"type\": \"object\", \"properties\": {{{}}}, \"patternProperties\": {{\"^p\": {reference}}}, \"additionalProperties\": {reference}{}",
        props(reference),
        order_json(&how["sch"], "x-tombi-table-keys-order")
    );
    if matches!(how["site"].as_str(), Some("root" | "headers")) {
        format!("{{{table}, \"definitions\": {{\"sub\": {sub}}}}}")
    } else {
        format!("{{\"type\": \"object\", \"properties\": {{\"t\": {{{table}}}}}, \"definitions\": {{\"sub\": {sub}}}}}")
    }
}

pub fn directive(rule: &str, order: &str) -> String {
    match order {
        "-" => String::new(),
        "disabled" => format!("# tombi: format.rules.{rule}.disabled = true"),
        o => format!("# tombi: format.rules.{rule} = \"{o}\""),
    }
}

/// The items, comments and boundaries ("|") of a text, in order.
pub fn marks(text: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() {
            if out.last().is_none_or(|l| l != "|") {
                out.push("|".into());
            }
            continue;
        }
        if line.starts_with("# tombi:") || line.starts_with("#:") {
            continue;
        }
        // words of a capital letter of ours and a number
        let bytes: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < bytes.len() {
            let begins = matches!(bytes[i], 'L' | 'T' | 'V' | 'D') && (i == 0 || !bytes[i - 1].is_alphanumeric() && bytes[i - 1] != '-');
            let mut j = i + 1;
            while begins && j < bytes.len() && bytes[j].is_ascii_digit() {
                j += 1;
            }
            if begins && j > i + 1 && (j == bytes.len() || !bytes[j].is_alphanumeric()) {
                out.push(bytes[i..j].iter().collect());
            }
            i = j.max(i + 1);
        }
    }
    out
}

pub fn trimmed(mut m: Vec<String>) -> Vec<String> {
    while m.first().is_some_and(|x| x == "|") {
        m.remove(0);
    }
    while m.last().is_some_and(|x| x == "|") {
        m.pop();
    }
    m
}

pub struct Formatting {
    store: tombi_schema_store::SchemaStore,
    path: PathBuf,
}

impl Formatting {
    pub fn new(dir: &Path, schema: &str, conf: &str) -> Result<Self, String> {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(dir.join("s.json"), schema).unwrap();
        let conf_path = dir.join("tombi.toml");
        std::fs::write(&conf_path, conf).unwrap();
        let config = serde_tombi::config::from_str(conf, &conf_path).map_err(|e| format!("{e}: {conf}"))?;
        let store = tombi_schema_store::SchemaStore::new_with_options_and_http_client(
            tombi_schema_store::Options { strict: None, offline: Some(true), cache: None },
            std::sync::Arc::new(NoNetwork),
        );
        block_on(store.load_config(&config, Some(&conf_path))).map_err(|e| e.to_string())?;
        Ok(Self { store, path: dir.join("x.toml") })
    }

    pub fn format(&self, text: &str, version: TomlVersion) -> Result<String, String> {
        let options = tombi_config::FormatOptions::default();
        match catch(|| {
            block_on(
                tombi_formatter::Formatter::new(version, &options, Some(itertools::Either::Right(&self.path)), &self.store).format(text),
            )
        }) {
            Ok(Ok(t)) => Ok(t),
            Ok(Err(e)) => Err(format!("refused: {:?}", e.iter().map(|d| d.message().to_string()).collect::<Vec<_>>())),
            Err(e) => Err(format!("panic: {e}")),
        }
    }
}

struct Item {
    key: String,
    group: u64,
    own: String,
    lead: usize,
    trail: bool,
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 0, ..Default::default() };
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let how = &vector["how"];
    let site = how["site"].as_str().unwrap();
    let dir = ctx.scratch.join(format!("sort-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let mut conf = "[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n".to_string();
    if how["rules"] != "-" {
        conf.push_str(&format!("format.rules.table-keys-order.enabled = {}\n", how["rules"].as_str().unwrap()));
    }
    if how["over"] != "-" {
        let target = if matches!(site, "root" | "headers") { "" } else { "t" };
        let value = match how["over"].as_str().unwrap() {
            "disabled" => "{ enabled = false }".to_string(),
            "enabled" => "{ enabled = true }".into(),
            o => format!("\"{o}\""),
        };
        conf.push_str(&format!("[[schemas.overrides]]\ntargets = [\"{target}\"]\nformat.rules.table-keys-order = {value}\n"));
    }
    let formatting = match Formatting::new(&dir, &schema_text(how), &conf) {
        Ok(f) => f,
        Err(e) => {
            out.fail("harness:config", e, vector.clone());
            return out;
        }
    };
    let version = if site == "inline" || rng.below(2) == 0 { TomlVersion::V1_1_0 } else { TomlVersion::V1_0_0 };
    let comments = rng.below(3) > 0;
    let items: Vec<Item> = vector["items"].as_array().unwrap().iter().map(|i| {
        let path = strs(&i["path"]);
        Item {
            key: path.iter().map(|p| match rng.below(4) {
                0 => format!("\"{p}\""),
                1 => format!("'{p}'"),
                _ => p.clone(),
            }).collect::<Vec<_>>().join(*rng.pick(&[".", ".", " . "])),
            group: i["group"].as_u64().unwrap(),
            own: i["own"].as_str().unwrap().to_string(),
            lead: if comments && i["own"] == "-" { rng.below(3) } else { 0 },
            trail: comments && rng.below(2) == 0,
        }
    }).collect();
    let dirt = directive("table-keys-order", how["dir"].as_str().unwrap());
    // what stands between two groups
    let breaks: Vec<bool> = (0..4).map(|_| rng.below(2) == 0).collect();
    let spread = site != "inline" || items.iter().any(|i| i.lead > 0 || i.trail || i.group > 1) || rng.below(2) == 0;
    let place = rng.below(3);
    let mut text = String::new();
    let indent = match site {
        "root" => {
            if !dirt.is_empty() {
                text.push_str(&format!("{dirt}\n\n"));
            }
            ""
        }
        "headers" => {
            if !dirt.is_empty() {
                text.push_str(&format!("{dirt}\n\n"));
            }
            ""
        }
        "table" => {
            match place {
                _ if dirt.is_empty() => text.push_str("[t]\n"),
                0 => text.push_str(&format!("{dirt}\n[t]\n")),
                1 => text.push_str(&format!("[t] {dirt}\n")),
                _ => text.push_str(&format!("[t]\n{dirt}\n\n")),
            }
            ""
        }
        _ => {
            match place {
                _ if dirt.is_empty() => text.push_str("t = {"),
                1 if spread => text.push_str("t = {"),
                2 if spread => text.push_str(&format!("t = {{\n  {dirt}\n")),
                _ => text.push_str(&format!("{dirt}\nt = {{")),
            }
            if spread { text.push('\n') } else { text.push(' ') }
            "  "
        }
    };
    let last_comma = rng.below(2) == 0;
    let early_comment = rng.below(4) == 0;
    for (n, item) in items.iter().enumerate() {
        let id = n + 1;
        if n > 0 && item.group != items[n - 1].group {
            text.push('\n');
            if breaks[item.group as usize] {
                text.push_str(&format!("{indent}# D{}\n\n", item.group));
            }
        }
        for k in 0..item.lead {
            text.push_str(&format!("{indent}# L{id}{k}\n"));
        }
        let trail = if item.trail { format!(" # T{id}") } else { String::new() };
        match site {
            "headers" => {
                let own = directive("table-keys-order", &item.own);
                if !own.is_empty() {
                    text.push_str(&format!("{own}\n"));
                }
                text.push_str(&format!("[{}]{trail}\nval = \"V{id}\"\n", item.key));
                if rng.below(2) == 0 {
                    text.push('\n');
                }
            }
            "inline" => {
                let more = n + 1 < items.len() || last_comma && spread;
                let comma = if more { "," } else { "" };
                let line = if early_comment && more && item.trail {
                    format!("{} = \"V{id}\"{trail}\n{indent}{comma}", item.key)
                } else {
                    format!("{} = \"V{id}\"{comma}{trail}", item.key)
                };
                text.push_str(&if spread { format!("{indent}{line}\n") } else { format!("{line} ") });
            }
            _ => text.push_str(&format!("{} = \"V{id}\"{trail}\n", item.key)),
        }
    }
    if site == "inline" {
        text.push('}');
        if place == 1 && spread && !dirt.is_empty() {
            text.push_str(&format!(" {dirt}"));
        }
        text.push('\n');
    }
    let mut want: Vec<String> = vec![];
    let right: Vec<usize> = vector["right"].as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize).collect();
    for (n, id) in right.iter().enumerate() {
        let item = &items[id - 1];
        if n > 0 && item.group != items[right[n - 1] - 1].group {
            want.push("|".into());
            if breaks[item.group as usize] {
                want.push(format!("D{}", item.group));
                want.push("|".into());
            }
        }
        want.extend((0..item.lead).map(|k| format!("L{id}{k}")));
        let (v, t) = (format!("V{id}"), item.trail.then(|| format!("T{id}")));
        if site == "headers" {
            want.extend(t);
            want.push(v);
        } else {
            want.push(v);
            want.extend(t);
        }
    }
    let changed = right.windows(2).any(|w| w[0] > w[1]);
    verdict(&mut out, vector, site, &formatting, &text, version, want, site == "headers", changed, || conf.clone() + &schema_text(how));
    out
}

#[allow(clippy::too_many_arguments)]
pub fn verdict(
    out: &mut Outcome, vector: &Value, site: &str, formatting: &Formatting, text: &str, version: TomlVersion, want: Vec<String>,
    no_boundaries: bool, changed: bool, context: impl Fn() -> String,
) {
    out.evals += 1;
    let story = |t: &str| format!("[{}] under {version} with [{}]: {t}", text.replace('\n', " ⏎ "), context().replace('\n', " ⏎ "));
    let once = match formatting.format(text, version) {
        Ok(t) => t,
        Err(e) => {
            out.fail(format!("sort:{site}:{}", if e.starts_with("panic") { "panic" } else { "refused" }), story(&e), vector.clone());
            return;
        }
    };
    let mut got = trimmed(marks(&once));
    if no_boundaries {
        got.retain(|m| m != "|");
    }
    if got != want {
        let (mut a, mut b) = (got.clone(), want.clone());
        a.sort();
        b.sort();
        let kind = if a != b { "lost" } else { "order" };
        out.fail(format!("sort:{site}:{kind}"), story(&format!("gives {got:?} instead of {want:?}: [{}]", once.replace('\n', " ⏎ "))), vector.clone());
        return;
    }
    match formatting.format(&once, version) {
        Ok(twice) if twice == once => {}
        Ok(twice) => out.fail(format!("sort:{site}:twice"), story(&format!("[{}] then [{}]", once.replace('\n', " ⏎ "), twice.replace('\n', " ⏎ "))), vector.clone()),
        Err(e) => out.fail(format!("sort:{site}:twice"), story(&format!("[{}] then {e}", once.replace('\n', " ⏎ "))), vector.clone()),
    }
    if changed {
        out.nontrivial.push(vector.to_string());
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"text": text, "formatted": once}));
    }
}
