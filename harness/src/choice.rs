//! C14: replay of SchemaChoice.tla: which schema, version and strictness are
//! in force is found out from what is accepted.

use crate::cli::run;
use crate::common::*;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use tombi_config::TomlVersion;

pub fn put(p: &Path, text: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}

fn set(v: &Value) -> Option<&str> {
    v.as_str().filter(|s| *s != "-")
}

pub fn schema_text(name: &str, ver: Option<&str>) -> String {
    let mut s = json!({"type": "object", "properties": {"p": {"const": name}, "v": {}, "sub": {"type": "object", "additionalProperties": true}}});
    if let Some(ver) = ver {
        s["x-tombi-toml-version"] = json!(ver);
    }
    s.to_string()
}

pub fn entry_text(e: &Value) -> String {
    let mut t = format!("[[schemas]]\npath = \"{}.json\"\ninclude = [{}]\n", e["sch"].as_str().unwrap(), e["inc"]);
    if let Some(x) = set(&e["exc"]) {
        t.push_str(&format!("exclude = [\"{x}\"]\n"));
    }
    if e["root"] != "" {
        t.push_str(&format!("root = {}\n", e["root"]));
    }
    if let Some(x) = set(&e["strict"]) {
        t.push_str(&format!("strict = {x}\n"));
    }
    if let Some(x) = set(&e["ver"]) {
        t.push_str(&format!("toml-version = \"{x}\"\n"));
    }
    t
}

/// What is asked, and the answer: accepted or not.
pub struct Probe {
    pub name: String,
    pub body: String,
    /// the answers that are right
    pub right: Vec<bool>,
}

/// The probes that tell the schemas, the version and the strictness.
pub fn probes(vector: &Value, names: &[String]) -> Vec<Probe> {
    let (root, sub) = (set(&vector["root"]), set(&vector["sub"]));
    let truths = |v: &Value| strs(v).iter().map(|s| s != "true").collect::<Vec<_>>();
    let mut all = vec![];
    for n in names {
        all.push(Probe { name: format!("root:{n}"), body: format!("p = \"{n}\"\n"), right: vec![root.is_none_or(|r| r == n)] });
        all.push(Probe { name: format!("sub:{n}"), body: format!("[sub]\np = \"{n}\"\n"), right: vec![sub.is_none_or(|r| r == n)] });
    }
    if let Some(r) = root {
        all.push(Probe { name: "rootstrict".into(), body: format!("p = \"{r}\"\nq = 1\n"), right: truths(&vector["rootstrict"]) });
    }
    if let Some(r) = sub {
        all.push(Probe { name: "substrict".into(), body: format!("[sub]\np = \"{r}\"\nq = 1\n"), right: truths(&vector["substrict"]) });
    }
    all.push(Probe {
        name: "version".into(),
        body: "v = \"\\e\"\n".into(),
        right: strs(&vector["versions"]).iter().map(|v| v == "v1.1.0").collect(),
    });
    all
}

pub fn directives(doc: &Value, schema_path: impl Fn(&str) -> String) -> String {
    let mut t = String::new();
    if let Some(s) = set(&doc["sch"]) {
        t.push_str(&format!("#:schema {}\n", schema_path(s)));
    }
    if let Some(v) = set(&doc["ver"]) {
        t.push_str(&format!("#:tombi toml-version = \"{v}\"\n"));
    }
    if let Some(s) = set(&doc["strict"]) {
        t.push_str(&format!("#:tombi schema.strict = {s}\n"));
    }
    if !t.is_empty() {
        t.push('\n');
    }
    t
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 0, ..Default::default() };
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let dir: PathBuf = ctx.scratch.join(format!("choice-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&dir);
    let mut names: Vec<String> = vector["xver"].as_object().unwrap().keys().cloned().collect();
    names.sort();
    for n in &names {
        put(&dir.join(format!("{n}.json")), &schema_text(n, set(&vector["xver"][n])));
    }
    let mut conf = String::new();
    let global = &vector["global"];
    if let Some(v) = set(&global["ver"]) {
        conf.push_str(&format!("toml-version = \"{v}\"\n"));
    }
    conf.push_str("[schema]\n");
    for (k, name) in [("enabled", "enabled"), ("strict", "strict")] {
        if let Some(v) = set(&global[k]) {
            conf.push_str(&format!("{name} = {v}\n"));
        }
    }
    let catalog = vector["catalog"].as_array().unwrap();
    // one catalog with every entry, or a catalog for each
    let many = rng.below(2) == 0 && !catalog.is_empty();
    let url = |s: &str| format!("file://{}/{s}.json", dir.display());
    let item = |c: &Value| json!({"name": "n", "description": "d", "fileMatch": [c["inc"]], "url": url(c["sch"].as_str().unwrap())});
    let paths = if many {
        for (i, c) in catalog.iter().enumerate() {
            put(&dir.join(format!("catalog{i}.json")), &json!({"schemas": [item(c)]}).to_string());
        }
        (0..catalog.len()).map(|i| format!("\"catalog{i}.json\"")).collect::<Vec<_>>().join(", ")
    } else {
        put(&dir.join("catalog.json"), &json!({"schemas": catalog.iter().map(item).collect::<Vec<_>>()}).to_string());
        "\"catalog.json\"".into()
    };
    conf.push_str(&format!("catalog = {{ paths = [{paths}] }}\n"));
    for e in vector["entries"].as_array().unwrap() {
        conf.push_str(&entry_text(e));
    }
    let conf_path = dir.join("tombi.toml");
    put(&conf_path, &conf);
    let doc = &vector["doc"];
    let path = dir.join(doc["path"].as_str().unwrap());
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    let up = if path.parent() == Some(&dir) { "./" } else { "../" };
    let absolute = rng.below(3) == 0;
    let head = directives(doc, |s| if absolute { url(s) } else { format!("{up}{s}.json") });

    let config = match serde_tombi::config::from_str(&conf, &conf_path) {
        Ok(c) => c,
        Err(e) => {
            out.fail("harness:config", format!("the configuration is refused: {e}: {conf}"), vector.clone());
            return out;
        }
    };
    let store = tombi_schema_store::SchemaStore::new_with_options_and_http_client(
        tombi_schema_store::Options {
            strict: config.schema.as_ref().and_then(|s| s.strict()),
            offline: Some(true),
            cache: None,
        },
        std::sync::Arc::new(NoNetwork),
    );
    block_on(store.load_config(&config, Some(&conf_path))).unwrap();
    let all = probes(vector, &names);
    let program = rng.below(if ctx.thorough { 8 } else { 16 }) == 0;
    let which = rng.below(all.len());
    out.nontrivial.push(vector.to_string());
    for (i, probe) in all.iter().enumerate() {
        let text = format!("{head}{}", probe.body);
        let story = |by: &str, got: bool| {
            format!("{by} {} at {} [{}] with [{}]", if got { "accepts" } else { "rejects" }, doc["path"].as_str().unwrap(),
                text.replace('\n', " ⏎ "), conf.replace('\n', " ⏎ "))
        };
        put(&path, &text);
        let options = tombi_config::LintOptions::default();
        let got = block_on(
            tombi_linter::Linter::new(config.toml_version.unwrap_or_default(), &options, Some(itertools::Either::Right(&path)), &store)
                .lint(&text),
        );
        let errors: Vec<String> = match &got {
            Ok(()) => vec![],
            Err(ds) => ds.iter().map(|d| d.message().to_string()).collect(),
        };
        out.evals += 1;
        let mut kind = probe.name.split(':').next().unwrap();
        if kind.starts_with("sub") && vector["again"] == true {
            kind = "same-schema-below";
        }
        if !probe.right.contains(&errors.is_empty()) {
            out.fail(format!("choice:{kind}"), format!("{} {}", story("lint", errors.is_empty()), errors.join("; ")), vector.clone());
        }
        if probe.name == "version" {
            let right = probe.right.clone();
            // the formatter: an inline table over several lines stays that way under v1.1.0 only
            let right_lines = right;
            let spread = format!("{head}v = {{\n  a = 1,\n  b = 2,\n}}\n");
            let format_options = tombi_config::FormatOptions::default();
            let r = block_on(
                tombi_formatter::Formatter::new(config.toml_version.unwrap_or_default(), &format_options,
                    Some(itertools::Either::Right(&path)), &store).format(&spread),
            );
            out.evals += 1;
            match r {
                Ok(t) => {
                    let several = !t.contains("{ a");
                    if !right_lines.contains(&several) {
                        out.fail("format:version", format!("formatting [{}] at {} with [{}] gives [{}]", spread.replace('\n', " ⏎ "),
                            doc["path"].as_str().unwrap(), conf.replace('\n', " ⏎ "), t.replace('\n', " ⏎ ")), vector.clone());
                    }
                }
                Err(e) => out.fail("format:refused", format!("{e:?} [{spread}]"), vector.clone()),
            }
            if rng.below(16) == 0 {
                let d = serde_tombi::Deserializer::builder()
                    .config(&config).config_path(conf_path.as_path()).source_path(path.as_path()).build();
                let r: Result<Value, _> = block_on(d.from_str_async(&text));
                out.evals += 1;
                if !probe.right.contains(&r.is_ok()) {
                    out.fail("deserialize:version", story("the deserializer", r.is_ok()), vector.clone());
                }
            }
        }
        if program && i == which {
            crate::select::give(&dir);
            let rel = doc["path"].as_str().unwrap().to_string();
            let o = run(&dir, &["lint".into(), "--offline".into(), "--error-on-warnings".into(), rel], false, None, ctx).expect("cannot run tombi as nobody");
            out.evals += 1;
            if !probe.right.contains(&o.status.success()) {
                out.fail(format!("choice:{kind}"),
                    format!("{}: {}", story("tombi lint", o.status.success()), String::from_utf8_lossy(&o.stderr)), vector.clone());
            }
        }
    }
    let _ = TomlVersion::default();
    if out.violations.is_empty() {
        out.sample = Some(json!({"config": conf, "document": head, "path": doc["path"], "root": vector["root"],
            "sub": vector["sub"], "versions": vector["versions"], "strict": [vector["rootstrict"], vector["substrict"]]}));
    }
    out
}
