//! C01: replay of TomlStructure.tla.

use crate::common::*;
use crate::norm;
use serde_json::{Value, json};
use std::collections::BTreeSet;
use tombi_toml_version::TomlVersion;

/// How a document is spelled; the verdict must not depend on it.
#[derive(Clone, Copy)]
struct Style {
    key: u8,      // 0 bare, 1 basic, 2 literal, 3 basic with an escape, 4 mixed
    spaces: bool, // blanks around dots, brackets and equals signs
    crlf: bool,
    noise: bool, // comments and blank lines between the lines
}

const STYLES: [Style; 5] = [
    Style { key: 0, spaces: false, crlf: false, noise: false },
    Style { key: 1, spaces: true, crlf: false, noise: true },
    Style { key: 2, spaces: false, crlf: true, noise: false },
    Style { key: 3, spaces: true, crlf: true, noise: true },
    Style { key: 4, spaces: false, crlf: false, noise: true },
];

struct Writer {
    style: Style,
    n: usize,
    n_keys: usize,
}

impl Writer {
    fn key(&mut self, k: &str) -> String {
        self.n_keys += 1;
        let form = if self.style.key == 4 { (self.n_keys % 4) as u8 } else { self.style.key };
        match form {
            0 => k.to_string(),
            1 => format!("\"{k}\""),
            2 => format!("'{k}'"),
            _ => format!("\"\\u{:04x}{}\"", k.chars().next().unwrap() as u32, &k[1..]),
        }
    }
    fn path(&mut self, ks: &Value) -> String {
        let sep = if self.style.spaces { " . " } else { "." };
        strs(ks).iter().map(|k| self.key(k)).collect::<Vec<_>>().join(sep)
    }
    fn value(&mut self, v: &Value) -> String {
        match v["t"].as_str().unwrap() {
            "s" => self.n.to_string(),
            "i" => {
                let es: Vec<String> = v["es"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| {
                        let k = self.path(&e["k"]);
                        let val = self.value(&e["v"]);
                        if self.style.spaces { format!("{k} = {val}") } else { format!("{k}={val}") }
                    })
                    .collect();
                if self.style.spaces {
                    format!("{{ {} }}", es.join(" , "))
                } else {
                    format!("{{{}}}", es.join(","))
                }
            }
            _ => {
                let vs: Vec<String> =
                    v["vs"].as_array().unwrap().iter().map(|x| self.value(x)).collect();
                if self.style.noise {
                    let nl = if self.style.crlf { "\r\n" } else { "\n" };
                    format!("[ # c{nl}{}{nl}]", vs.iter().map(|x| format!("{x},{nl}")).collect::<String>())
                } else {
                    format!("[{}]", vs.join(","))
                }
            }
        }
    }
    fn document(&mut self, ops: &[Value]) -> String {
        let nl = if self.style.crlf { "\r\n" } else { "\n" };
        let mut out = String::new();
        for (i, op) in ops.iter().enumerate() {
            self.n = i + 1;
            let p = self.path(&op["k"]);
            let line = match op["op"].as_str().unwrap() {
                "h" if self.style.spaces => format!("[ {p} ]"),
                "h" => format!("[{p}]"),
                "a" if self.style.spaces => format!("[[ {p} ]]"),
                "a" => format!("[[{p}]]"),
                _ => {
                    let v = self.value(&op["v"]);
                    if self.style.spaces { format!("{p} = {v}") } else { format!("{p}={v}") }
                }
            };
            if self.style.noise {
                out.push_str(&format!("# line {i}{nl}{nl}"));
            }
            out.push_str(&line);
            if self.style.noise && i % 2 == 0 {
                out.push_str(" # end");
            }
            out.push_str(nl);
        }
        out
    }
}

fn flatten(v: &Value, path: &mut Vec<String>, out: &mut BTreeSet<String>) {
    match v[0].as_str().unwrap() {
        "tab" => {
            out.insert(format!("{}=T", path.join("/")));
            for (k, x) in v[1].as_object().unwrap() {
                path.push(k.clone());
                flatten(x, path, out);
                path.pop();
            }
        }
        "arr" => {
            out.insert(format!("{}=A", path.join("/")));
            for (i, x) in v[1].as_array().unwrap().iter().enumerate() {
                path.push(format!("#{i}"));
                flatten(x, path, out);
                path.pop();
            }
        }
        "int" => {
            out.insert(format!("{}=v{}", path.join("/"), v[1].as_str().unwrap()));
        }
        other => {
            out.insert(format!("{}={other}", path.join("/")));
        }
    }
}

fn shape(ops: &[Value]) -> String {
    fn val(v: &Value) -> String {
        match v["t"].as_str().unwrap_or("") {
            "s" => "1".into(),
            "i" => format!(
                "{{{}}}",
                v["es"].as_array().unwrap().iter()
                    .map(|e| format!("{}={}", strs(&e["k"]).join("."), val(&e["v"])))
                    .collect::<Vec<_>>().join(",")
            ),
            _ => format!("[{}]", v["vs"].as_array().unwrap().iter().map(val).collect::<Vec<_>>().join(",")),
        }
    }
    ops.iter()
        .map(|o| {
            let k = strs(&o["k"]).join(".");
            match o["op"].as_str().unwrap() {
                "h" => format!("[{k}]"),
                "a" => format!("[[{k}]]"),
                _ => format!("{k}={}", val(&o["v"])),
            }
        })
        .collect::<Vec<_>>()
        .join(" ; ")
}

pub fn check(v: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let ops = v["ops"].as_array().unwrap();
    let st = v["st"].as_str().unwrap();
    out.count(&format!("verdict_{st}"));
    if st == "amb" {
        // unspecified: only totality is required
        let text = Writer { style: STYLES[0], n: 0, n_keys: 0 }.document(ops);
        let _ = norm::read_document(&text, TomlVersion::V1_0_0);
        out.evals += 1;
        return out;
    }
    let sh = shape(ops);
    let expected: BTreeSet<String> = v["tree"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| format!("{}={}", strs(&e[0]).join("/"), e[1].as_str().unwrap()))
        .collect();
    let pick = Rng::new(ctx.seed, &sh).below(4) + 1;
    let styles: Vec<usize> = if ctx.thorough { (0..STYLES.len()).collect() } else { vec![0, pick] };
    for si in styles {
        let text = Writer { style: STYLES[si], n: 0, n_keys: 0 }.document(ops);
        for version in [TomlVersion::V1_0_0, TomlVersion::V1_1_0] {
            out.evals += 1;
            match norm::read_document(&text, version) {
                Ok(doc) => {
                    let mut got = BTreeSet::new();
                    flatten(&norm::typed_document(&doc), &mut vec![], &mut got);
                    if st == "dup" {
                        out.fail(
                            format!("accepts-invalid:{sh}"),
                            format!("accepted, but TOML forbids it (style {si}, {version:?}): {text:?}"),
                            json!({"text": text, "vector": v}),
                        );
                    } else if got != expected {
                        out.fail(
                            format!("wrong-tree:{sh}"),
                            format!("tree differs for {text:?}: got {got:?}, specified {expected:?}"),
                            json!({"text": text, "vector": v}),
                        );
                    }
                }
                Err(e) => {
                    if st == "ok" {
                        out.fail(
                            format!("rejects-valid:{sh}"),
                            format!("rejected ({e}), but TOML allows it (style {si}, {version:?}): {text:?}"),
                            json!({"text": text, "vector": v}),
                        );
                    }
                }
            }
        }
        // the linter's verdict is the same verdict (first spelling only)
        if si == 0 {
            out.evals += 1;
            let errs = norm::lint_errors(&text, TomlVersion::V1_0_0);
            if errs.is_empty() != (st == "ok") {
                out.fail(
                    format!("lint-verdict:{sh}"),
                    format!("linter reports {errs:?} on {text:?}, specified verdict {st}"),
                    json!({"text": text, "vector": v}),
                );
            }
        }
    }
    if ops.len() >= 2 {
        out.nontrivial.push(sh.clone());
    }
    out.sample = Some(json!({"document": sh, "verdict": st, "tree": v["tree"]}));
    out
}

/// C04: the formatted document has the tree the specification gives its source.
pub fn check_format(v: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let ops = v["ops"].as_array().unwrap();
    if v["st"].as_str() != Some("ok") {
        return out;
    }
    let sh = shape(ops);
    let expected: BTreeSet<String> = v["tree"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| format!("{}={}", strs(&e[0]).join("/"), e[1].as_str().unwrap()))
        .collect();
    let mut rng = Rng::new(ctx.seed, &sh);
    for i in 0..if ctx.thorough { 4 } else { 2 } {
        let style = if i == 0 { 0 } else { rng.below(STYLES.len()) };
        let text = Writer { style: STYLES[style], n: 0, n_keys: 0 }.document(ops);
        let rules = if i == 0 { json!({}) } else { crate::layout::any_rules(&mut rng) };
        let version = if rng.below(2) == 0 { TomlVersion::V1_0_0 } else { TomlVersion::V1_1_0 };
        out.evals += 1;
        let replay = json!({"text": text, "rules": rules, "version": format!("{version:?}"), "vector": v});
        let formatted = match crate::layout::format(&text, version, &rules) {
            Ok(t) => t,
            Err(e) => {
                out.fail(format!("refused:{sh}"), format!("formatting {text:?} with {rules} failed: {e}"), replay);
                continue;
            }
        };
        match norm::read_document(&formatted, version) {
            Ok(doc) => {
                let mut got = BTreeSet::new();
                flatten(&norm::typed_document(&doc), &mut vec![], &mut got);
                if got != expected {
                    out.fail(
                        format!("data:{sh}"),
                        format!("{text:?} formatted with {rules} is {formatted:?}, whose tree is {got:?}, specified {expected:?}"),
                        replay.clone(),
                    );
                }
            }
            Err(e) => out.fail(
                format!("data:invalid:{sh}"),
                format!("{text:?} formatted with {rules} is {formatted:?}, which is invalid: {e}"),
                replay.clone(),
            ),
        }
        match crate::layout::format(&formatted, version, &rules) {
            Ok(again) if again == formatted => {}
            other => out.fail(
                format!("style:again:{sh}"),
                format!("{text:?} formatted with {rules} is {formatted:?}, formatted again {other:?}"),
                replay,
            ),
        }
    }
    if ops.len() >= 2 {
        out.nontrivial.push(sh.clone());
    }
    out.sample = Some(json!({"document": sh}));
    out
}
