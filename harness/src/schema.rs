//! C08: replay of JsonSchema.tla.  A schema and the verdicts on a list of
//! values; the schema becomes a file, each value a document, and the linter
//! has to agree.

use crate::common::*;
use serde_json::{Map, Value, json};
use std::path::Path;
use tombi_schema_store::{AssociateSchemaOptions, Options, SchemaStore, SchemaUri};

/// A value of the specification as JSON.
fn plain(v: &Value) -> Value {
    match v["k"].as_str().unwrap() {
        "int" => json!(v["n"].as_i64().unwrap() / 2),
        "flt" => json!(v["n"].as_i64().unwrap() as f64 / 2.0),
        "str" => v["s"].clone(),
        "bool" => v["b"].clone(),
        "arr" => v["e"].as_array().unwrap().iter().map(plain).collect(),
        _ => Value::Object(v["m"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), plain(v))).collect())
            .unwrap_or_default()),
    }
}

/// A value of the specification as TOML.
fn toml(v: &Value) -> String {
    match v["k"].as_str().unwrap() {
        "int" => format!("{}", v["n"].as_i64().unwrap() / 2),
        "flt" => format!("{:?}", v["n"].as_i64().unwrap() as f64 / 2.0),
        "str" => format!("{:?}", v["s"].as_str().unwrap()),
        "bool" => v["b"].to_string(),
        "arr" => format!("[{}]", v["e"].as_array().unwrap().iter().map(toml).collect::<Vec<_>>().join(", ")),
        _ => {
            let inner: Vec<_> = v["m"].as_object()
                .map(|m| m.iter().map(|(k, v)| format!("{k} = {}", toml(v))).collect())
                .unwrap_or_default();
            if inner.is_empty() { "{}".into() } else { format!("{{ {} }}", inner.join(", ")) }
        }
    }
}

/// A table value as the body of a document: headers where they can be.
fn document(v: &Value, at: &str) -> String {
    let Some(m) = v["m"].as_object() else { return String::new() };
    let (mut own, mut sub) = (String::new(), String::new());
    for (k, v) in m {
        let here = if at.is_empty() { k.clone() } else { format!("{at}.{k}") };
        let tables = |v: &Value| v["k"] == "arr" && v["e"].as_array().is_some_and(|e| {
            !e.is_empty() && e.iter().all(|x| x["k"] == "tbl")
        });
        if v["k"] == "tbl" {
            sub += &format!("[{here}]\n{}", document(v, &here));
        } else if tables(v) {
            for x in v["e"].as_array().unwrap() {
                sub += &format!("[[{here}]]\n{}", document(x, &here));
            }
        } else {
            own += &format!("{k} = {}\n", toml(v));
        }
    }
    own + &sub
}

struct Writer<'a> {
    pool: &'a [Value],
    dialect: &'a str,
    rng: Rng,
    /// where the root schema is found
    root: &'a str,
}

impl Writer<'_> {
    fn defs(&self) -> &'static str {
        if self.dialect == "draft-07" { "definitions" } else { "$defs" }
    }
    /// A part: written out, or a reference to where it is.
    fn part(&mut self, i: u64, depth: usize) -> Value {
        if i == 0 {
            return json!({"$ref": self.root});
        }
        if self.rng.below(3) == 0 || depth > 6 {
            return json!({"$ref": format!("#/{}/d{i}", self.defs())});
        }
        self.schema(i, depth + 1)
    }
    fn schema(&mut self, i: u64, depth: usize) -> Value {
        let s = &self.pool[i as usize - 1];
        if s["k"] == "bool" {
            return s["b"].clone();
        }
        let mut out = Map::new();
        for w in s["w"].as_array().unwrap() {
            self.keyword(w, &mut out, depth);
        }
        Value::Object(out)
    }
    fn keyword(&mut self, w: &Value, out: &mut Map<String, Value>, depth: usize) {
        let name = w["w"].as_str().unwrap();
        let value = match name {
            "type" => {
                let t = strs(&w["types"]);
                if t.len() == 1 { json!(t[0]) } else { json!(t) }
            }
            "enum" => w["vals"].as_array().unwrap().iter().map(plain).collect(),
            "const" => plain(&w["val"]),
            "minimum" | "maximum" | "exclusiveMinimum" | "exclusiveMaximum" | "multipleOf" => {
                let n = w["num"].as_i64().unwrap();
                if n % 2 == 0 { json!(n / 2) } else { json!(n as f64 / 2.0) }
            }
            "minLength" | "maxLength" | "minItems" | "maxItems" | "minProperties" | "maxProperties"
            | "minContains" | "maxContains" => w["size"].clone(),
            "pattern" => w["pat"].clone(),
            "uniqueItems" => w["flag"].clone(),
            "required" => json!(strs(&w["names"])),
            "dependentRequired" | "dependencyNames" => json!({w["key"].as_str().unwrap(): strs(&w["names"])}),
            "dependentSchemas" | "dependencySchema" => {
                json!({w["key"].as_str().unwrap(): self.part(w["sub"].as_u64().unwrap(), depth)})
            }
            "properties" | "patternProperties" => {
                let m = w["map"].as_object().unwrap().clone();
                m.into_iter().map(|(k, i)| (k, self.part(i.as_u64().unwrap(), depth))).collect::<Map<_, _>>().into()
            }
            "prefixItems" | "tuple" | "allOf" | "anyOf" | "oneOf" => {
                let seq = w["seq"].as_array().unwrap().clone();
                seq.iter().map(|i| self.part(i.as_u64().unwrap(), depth)).collect()
            }
            // what a reference refers to is always elsewhere
            "$ref" => json!(format!("#/{}/d{}", self.defs(), w["sub"])),
            _ => self.part(w["sub"].as_u64().unwrap(), depth),
        };
        let name = match name {
            "tuple" => "items",
            "dependencyNames" | "dependencySchema" => "dependencies",
            n => n,
        };
        out.insert(name.into(), value);
    }
    fn file(&mut self, wrapped: bool) -> Value {
        let n = self.pool.len() as u64;
        let mut out = Map::new();
        out.insert("$schema".into(), json!(match self.dialect {
            "draft-07" => "http://json-schema.org/draft-07/schema#",
            "2019-09" => "https://json-schema.org/draft/2019-09/schema",
            _ => "https://json-schema.org/draft/2020-12/schema",
        }));
        if wrapped {
            out.insert("type".into(), json!("object"));
            out.insert("properties".into(), json!({"v": self.schema(n, 0)}));
            out.insert("additionalProperties".into(), json!(false));
        } else if let Value::Object(root) = self.schema(n, 0) {
            out.extend(root);
        }
        let defs: Map<String, Value> = (1..=n).map(|i| (format!("d{i}"), self.schema(i, 0))).collect();
        out.insert(self.defs().into(), Value::Object(defs));
        // only what is referred to
        let text = serde_json::to_string(&out).unwrap();
        if let Some(Value::Object(defs)) = out.get_mut(self.defs()) {
            defs.retain(|k, _| text.contains(&format!("/{k}\"")));
        }
        if out[self.defs()].as_object().unwrap().is_empty() {
            let k = self.defs();
            out.remove(k);
        }
        Value::Object(out)
    }
}

async fn store(path: &Path, strict: bool) -> SchemaStore {
    let store = SchemaStore::new_with_options_and_http_client(
        Options { strict: Some(strict.into()), offline: Some(true), cache: None },
        std::sync::Arc::new(NoNetwork),
    );
    store.associate_schema(SchemaUri::from_file_path(path).unwrap(), vec!["*.toml".into()],
        &AssociateSchemaOptions::default()).await;
    store
}

async fn lint(store: &SchemaStore, path: &Path, text: &str) -> Vec<String> {
    let options = tombi_linter::LintOptions::default();
    match tombi_linter::Linter::new(tombi_config::TomlVersion::default(), &options,
        Some(itertools::Either::Right(path)), store).lint(text).await
    {
        Ok(_) => vec![],
        Err(ds) => ds.iter().map(|d| format!("{}:{}", d.level(), d.code())).collect(),
    }
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let pool = vector["pool"].as_array().unwrap();
    let values = vector["values"].as_array().unwrap();
    let want: Vec<bool> = vector["want"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
    let strict = vector["strict"].as_bool().unwrap();
    let dialect = vector["d"].as_str().unwrap();
    let root = &pool[pool.len() - 1];
    let kinds: Vec<_> = root["w"].as_array().unwrap().iter().map(|w| w["w"].as_str().unwrap()).collect();
    let salt = root.to_string();
    for wrapped in [true, false] {
        let mut writer = Writer { pool, dialect, rng: Rng::new(ctx.seed, &salt),
            root: if wrapped { "#/properties/v" } else { "#" } };
        let schema = writer.file(wrapped);
        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let dir = ctx.scratch.join(format!("schema-{}", NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join("schema.json");
        std::fs::write(&path, serde_json::to_string_pretty(&schema).unwrap()).unwrap();
        let toml_path = dir.join("test.toml");
        block_on(async {
            let store = store(&path, strict).await;
            for (v, want) in values.iter().zip(&want) {
                let text = if wrapped {
                    format!("v = {}\n", toml(v))
                } else if v["k"] == "tbl" {
                    document(v, "")
                } else {
                    continue;
                };
                out.evals += 1;
                let got = lint(&store, &toml_path, &text).await;
                if got.is_empty() != *want {
                    let mut sorted = kinds.clone();
                    sorted.sort();
                    out.fail(
                        format!("schema:{}:{}", if *want { "refused" } else { "accepted" }, sorted.join("+")),
                        format!("{text:?} against {schema} ({dialect}{}) should be {}: {got:?}",
                            if strict { ", strict" } else { "" }, if *want { "valid" } else { "invalid" }),
                        vector.clone(),
                    );
                    return;
                }
                if !*want && got.iter().any(|g| !g.starts_with("ERROR")) {
                    out.count("with_warnings");
                }
            }
        });
        std::fs::remove_dir_all(&dir).unwrap();
        if want.iter().any(|w| *w) && want.iter().any(|w| !*w) {
            out.nontrivial.push(schema.to_string());
        }
        if out.sample.is_none() {
            out.sample = Some(json!({"schema": schema, "verdicts": want.iter().filter(|w| **w).count()}));
        }
    }
    for k in kinds {
        out.count(k);
    }
    out
}
