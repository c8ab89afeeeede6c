//! C14: replay of SchemaSession.tla against the real language server.

use crate::choice::{put, schema_text};
use crate::common::*;
use crate::lsp::{Gates, Server, file_uri, result, runtime, settle};
use serde_json::{Value, json};
use std::path::Path;
use std::sync::Arc;

fn set(v: &Value) -> Option<&str> {
    v.as_str().filter(|s| *s != "-")
}

fn conf_text(c: &Value) -> String {
    let mut t = String::new();
    if let Some(v) = set(&c["ver"]) {
        t.push_str(&format!("toml-version = \"{v}\"\n"));
    }
    t.push_str("[schema]\ncatalog = { paths = [] }\n");
    if let Some(v) = set(&c["strict"]) {
        t.push_str(&format!("strict = {v}\n"));
    }
    if let Some(s) = set(&c["sch"]) {
        t.push_str(&format!("[[schemas]]\npath = \"../{s}.json\"\ninclude = [\"x.toml\"]\n"));
    }
    t
}

/// The schema `s` after it has been rewritten `generation` times.
fn publish(dir: &Path, s: &str, generation: i64) {
    let ver = (s == "s2").then_some("v1.1.0");
    put(&dir.join(format!("{s}.json")), &schema_text(&format!("{s}.{generation}"), ver));
}

async fn ask(server: &mut Server, method: &str, params: Value) -> Result<Value, String> {
    let pending = server.request(method, params);
    // the clock stands still while anything can still happen
    match tokio::time::timeout(std::time::Duration::from_secs(3600), pending).await {
        Ok(Ok(r)) => result(r),
        Ok(Err(e)) => Err(format!("{e}")),
        Err(_) => Err("no answer: everything waits".into()),
    }
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 0, ..Default::default() };
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let dir = ctx.scratch.join(format!("session-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&dir);
    let hist = vector["hist"].as_array().unwrap();
    let places: Vec<String> = hist[0]["view"].as_object().unwrap().keys().cloned().collect();
    let document = |p: &str| dir.join(if p == "none" { "elsewhere" } else { p }).join("x.toml");
    for s in ["s1", "s2"] {
        publish(&dir, s, 0);
    }
    for (p, c) in hist[0]["act"]["disk"].as_object().unwrap() {
        put(&dir.join(p).join("tombi.toml"), &conf_text(c));
    }
    for p in &places {
        put(&document(p), "");
    }
    let told: Vec<String> = hist
        .iter()
        .map(|h| {
            let a = &h["act"];
            format!("{}({})", a["do"].as_str().unwrap(), match a["do"].as_str().unwrap() {
                "start" => a["disk"].to_string(),
                "rewrite" => format!("{} {}", a["project"], a["what"]),
                _ => a["what"].to_string(),
            })
        })
        .collect();
    out.nontrivial.push(told.join(" "));
    let mut evals = 0;
    // a document may be opened late: its project is then read late
    let opened_at: Vec<usize> = places.iter().map(|_| if rng.below(3) == 0 { rng.below(hist.len()) } else { 0 }).collect();
    runtime().block_on(async {
        let gates: Arc<Gates> = Default::default();
        let mut server = Server::start(&dir.join("p1"), true, gates).await;
        let mut version = 1;
        for (i, h) in hist.iter().enumerate() {
            let a = &h["act"];
            let mut fail = |key: String, what: String| {
                out.fail(key, format!("after step {i} of {}: {what}", told[..=i].join(" ")), vector.clone())
            };
            let done = match a["do"].as_str().unwrap() {
                "start" => Ok(Value::Null),
                "associate" => {
                    let w = &a["what"];
                    let mut params = json!({"uri": file_uri(&dir.join(format!("{}.json", w["sch"].as_str().unwrap()))),
                        "fileMatch": [w["inc"]], "force": w["force"]});
                    if let Some(v) = set(&w["ver"]) {
                        params["tomlVersion"] = json!(v);
                    }
                    if rng.below(2) == 0 {
                        params["title"] = json!("t");
                    }
                    server.notify("tombi/associateSchema", params).await.map(|_| Value::Null).map_err(|e| e.to_string())
                }
                "rewrite" => {
                    let path = dir.join(a["project"].as_str().unwrap()).join("tombi.toml");
                    put(&path, &conf_text(&a["what"]));
                    ask(&mut server, "tombi/updateConfig", json!({"uri": file_uri(&path)})).await
                }
                "editor" => {
                    let mut c = json!({});
                    if let Some(v) = set(&a["what"]["ver"]) {
                        c["toml-version"] = json!(v);
                    }
                    c["schema"] = json!({"catalog": {"paths": []}});
                    if let Some(v) = set(&a["what"]["strict"]) {
                        c["schema"]["strict"] = json!(v == "true");
                    }
                    server
                        .notify("workspace/didChangeConfiguration", json!({"settings": {"tombi": c}}))
                        .await
                        .map(|_| Value::Null)
                        .map_err(|e| e.to_string())
                }
                "publish" => {
                    let s = a["what"].as_str().unwrap();
                    let generation = hist[..=i].iter().filter(|h| h["act"]["do"] == "publish" && h["act"]["what"] == s).count();
                    publish(&dir, s, generation as i64);
                    let uri = file_uri(&dir.join(format!("{s}.json")));
                    ask(&mut server, "tombi/updateSchema", json!({"uri": uri})).await
                }
                _ => {
                    // the servers of the other threads write to the same cache meanwhile
                    let mut r = Ok(Value::Null);
                    for _ in 0..50 {
                        r = ask(&mut server, "tombi/refreshCache", json!({})).await;
                        if !matches!(&r, Err(e) if e.contains("failed to remove cache directory")) {
                            break;
                        }
                    }
                    r
                }
            };
            if let Err(e) = done {
                fail(format!("session:{}:refused", a["do"].as_str().unwrap()), e);
                return;
            }
            settle().await;
            for (k, p) in places.iter().enumerate() {
                if opened_at[k] > i {
                    continue;
                }
                let uri = file_uri(&document(p));
                if opened_at[k] == i {
                    server
                        .notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "toml", "version": 1, "text": ""}}))
                        .await
                        .unwrap();
                } else if i + 1 < hist.len() && rng.below(3) == 0 {
                    continue;
                }
                evals += 1;
                let want = &h["view"][p];
                let sch = set(&want["sch"]);
                // who says so
                match ask(&mut server, "tombi/getStatus", json!({"uri": uri})).await {
                    Err(e) => fail("session:status:refused".into(), e),
                    Ok(status) => {
                        if status["tomlVersion"] != want["ver"] {
                            fail(format!("session:status:version:{}", a["do"].as_str().unwrap()),
                                format!("{p}: {} instead of {}", status["tomlVersion"], want["ver"]));
                        }
                        let name = status["schema"]["uri"].as_str().and_then(|u| u.rsplit('/').next()?.strip_suffix(".json"));
                        if name != sch {
                            fail(format!("session:status:schema:{}", a["do"].as_str().unwrap()),
                                format!("{p}: {} instead of {}", status["schema"], want["sch"]));
                        }
                    }
                }
                // and what is done about it
                let mut probes = vec![("version", "v = \"\\e\"\n".to_string(), want["ver"] == "v1.1.0")];
                match sch {
                    None => probes.push(("schema", "p = 1\nq = 1\n".into(), true)),
                    Some(s) => {
                        let g = want["gen"].as_i64().unwrap();
                        probes.push(("schema", format!("p = \"{s}.{g}\"\n"), true));
                        probes.push(("schema", format!("p = \"{s}.{}\"\n", g - 1), false));
                        probes.push(("strict", format!("p = \"{s}.{g}\"\nq = 1\n"), want["strict"] == "false"));
                    }
                }
                for (kind, text, right) in probes {
                    version += 1;
                    server
                        .notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version},
                            "contentChanges": [{"text": text}]}))
                        .await
                        .unwrap();
                    match ask(&mut server, "textDocument/diagnostic", json!({"textDocument": {"uri": uri}})).await {
                        Err(e) => fail("session:diagnostic:refused".into(), e),
                        Ok(report) => {
                            let clean = report["items"].as_array().is_some_and(Vec::is_empty);
                            if clean != right {
                                fail(format!("session:{kind}:{}", a["do"].as_str().unwrap()),
                                    format!("{p}, under {want}: [{}] gets {}", text.replace('\n', " ⏎ "), report["items"]));
                            }
                        }
                    }
                }
            }
        }
    });
    out.evals = evals;
    if out.violations.is_empty() {
        out.sample = Some(json!({"history": told, "last": hist.last().unwrap()["view"]}));
    }
    out
}
