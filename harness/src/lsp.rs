//! C10/C11: replay of LspSync.tla against the real language server.
//!
//! The server is driven through its JSON-RPC service.  Schema downloads are
//! answered by a client of ours that holds every download until the behaviour
//! says it is answered, and the runtime's clock is paused, so that a sleep of
//! the driver ends exactly when every handler is suspended or has finished.

use crate::common::*;
use bytes::Bytes;
use futures::{SinkExt, StreamExt};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use tombi_lsp::Backend;
use tombi_schema_store::{FetchError, HttpClient, HttpFuture};
use tower::Service;
use tower_lsp::LspService;
use tower_lsp::jsonrpc::{Request, Response};

// ------------------------------------------------------------------ downloads
#[derive(Debug, Default)]
pub struct Gates {
    /// URLs that wait until they are opened
    pub closed: Mutex<HashSet<String>>,
    pub bodies: Mutex<HashMap<String, Option<String>>>,
    pub requests: Mutex<Vec<String>>,
    pub changed: tokio::sync::Notify,
}

#[derive(Debug, Clone)]
pub struct GateClient(pub Arc<Gates>);

impl HttpClient for GateClient {
    fn get_bytes<'a>(&'a self, url: &'a str) -> HttpFuture<'a, Result<Bytes, FetchError>> {
        Box::pin(async move {
            self.0.requests.lock().unwrap().push(url.to_string());
            loop {
                let notified = self.0.changed.notified();
                if !self.0.closed.lock().unwrap().contains(url) {
                    break;
                }
                notified.await;
            }
            if url.contains("catalog.json") {
                return Ok(Bytes::from_static(b"{\"schemas\":[]}"));
            }
            match self.0.bodies.lock().unwrap().get(url) {
                Some(Some(body)) => Ok(Bytes::from(body.clone())),
                _ => Err(FetchError::StatusNotOk { status: 404 }),
            }
        })
    }
}

// --------------------------------------------------------------------- server
#[derive(Debug, Clone, PartialEq)]
pub struct Published {
    pub uri: String,
    pub version: Option<i64>,
    pub diagnostics: Value,
}

pub struct Server {
    pub service: LspService<Backend>,
    pub published: Arc<Mutex<Vec<Published>>>,
    next_id: i64,
}

pub type Pending = tokio::task::JoinHandle<Option<Response>>;

pub async fn settle() {
    for _ in 0..3 {
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    }
}

pub fn file_uri(path: &Path) -> String {
    format!("file://{}", path.display())
}

impl Server {
    /// Start a server for the workspace folder and run it until it is idle.
    pub async fn start(workspace: &Path, pull: bool, gates: Arc<Gates>) -> Server {
        Self::start_with(workspace, pull, gates, json!({})).await.0
    }

    /// The same with the client's `general` capabilities; with the server's answer.
    pub async fn start_with(workspace: &Path, pull: bool, gates: Arc<Gates>, general: Value) -> (Server, Value) {
        tombi_schema_store::verif_hooks::set_http_client(Some(Arc::new(GateClient(gates))));
        let (service, socket) = tombi_lsp::lsp_service(false, true);
        let published: Arc<Mutex<Vec<Published>>> = Default::default();
        let (mut requests, mut responses) = socket.split();
        let sink = published.clone();
        let folder = file_uri(workspace);
        tokio::spawn(async move {
            while let Some(request) = requests.next().await {
                let params = request.params().cloned().unwrap_or(Value::Null);
                match request.method() {
                    "textDocument/publishDiagnostics" => sink.lock().unwrap().push(Published {
                        uri: params["uri"].as_str().unwrap_or("").to_string(),
                        version: params["version"].as_i64(),
                        diagnostics: params["diagnostics"].clone(),
                    }),
                    method => {
                        if let Some(id) = request.id() {
                            let result = if method == "workspace/workspaceFolders" {
                                json!([{"uri": folder, "name": "w"}])
                            } else {
                                Value::Null
                            };
                            let _ = responses.send(Response::from_ok(id.clone(), result)).await;
                        }
                    }
                }
            }
        });
        let mut server = Server { service, published, next_id: 1 };
        let mut capabilities = if pull {
            json!({"textDocument": {"diagnostic": {"dynamicRegistration": true}},
                   "workspace": {"workspaceFolders": true}})
        } else {
            json!({"workspace": {"workspaceFolders": true}})
        };
        capabilities["general"] = general;
        let init = server.request("initialize", json!({"capabilities": capabilities,
            "workspaceFolders": [{"uri": file_uri(workspace), "name": "w"}]}));
        settle().await;
        assert!(init.is_finished(), "initialize did not finish");
        let answer = result(init.await.ok().flatten()).unwrap_or_default();
        server.notify("initialized", json!({}));
        settle().await;
        (server, answer)
    }

    pub fn request(&mut self, method: &str, params: Value) -> Pending {
        let id = self.next_id;
        self.next_id += 1;
        let method: String = method.to_string();
        let request = Request::build(method).params(params).id(id).finish();
        let call = self.service.call(request);
        tokio::spawn(async move { call.await.ok().flatten() })
    }

    pub fn notify(&mut self, method: &str, params: Value) -> Pending {
        let method: String = method.to_string();
        let request = Request::build(method).params(params).finish();
        let call = self.service.call(request);
        tokio::spawn(async move { call.await.ok().flatten() })
    }

    /// version and text of the server's source
    pub fn source(&self, uri: &str) -> Option<(Option<i32>, String, String)> {
        let uri: tombi_uri::Uri = uri.parse().unwrap();
        let sources = self.service.inner().document_sources.try_read().ok()?;
        sources
            .get(&uri)
            .map(|s| (s.version, s.text().to_string(), s.toml_version.to_string()))
    }
}

pub fn result(response: Option<Response>) -> Result<Value, String> {
    match response {
        Some(r) => match r.into_parts().1 {
            Ok(v) => Ok(v),
            Err(e) => Err(format!("{e:?}")),
        },
        None => Err("no response".into()),
    }
}

// --------------------------------------------------------------------- texts
fn text_of(name: &str) -> String {
    match name {
        "p" => "# p\n# p\np=1\n\"\" = 1\n".into(),
        "f" => "# f\n\"\" = 1\n".into(),
        "x" => "# x\n# x\n# x\nx = \n".into(),
        // a schema with a version of its own that refers to another one
        "s" => "#:schema http://gate.test/s.json\n\ns = \"text\"\n".into(),
        "r" => "#:schema http://gate.test/r.json\n\n\n\n\nr = \"text\"\n".into(),
        // a schema that refers to nothing
        "q" => "#:schema http://gate.test/q.json\n\n\n\nq = \"text\"\n".into(),
        other => panic!("unknown text {other}"),
    }
}

fn toml_version_of(name: &str) -> Option<&'static str> {
    match name {
        "s" | "r" | "q" => Some("v1.1.0"),
        _ => Some("v1.0.0"),
    }
}

fn bodies() -> HashMap<String, Option<String>> {
    let mut m = HashMap::new();
    for n in ["s", "r"] {
        m.insert(
            format!("http://gate.test/{n}.json"),
            Some(json!({"type": "object", "x-tombi-toml-version": "v1.1.0",
                "properties": {n: {"$ref": format!("http://gate.test/{n}-ref.json")}}}).to_string()),
        );
        m.insert(format!("http://gate.test/{n}-ref.json"), Some(json!({"type": "integer"}).to_string()));
    }
    m.insert(
        "http://gate.test/q.json".into(),
        Some(json!({"type": "object", "x-tombi-toml-version": "v1.1.0",
            "properties": {"q": {"type": "integer"}}}).to_string()),
    );
    m
}

fn gate_url(kind: &str, text: &str) -> String {
    match kind {
        "A" => format!("http://gate.test/{text}.json"),
        _ => format!("http://gate.test/{text}-ref.json"),
    }
}

fn workspace(ctx: &Ctx, targets: bool) -> PathBuf {
    let dir = ctx.scratch.join(format!(
        "ws-{:?}-{}",
        std::thread::current().id(),
        if targets { "t" } else { "n" }
    ));
    let dir = PathBuf::from(dir.to_string_lossy().replace(['(', ')'], ""));
    if !dir.exists() {
        std::fs::create_dir_all(&dir).unwrap();
    }
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let _ = std::fs::remove_file(e.path());
    }
    std::fs::write(
        dir.join("tombi.toml"),
        format!(
            "[files]\ninclude = [\"u.toml\", \"v.toml\"]\n[schema]\ncatalog = {{ paths = [] }}\n[lsp.workspace-diagnostic]\nenabled = {targets}\n"
        ),
    )
    .unwrap();
    dir
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap()
}

/// Requests that read the document, with their other parameters.
const REQUESTS: [(&str, &str); 12] = [
    ("textDocument/completion", r#"{"position":{"line":2,"character":0}}"#),
    ("textDocument/documentSymbol", "{}"),
    ("textDocument/hover", r#"{"position":{"line":2,"character":0}}"#),
    ("textDocument/inlayHint", r#"{"range":{"start":{"line":0,"character":0},"end":{"line":9,"character":0}}}"#),
    ("textDocument/semanticTokens/full", "{}"),
    ("textDocument/foldingRange", "{}"),
    ("textDocument/documentLink", "{}"),
    ("textDocument/codeAction", r#"{"range":{"start":{"line":2,"character":0},"end":{"line":2,"character":1}},"context":{"diagnostics":[]}}"#),
    ("textDocument/definition", r#"{"position":{"line":2,"character":0}}"#),
    ("tombi/getTomlVersion", "{}"),
    ("tombi/getStatus", "{}"),
    ("textDocument/references", r#"{"position":{"line":2,"character":0},"context":{"includeDeclaration":true}}"#),
];

fn fnv(s: &str) -> u32 {
    s.bytes().fold(0x811c9dc5u32, |h, b| (h ^ b as u32).wrapping_mul(0x01000193))
}

static DIAGS: Mutex<BTreeMap<String, Value>> = Mutex::new(BTreeMap::new());

/// The diagnostics of a text: a fresh server, every download answered.
fn diagnostics_of(text: &str, ctx: &Ctx) -> Value {
    if let Some(v) = DIAGS.lock().unwrap().get(text) {
        return v.clone();
    }
    let dir = ctx.scratch.join(format!("ref-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("tombi.toml"), "[schema]\ncatalog = { paths = [] }\n").unwrap();
    let v = runtime().block_on(async {
        let gates: Arc<Gates> = Default::default();
        *gates.bodies.lock().unwrap() = bodies();
        let mut server = Server::start(&dir, false, gates).await;
        let uri = file_uri(&dir.join("ref.toml"));
        server.notify("textDocument/didOpen", json!({"textDocument":
            {"uri": uri, "languageId": "toml", "version": 1, "text": text_of(text)}}));
        settle().await;
        let published = server.published.lock().unwrap();
        published.last().expect("reference diagnostics").diagnostics.clone()
    });
    let expected_line = match text {
        "p" => 3,
        "f" => 1,
        "x" => 3,
        "s" => 2,
        "r" => 5,
        _ => 4,
    };
    let lines: Vec<u64> =
        v.as_array().unwrap().iter().filter_map(|d| d["range"]["start"]["line"].as_u64()).collect();
    if !lines.contains(&expected_line) {
        panic!("reference diagnostics of {text} are not on line {expected_line}: {v}");
    }
    let mut d = DIAGS.lock().unwrap();
    d.insert(text.to_string(), v.clone());
    let distinct: HashSet<String> = d.values().map(|v| v.to_string()).collect();
    assert_eq!(distinct.len(), d.len(), "two texts have the same diagnostics");
    v
}

fn name_of_diagnostics(v: &Value, ctx: &Ctx) -> String {
    if v.as_array().is_some_and(|a| a.is_empty()) {
        return "none".into();
    }
    for t in ["p", "f", "x", "s", "r", "q"] {
        if diagnostics_of(t, ctx) == *v {
            return t.into();
        }
    }
    format!("unknown {v}")
}

// ---------------------------------------------------------------------- check
/// A behaviour determines what the server does; a difference counts when it is
/// there every time.
/// An editor may count its versions in other steps than the specification.
fn renumber(vector: &Value, ctx: &Ctx) -> Value {
    let mut v = vector.clone();
    if !v["numbers"].is_null() {
        return v;
    }
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let first = [1, 7][rng.below(2)];
    let stride = [1, 1, 2, 100][rng.below(4)];
    let set = |x: &mut Value| {
        if let Some(n) = x["ver"].as_i64()
            && n > 0
        {
            x["ver"] = json!(first + (n - 1) * stride);
        }
    };
    for h in v["hist"].as_array_mut().unwrap() {
        if h["op"] == "open" || h["op"] == "change" {
            set(h);
        }
        h["editor"].as_object_mut().unwrap().values_mut().for_each(set);
    }
    for k in ["shown", "editor"] {
        v[k].as_object_mut().unwrap().values_mut().for_each(set);
    }
    v["numbers"] = json!([first, stride]);
    v
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let vector = &renumber(vector, ctx);
    let mut out = replay(vector, ctx);
    for _ in 0..2 {
        if out.violations.is_empty() {
            break;
        }
        let again = replay(vector, ctx);
        if std::env::var("TVH_FLAKY").is_ok() {
            eprintln!("{:?}", out.violations.iter().map(|v| &v.what).collect::<Vec<_>>());
        }
        out.violations.retain(|v| again.violations.iter().any(|w| w.key == v.key));
        out.evals += 1;
    }
    out
}

fn replay(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 1, ..Default::default() };
    let hist = vector["hist"].as_array().unwrap();
    let push = vector["push"].as_bool().unwrap();
    let targets: Vec<String> = strs(&vector["targets"]);
    let init = vector["init"].as_str().unwrap();
    for t in ["p", "f", "x", "s", "r", "q"] {
        diagnostics_of(t, ctx);
    }
    let dir = workspace(ctx, !targets.is_empty());
    let uris: Vec<String> = vector["editor"].as_object().unwrap().keys().cloned().collect();
    let path = |u: &str| dir.join(format!("{u}.toml"));
    let uri = |u: &str| file_uri(&path(u));
    if init != "none" {
        for u in &uris {
            std::fs::write(path(u), text_of(init)).unwrap();
        }
    }
    let story: Vec<String> = hist
        .iter()
        .map(|h| format!("{}({},{})", h["op"].as_str().unwrap(), h["u"].as_str().unwrap(), h["text"].as_str().unwrap()))
        .collect();
    let story = story.join(" ");
    if hist.iter().any(|h| h["op"] == "release") {
        out.count("behaviours with an overlap");
    }
    out.nontrivial.push(story.clone());

    let trace = std::env::var("TVH_TRACE").is_ok();
    let rt = runtime();
    rt.block_on(async {
        let gates: Arc<Gates> = Default::default();
        *gates.bodies.lock().unwrap() = bodies();
        let mut server = Server::start(&dir, !push, gates.clone()).await;
        for t in ["s", "r", "q"] {
            gates.closed.lock().unwrap().insert(gate_url("A", t));
            gates.closed.lock().unwrap().insert(gate_url("B", t));
        }
        let mut pending: Vec<(usize, String, Pending)> = vec![];
        let mut seen = 0usize;
        let mut shown: BTreeMap<String, Published> = BTreeMap::new();
        for p in server.published.lock().unwrap().iter() {
            shown.insert(p.uri.clone(), p.clone());
            seen += 1;
        }
        let mut editor = json!({});
        let mut disk: BTreeMap<String, String> =
            uris.iter().map(|u| (u.clone(), init.to_string())).collect();
        let mut disks: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut judge = |i: usize, server: &Server, editor: &Value, disk: &BTreeMap<String, String>,
                         shown: &mut BTreeMap<String, Published>, out: &mut Outcome| {
            for u in &uris {
                disks.entry(u.clone()).or_default().push(disk[u].clone());
            }
            let at = |s: &str| format!("after step {} of [{story}]: {s}", i + 1);
            for u in &uris {
                let e = &editor[u];
                let open = e["open"].as_bool().unwrap_or(false);
                let source = server.source(&uri(u));
                if open {
                    let text = text_of(e["text"].as_str().unwrap());
                    let version = e["ver"].as_i64().unwrap() as i32;
                    match &source {
                        None => out.fail(
                            format!("mirror:lost:{}", hist[i]["op"].as_str().unwrap()),
                            at(&format!("the server has no document {u} but the editor has it open")),
                            vector.clone(),
                        ),
                        Some((v, t, _)) if *v != Some(version) || *t != text => out.fail(
                            format!("mirror:differs:{}", hist[i]["op"].as_str().unwrap()),
                            at(&format!("the server has version {v:?} {t:?} of {u}, the editor {version} {text:?}")),
                            vector.clone(),
                        ),
                        _ => {}
                    }
                } else if let Some((Some(v), _, _)) = &source {
                    out.fail(
                        format!("mirror:open:{}", hist[i]["op"].as_str().unwrap()),
                        at(&format!("the server has {u} open with version {v}, the editor has closed it")),
                        vector.clone(),
                    );
                }
            }
            let published = server.published.lock().unwrap();
            if trace {
                for u in &uris {
                    eprintln!("step {}: source {:?} disk {}", i + 1, server.source(&uri(u)), disk[u]);
                }
            }
            for p in &published[seen..] {
                if trace {
                    eprintln!("step {}: {} version {:?} {}", i + 1, p.uri, p.version,
                        name_of_diagnostics(&p.diagnostics, ctx));
                }
                shown.insert(p.uri.clone(), p.clone());
                let Some(u) = uris.iter().find(|u| uri(u) == p.uri) else { continue };
                let e = &editor[u];
                let empty = p.diagnostics.as_array().is_some_and(|a| a.is_empty());
                let name = name_of_diagnostics(&p.diagnostics, ctx);
                if e["open"].as_bool().unwrap_or(false) {
                    // empty ones of no version belong to a close before
                    if !(empty && p.version.is_none())
                        && push
                        && (p.version != e["ver"].as_i64() || name != e["text"].as_str().unwrap())
                    {
                        out.fail(
                            format!("publish:stale:{}", hist[i]["op"].as_str().unwrap()),
                            at(&format!(
                                "published diagnostics of {u} are for version {:?} text {name}, the editor has {} {}",
                                p.version, e["ver"], e["text"]
                            )),
                            vector.clone(),
                        );
                    }
                } else if !empty
                    && (p.version.is_some() || !disks[u].contains(&name))
                {
                    // while a newer change of the file is being looked at, an
                    // older one may still be reported
                    out.fail(
                        format!("publish:closed:{}", hist[i]["op"].as_str().unwrap()),
                        at(&format!(
                            "published diagnostics of the closed {u} are of version {:?} text {name}, its file is {}",
                            p.version, disk[u]
                        )),
                        vector.clone(),
                    );
                }
            }
            seen = published.len();
        };
        for (i, h) in hist.iter().enumerate() {
            let op = h["op"].as_str().unwrap();
            let u = h["u"].as_str().unwrap().to_string();
            let text = h["text"].as_str().unwrap();
            editor = h["editor"].clone();
            let doc = json!({"uri": uri(&u)});
            match op {
                "release" => {
                    gates.closed.lock().unwrap().remove(&gate_url(&u, text));
                    gates.changed.notify_waiters();
                }
                "open" => {
                    let p = server.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(&u),
                        "languageId": "toml", "version": h["ver"], "text": text_of(text)}}));
                    pending.push((i, "open".into(), p));
                }
                "change" => {
                    // one message may carry several changes, the last one counts
                    let changes = if i % 2 == 0 {
                        json!([{"text": text_of(text)}])
                    } else {
                        json!([{"text": "between = 1\n"}, {"text": text_of(text)}])
                    };
                    let p = server.notify("textDocument/didChange", json!({"textDocument":
                        {"uri": uri(&u), "version": h["ver"]}, "contentChanges": changes}));
                    pending.push((i, "change".into(), p));
                }
                "save" | "saved" => {
                    let current = text_of(text);
                    std::fs::write(path(&u), &current).unwrap();
                    disk.insert(u.clone(), text.to_string());
                    let params = if op == "save" {
                        json!({"textDocument": doc, "text": current})
                    } else {
                        json!({"textDocument": doc})
                    };
                    let p = server.notify("textDocument/didSave", params);
                    pending.push((i, op.into(), p));
                }
                "close" => {
                    let p = server.notify("textDocument/didClose", json!({"textDocument": doc}));
                    pending.push((i, "close".into(), p));
                }
                "delete" => {
                    let _ = std::fs::remove_file(path(&u));
                    disk.insert(u.clone(), "none".into());
                    let p = server.notify("workspace/didChangeWatchedFiles",
                        json!({"changes": [{"uri": uri(&u), "type": 3}]}));
                    pending.push((i, "delete".into(), p));
                }
                "watch" => {
                    // created, if the server was last told that it is gone
                    let typ = if h["ver"] == 1 { 1 } else { 2 };
                    std::fs::write(path(&u), text_of(text)).unwrap();
                    disk.insert(u.clone(), text.to_string());
                    let p = server.notify("workspace/didChangeWatchedFiles",
                        json!({"changes": [{"uri": uri(&u), "type": typ}]}));
                    pending.push((i, "watch".into(), p));
                }
                "pull" => {
                    let p = server.request("textDocument/diagnostic", json!({"textDocument": doc}));
                    pending.push((i, "pull".into(), p));
                }
                "inlay" => {
                    let (method, more) = REQUESTS[(fnv(&story) as usize + i) % REQUESTS.len()];
                    let mut params: Value = serde_json::from_str(more).unwrap();
                    if method.starts_with("tombi/") {
                        params = doc;
                    } else {
                        params["textDocument"] = doc;
                    }
                    out.count(method);
                    let p = server.request(method, params);
                    pending.push((i, method.into(), p));
                }
                "fmt" => {
                    let p = server.request("textDocument/formatting", json!({"textDocument": doc,
                        "options": {"tabSize": 2, "insertSpaces": true}}));
                    pending.push((i, "fmt".into(), p));
                }
                other => panic!("unknown step {other}"),
            }
            settle().await;
            judge(i, &server, &editor, &disk, &mut shown, &mut out);
        }
        gates.closed.lock().unwrap().clear();
        gates.changed.notify_waiters();
        settle().await;
        judge(hist.len() - 1, &server, &editor, &disk, &mut shown, &mut out);
        drop(judge);

        for (i, kind, p) in pending {
            let u = hist[i]["u"].as_str().unwrap();
            if !p.is_finished() {
                out.fail(format!("stuck:{kind}"),
                    format!("step {} of [{story}] is never finished though every download was answered", i + 1),
                    vector.clone());
                p.abort();
                continue;
            }
            if !matches!(hist[i]["op"].as_str().unwrap(), "pull" | "inlay" | "fmt") {
                continue;
            }
            let answer = match result(p.await.ok().flatten()) {
                Ok(v) => v,
                Err(e) => {
                    out.fail(format!("error:{kind}"), format!("step {} of [{story}]: {e}", i + 1), vector.clone());
                    continue;
                }
            };
            // the texts the editor had from the request on
            let later: Vec<&Value> = hist[i..].iter().map(|h| &h["editor"][u]).collect();
            if later.iter().any(|e| !e["open"].as_bool().unwrap_or(false)) {
                continue;
            }
            let names: Vec<&str> = later.iter().map(|e| e["text"].as_str().unwrap()).collect();
            match kind.as_str() {
                "textDocument/documentSymbol" if !names.contains(&"x") => {
                    let got: Vec<&str> = answer.as_array().into_iter().flatten()
                        .filter_map(|s| s["name"].as_str()).collect();
                    let fits = names.iter().any(|n| match *n {
                        "p" => got == ["p", "\"\""],
                        "f" => got == ["\"\""],
                        n => got == [n],
                    });
                    if !fits {
                        out.fail("request:stale",
                            format!("step {} of [{story}] is answered with the symbols {got:?}, \
                                     the editor has had {names:?} since", i + 1), vector.clone());
                    }
                }
                "tombi/getTomlVersion" | "tombi/getStatus" => {
                    let got = answer["tomlVersion"].as_str();
                    if !names.iter().any(|n| got == toml_version_of(n)) {
                        out.fail("request:version",
                            format!("step {} of [{story}] is answered with {answer}, \
                                     the editor has had {names:?} since", i + 1), vector.clone());
                    }
                }
                "pull" => {
                    let name = name_of_diagnostics(&answer["items"], ctx);
                    out.count("diagnostics requested");
                    if !names.contains(&name.as_str()) {
                        out.fail("pull:stale",
                            format!("step {} of [{story}] is answered with the diagnostics of {name}, \
                                     the editor has had {names:?} since", i + 1), vector.clone());
                    }
                }
                "fmt" => {
                    let text = text_of(names[0]);
                    let want = match names[0] {
                        "p" => Some("# p\n# p\np = 1\n\"\" = 1\n".to_string()),
                        _ => None,
                    };
                    let got = if answer.is_null() { None } else { Some(apply_edits(&text, &answer)) };
                    if got != want {
                        out.fail("format:wrong",
                            format!("step {} of [{story}] gives {got:?} instead of {want:?}", i + 1), vector.clone());
                    }
                }
                _ => {}
            }
        }
        for u in &uris {
            let e = &editor[u];
            let open = e["open"].as_bool().unwrap_or(false);
            if open && let Some((_, _, v)) = server.source(&uri(u)) {
                let want = toml_version_of(e["text"].as_str().unwrap()).unwrap();
                if v != want {
                    out.fail("quiet:toml-version",
                        format!("at the end of [{story}] {u} is read as TOML {v} instead of {want}"), vector.clone());
                }
            }
            if push {
                let want = &vector["shown"][u];
                let got = shown.get(&uri(u));
                let got_name = got.map(|p| name_of_diagnostics(&p.diagnostics, ctx)).unwrap_or("none".into());
                let got_version = got.and_then(|p| p.version).unwrap_or(0);
                let want_name = want["text"].as_str().unwrap();
                if got_name != want_name || (want_name != "none" && got_version != want["ver"].as_i64().unwrap()) {
                    out.fail(
                        if open { "quiet:shown" } else { "quiet:shown-closed" },
                        format!("at the end of [{story}] the editor shows the diagnostics of {got_name} \
                                 (version {got_version}) for {u} instead of those of {want_name} (version {})", want["ver"]),
                        vector.clone());
                }
            }
        }
        if out.violations.is_empty() {
            out.sample = Some(json!({"messages": story, "editor shows": vector["shown"]}));
        }
    });
    rt.shutdown_background();
    out
}

/// Apply LSP text edits whose positions count UTF-16 units.
pub fn apply_edits(text: &str, edits: &Value) -> String {
    apply_edits_in(text, edits, char::len_utf16)
}

/// Apply LSP text edits whose positions count the units that `len` tells.
pub fn apply_edits_in(text: &str, edits: &Value, len: impl Fn(char) -> usize) -> String {
    let offset = |p: &Value| -> usize {
        let line = p["line"].as_u64().unwrap() as usize;
        let mut start = 0;
        for _ in 0..line {
            match text[start..].find('\n') {
                Some(n) => start += n + 1,
                None => return text.len(),
            }
        }
        let mut units = p["character"].as_u64().unwrap() as usize;
        let mut at = start;
        for c in text[start..].chars() {
            if units == 0 || c == '\n' {
                break;
            }
            units = units.saturating_sub(len(c));
            at += c.len_utf8();
        }
        at
    };
    let mut list: Vec<(usize, usize, String)> = edits
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            (offset(&e["range"]["start"]), offset(&e["range"]["end"]), e["newText"].as_str().unwrap().to_string())
        })
        .collect();
    list.sort();
    let mut s = text.to_string();
    for (a, b, t) in list.into_iter().rev() {
        s.replace_range(a..b, &t);
    }
    s
}
