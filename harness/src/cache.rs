//! C13: replay of SchemaCache.tla.

use crate::common::*;
use bytes::Bytes;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, SystemTime};
use tombi_schema_store::{FetchError, HttpClient, HttpFuture, SchemaStore};

const DAY: u64 = 10_000;

/// The network: what is published where, whether it works, how often it was asked.
#[derive(Debug, Default)]
pub struct Network {
    published: Mutex<HashMap<String, String>>,
    down: Mutex<bool>,
    asked: AtomicU64,
}

#[derive(Debug)]
struct Client(Arc<Network>);
impl HttpClient for Client {
    fn get_bytes<'a>(&'a self, url: &'a str) -> HttpFuture<'a, Result<Bytes, FetchError>> {
        Box::pin(async move {
            self.0.asked.fetch_add(1, Ordering::SeqCst);
            if *self.0.down.lock().unwrap() {
                return Err(FetchError::StatusNotOk { status: 503 });
            }
            match self.0.published.lock().unwrap().get(url) {
                Some(body) => Ok(Bytes::from(body.clone())),
                None => Err(FetchError::StatusNotOk { status: 404 }),
            }
        })
    }
}

/// Pairs of different URLs of one host.
const PAIRS: [(&str, &str); 14] = [
    ("https://H/s.json", "https://H/t.json"),
    ("https://H/a/s.json", "https://H/b/s.json"),
    ("https://H/s.json?v=1", "https://H/s.json?v=2"),
    ("https://H/s.json", "https://H/s.json?v=2"),
    ("https://H/s", "https://H/s?v=2"),
    ("https://H:8001/s.json", "https://H:8002/s.json"),
    ("https://H/s.json", "https://H:8443/s.json"),
    ("http://H/s.json", "https://H/s.json"),
    ("https://H/s", "https://H/s/"),
    ("https://H/a/s.json", "https://H/a//s.json"),
    ("https://H/a%2Fs.json", "https://H/a/s.json"),
    ("https://H/s", "https://H/s/__index__.json"),
    ("https://H/s.json", "https://other.H/s.json"),
    ("https://H/x/s", "https://H/x"),
];

fn body(kind: &str, v: u64) -> String {
    let name = format!("published-{v}-{}", "x".repeat(v as usize));
    match (kind, v) {
        (_, 0) => "<html>".into(),
        ("catalog", _) => json!({"schemas": [{"name": name, "description": "", "fileMatch": ["a.toml"],
            "url": "https://h.example/z.json"}]}).to_string(),
        _ => json!({"type": "object", "title": name}).to_string(),
    }
}

fn version(debug: &str) -> i64 {
    debug.split("published-").nth(1).and_then(|s| s.split('-').next()).and_then(|s| s.parse().ok()).unwrap_or(-2)
}

fn options(name: &str, ttl: u64) -> tombi_schema_store::Options {
    let off = matches!(name, "offline" | "offnocache");
    tombi_schema_store::Options {
        strict: None,
        offline: off.then_some(true),
        cache: Some(tombi_cache::Options {
            no_cache: matches!(name, "nocache" | "offnocache").then_some(true),
            cache_ttl: (name != "eternal").then(|| Duration::from_secs(ttl * DAY + DAY / 2)),
        }),
    }
}

fn files_below(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.path().is_dir() { files_below(&e.path(), out) } else { out.push(e.path()) }
    }
}

/// Cache files of this behaviour's hosts.
fn entries(ctx: &Ctx, host: &str) -> Vec<PathBuf> {
    let mut out = vec![];
    for scheme in ["http", "https"] {
        for e in std::fs::read_dir(ctx.scratch.join("cache").join(scheme)).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().contains(host) {
                files_below(&e.path(), &mut out);
            }
        }
    }
    out
}

fn set_mtime(p: &Path, t: SystemTime) {
    std::fs::File::options().write(true).open(p).unwrap().set_modified(t).unwrap();
}

static HOST: AtomicU64 = AtomicU64::new(0);
/// A refresh empties the cache of everybody.
static REFRESH: RwLock<()> = RwLock::new(());

async fn load(store: &SchemaStore, kind: &str, url: &str) -> i64 {
    match kind {
        "catalog" => {
            let uri = tombi_schema_store::CatalogUri::from_str(url).unwrap();
            match store.load_catalog_from_uri(&uri).await {
                Ok(Some(c)) => version(&c.schemas[0].name),
                Ok(None) => -1,
                Err(_) => 0,
            }
        }
        _ => {
            let uri = tombi_schema_store::SchemaUri::from_str(url).unwrap();
            match store.try_get_document_schema(&uri).await {
                Ok(Some(s)) => version(&format!("{:?}", s.schema_view)),
                Ok(None) => -1,
                Err(_) => 0,
            }
        }
    }
}

pub fn check(v: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let ops = v["ops"].as_array().unwrap();
    let kind = v["kind"].as_str().unwrap();
    let ttl = v["ttl"].as_u64().unwrap();
    let refreshes = ops.iter().any(|o| o["op"] == "refresh");
    let (_shared, _alone) = if refreshes { (None, Some(REFRESH.write().unwrap())) } else { (Some(REFRESH.read().unwrap()), None) };
    let story: String = ops.iter().map(|o| {
        let op = o["op"].as_str().unwrap();
        format!("{op}{}{} ", o["url"].as_str().map(|u| format!("-{u}")).unwrap_or_default(),
            o["opts"].as_str().map(|u| format!("-{u}+{}", o["days"])).unwrap_or_default())
    }).collect();
    let story = format!("{kind}:{}: {}", v["opts"].as_str().unwrap(), story.trim());
    out.nontrivial.push(story.clone());
    let mut rng = Rng::new(ctx.seed, &story);
    let pairs: Vec<usize> = if ctx.thorough && ops.len() < 5 { (0..PAIRS.len()).collect() } else { vec![rng.below(PAIRS.len())] };
    for p in pairs {
        let host = format!("h{}.example", HOST.fetch_add(1, Ordering::SeqCst));
        let urls: HashMap<&str, String> =
            HashMap::from([("a", PAIRS[p].0.replace('H', &host)), ("b", PAIRS[p].1.replace('H', &host))]);
        let network = Arc::new(Network::default());
        let publish = |u: &str, n: u64| network.published.lock().unwrap().insert(urls[u].clone(), body(kind, if n > 0 && u == "b" { n + 100 } else { n }));
        publish("a", 1);
        publish("b", 1);
        let process = |opts: &str| SchemaStore::new_with_options_and_http_client(options(opts, ttl), Arc::new(Client(network.clone())));
        let mut store = process(v["opts"].as_str().unwrap());
        let start = SystemTime::now();
        let trouble = block_on(async {
            for (i, op) in ops.iter().enumerate() {
                let url = op["url"].as_str().map(|u| urls[u].clone()).unwrap_or_default();
                match op["op"].as_str().unwrap() {
                    "load" => {
                        out.evals += 1;
                        let got = load(&store, kind, &url).await;
                        let asked = network.asked.load(Ordering::SeqCst);
                        let want = op["got"].as_i64().unwrap();
                        let want = if want > 0 && op["url"] == "b" { want + 100 } else { want };
                        let (want, requests) = (want, op["asked"].as_u64().unwrap());
                        if got != want || asked != requests {
                            return Some(format!("step {}: {url} gives {got} after {asked} requests, \
                                should be {want} after {requests} (n: version, 0: error, -1: nothing); {urls:?}", i + 1));
                        }
                    }
                    "other" => {
                        // counted neither for nor against the process
                        let before = network.asked.load(Ordering::SeqCst);
                        let known = entries(ctx, &host);
                        let times: HashMap<PathBuf, SystemTime> = known.iter()
                            .map(|p| (p.clone(), p.metadata().unwrap().modified().unwrap())).collect();
                        load(&process("nocache"), kind, &url).await;
                        network.asked.store(before, Ordering::SeqCst);
                        for p in entries(ctx, &host) {
                            let now = p.metadata().unwrap().modified().unwrap();
                            if times.get(&p) != Some(&now) {
                                set_mtime(&p, start - Duration::from_secs(100) + Duration::from_secs(i as u64));
                            }
                        }
                    }
                    "tear" => {
                        let Some(p) = tombi_cache::get_cache_file_path(&tombi_uri::Uri::from_str(&url).unwrap()).await
                            .filter(|p| p.is_file()) else {
                            return Some(format!("step {}: {url} is not in the cache", i + 1));
                        };
                        let time = p.metadata().unwrap().modified().unwrap();
                        let text = std::fs::read(&p).unwrap();
                        std::fs::write(&p, &text[..text.len() / 2]).unwrap();
                        set_mtime(&p, time);
                    }
                    "publish" => {
                        publish(op["url"].as_str().unwrap(), op["v"].as_u64().unwrap());
                    }
                    "toggle" => {
                        let mut down = network.down.lock().unwrap();
                        *down = !*down;
                    }
                    "restart" => {
                        store = process(op["opts"].as_str().unwrap());
                        for p in entries(ctx, &host) {
                            let time = p.metadata().unwrap().modified().unwrap();
                            set_mtime(&p, time - Duration::from_secs(DAY * op["days"].as_u64().unwrap()));
                        }
                    }
                    "refresh" => {
                        let config: tombi_config::Config =
                            serde_json::from_value(json!({"schema": {"enabled": false}})).unwrap();
                        match store.refresh_cache(&config, None).await {
                            Ok(true) => {}
                            other => return Some(format!("step {}: refresh_cache gives {other:?}", i + 1)),
                        }
                        let left = entries(ctx, &host);
                        if !left.is_empty() {
                            return Some(format!("step {}: {left:?} survive refresh_cache", i + 1));
                        }
                    }
                    other => panic!("unknown operation {other}"),
                }
            }
            None
        });
        if let Some(what) = trouble {
            out.fail(format!("cache:{story}"), what, json!({"vector": v, "urls": urls}));
        }
        for scheme in ["http", "https"] {
            for e in std::fs::read_dir(ctx.scratch.join("cache").join(scheme)).into_iter().flatten().flatten() {
                if e.file_name().to_string_lossy().contains(&host) {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
    out.count(&format!("opts_{}", v["opts"].as_str().unwrap()));
    out.sample = Some(json!({"kind": kind, "ops": ops}));
    out
}
