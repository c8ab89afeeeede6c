use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::io::BufRead;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub scratch: PathBuf,
}

#[derive(Default)]
pub struct Outcome {
    /// executions of the real code
    pub evals: u64,
    /// identity of the distinct non-trivial cases covered by this vector
    pub nontrivial: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub sample: Option<Value>,
}

pub struct Violation {
    /// stable identity, used to match known findings
    pub key: String,
    pub what: String,
    pub replay: Value,
}

impl Outcome {
    pub fn count(&mut self, name: &str) {
        *self.counters.entry(name.to_string()).or_default() += 1;
    }
    pub fn fail(&mut self, key: impl Into<String>, what: impl Into<String>, replay: Value) {
        self.violations.push(Violation { key: key.into(), what: what.into(), replay });
    }
}

pub type Handler = fn(&Value, &Ctx) -> Outcome;

thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Run a future on this thread's own current-thread runtime.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let rt = RT.with(|c| c.borrow_mut().take()).unwrap_or_else(|| {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    });
    let r = rt.block_on(f);
    RT.with(|c| *c.borrow_mut() = Some(rt));
    r
}

/// Run `f`; a panic of the code under test is data.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|c| *c.borrow_mut() = None);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|c| c.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())
    })
}

pub fn setup_environment(scratch: &Path) {
    let cache = scratch.join("cache");
    let api = cache.join("https/www.schemastore.org/api/json");
    std::fs::create_dir_all(&api).unwrap();
    std::fs::write(api.join("catalog.json"), "{\"schemas\":[]}").unwrap();
    let cwd = scratch.join("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    std::fs::create_dir_all(scratch.join("home")).unwrap();
    std::fs::create_dir_all(scratch.join("xdg")).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    // single threaded here
    unsafe {
        std::env::set_var("TOMBI_CACHE_HOME", &cache);
        std::env::set_var("TOMBI_OFFLINE", "true");
        std::env::set_var("HOME", scratch.join("home"));
        std::env::set_var("XDG_CONFIG_HOME", scratch.join("xdg"));
        std::env::set_var("NO_COLOR", "1");
        std::env::remove_var("TOMBI_CACHE_TTL");
        std::env::remove_var("TOMBI_NO_CACHE");
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|c| *c.borrow_mut() = Some(format!("{loc}: {msg}")));
    }));
}

pub fn run_parallel(input: &str, threads: usize, ctx: &Ctx, handler: Handler) -> Value {
    let file = std::fs::File::open(input).expect("open vectors");
    let lines: Vec<String> = std::io::BufReader::new(file)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .collect();
    let next = AtomicUsize::new(0);
    let chunk = (lines.len() / (threads * 8)).clamp(1, 64);
    struct Acc {
        evals: u64,
        nontrivial: HashSet<String>,
        counters: BTreeMap<String, u64>,
        violations: Vec<Value>,
        per_key: BTreeMap<String, u64>,
        violation_count: u64,
        samples: Vec<Value>,
    }
    let acc = Mutex::new(Acc {
        evals: 0,
        nontrivial: HashSet::new(),
        counters: BTreeMap::new(),
        violations: vec![],
        per_key: BTreeMap::new(),
        violation_count: 0,
        samples: vec![],
    });
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let start = next.fetch_add(chunk, Ordering::Relaxed);
                    if start >= lines.len() {
                        break;
                    }
                    for i in start..(start + chunk).min(lines.len()) {
                        let v: Value = serde_json::from_str(&lines[i])
                            .unwrap_or_else(|e| panic!("bad vector line {i}: {e}"));
                        let out = match catch(|| handler(&v, ctx)) {
                            Ok(o) => o,
                            Err(p) => {
                                let mut o = Outcome { evals: 1, ..Default::default() };
                                let loc = p.split(": ").next().unwrap_or("").to_string();
                                let loc = loc.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or(loc);
                                o.fail(format!("panic:{loc}"), format!("panic {p}"), v.clone());
                                o
                            }
                        };
                        let mut a = acc.lock().unwrap();
                        a.evals += out.evals;
                        a.nontrivial.extend(out.nontrivial);
                        for (k, n) in out.counters {
                            *a.counters.entry(k).or_default() += n;
                        }
                        for viol in out.violations {
                            a.violation_count += 1;
                            let n = a.per_key.entry(viol.key.clone()).or_default();
                            *n += 1;
                            if *n <= 5 {
                                let value = json!({"key": viol.key, "what": viol.what, "line": i, "replay": viol.replay});
                                a.violations.push(value);
                            }
                        }
                        if let Some(sample) = out.sample
                            && a.samples.len() < 400
                        {
                            a.samples.push(sample);
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut a = acc.into_inner().unwrap();
    a.violations.sort_by_key(|v| (v["key"].as_str().unwrap_or("").to_string(), v["line"].as_u64()));
    // a few samples spread over the run, chosen by the seed
    let mut samples = vec![];
    if !a.samples.is_empty() {
        let n = a.samples.len();
        for k in 0..5usize {
            samples.push(a.samples[(ctx.seed as usize * 7919 + k * (n / 5 + 1)) % n].clone());
        }
    }
    let counters: Map<String, Value> = a.counters.into_iter().map(|(k, v)| (k, json!(v))).collect();
    let per_key: Map<String, Value> = a.per_key.into_iter().map(|(k, v)| (k, json!(v))).collect();
    json!({
        "vectors": lines.len(),
        "evaluations": a.evals,
        "distinct_nontrivial": a.nontrivial.len(),
        "counters": counters,
        "violation_count": a.violation_count,
        "violations_per_key": per_key,
        "violations": a.violations,
        "samples": samples,
    })
}

/// Small deterministic generator (splitmix64) for choices that are spellings,
/// not verdicts.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: &str) -> Self {
        let mut h = seed ^ 0x9E37_79B9_7F4A_7C15;
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
        }
        Rng(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

/// An HTTP client without a network (building the real one reads every
/// certificate of the system).
#[derive(Debug)]
pub struct NoNetwork;

impl tombi_schema_store::HttpClient for NoNetwork {
    fn get_bytes<'a>(
        &'a self,
        _url: &'a str,
    ) -> tombi_schema_store::HttpFuture<'a, Result<bytes::Bytes, tombi_schema_store::FetchError>> {
        Box::pin(async { Err(tombi_schema_store::FetchError::StatusNotOk { status: 404 }) })
    }
}

pub fn offline_store() -> tombi_schema_store::SchemaStore {
    tombi_schema_store::SchemaStore::new_with_options_and_http_client(
        tombi_schema_store::Options { strict: None, offline: Some(true), cache: None },
        std::sync::Arc::new(NoNetwork),
    )
}
