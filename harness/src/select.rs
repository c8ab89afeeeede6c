//! C16: replay of FileSelect.tla against the real command line program.

use crate::cli::{count, run, tail, NOBODY};
use crate::common::*;
use serde_json::{Value, json};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};

const FILES: &[&str] = &[
    "P/a.toml", "P/c.toml", "P/b.txt", "P/sub/a.toml", "P/sub/c.toml", "P/sub/deep/a.toml",
    "P/sub/vendor/a.toml", "P/vendor/a.toml", "P/.hid/a.toml", "P/.git/a.toml", "P/d.toml/a.toml",
    "O/x.toml", "O/a.toml",
];
const UNFORMATTED: &str = "a   =  [1,2]\n";

/// The ignore files by the name of the setup in the specification.
fn ignore_files(setup: &str) -> &'static [(&'static str, &'static str)] {
    match setup {
        "git" => &[("P/.gitignore", "vendor\n")],
        "gitdir" => &[("P/.gitignore", "# the top one only\n/vendor/\n")],
        "gitfile" => &[("P/.gitignore", "a.toml\n!/sub/a.toml\n")],
        "gitdirfile" => &[("P/.gitignore", "a.toml/\ndeep/\n")],
        "nested" => &[("P/.gitignore", "c.toml\n"), ("P/sub/.gitignore", "!c.toml\ndeep\n")],
        "ignore" => &[("P/.ignore", "/sub/deep\n")],
        "ignorewins" => &[("P/.ignore", "!a.toml\n"), ("P/.gitignore", "*.toml\n")],
        "exclude" => &[("P/.git/info/exclude", "c.toml\n")],
        "hid" => &[("P/.gitignore", "/.hid\nsub/c.toml\n")],
        _ => &[],
    }
}

fn path_of(v: &Value) -> String {
    strs(v).join("/")
}

/// `path` (below the scratch tree) written in one of the ways a user may write it.
fn spell(tree: &Path, cwd: &str, path: &str, dir: bool, way: u64) -> String {
    // relative to the working directory
    let rel = {
        let c: Vec<_> = cwd.split('/').collect();
        let p: Vec<_> = path.split('/').collect();
        let n = c.iter().zip(&p).take_while(|(a, b)| a == b).count();
        let mut r = vec![".."; c.len() - n];
        r.extend(&p[n..]);
        if r.is_empty() { ".".to_string() } else { r.join("/") }
    };
    let s = match way % 5 {
        0 | 1 => rel,
        2 => format!("./{rel}"),
        3 => tree.join(path).to_string_lossy().into_owned(),
        _ => format!("{}/../{rel}", if cwd == "P" { "sub" } else { "deep" }),
    };
    if dir && way % 2 == 1 { format!("{s}/") } else { s }
}

fn quoted(v: &Value) -> String {
    format!("[{}]", strs(v).iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", "))
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 1, ..Default::default() };
    let cfg = &vector["cfg"];
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (vector.to_string(), ctx.seed).hash(&mut h);
    let mut dice = h.finish();
    let mut roll = move |n: u64| {
        dice = dice.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (dice >> 33) % n
    };

    let tree: PathBuf = ctx.scratch.join(format!("sel-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&tree);
    let put = |p: &str, text: &str| {
        let p = tree.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, text).unwrap();
    };
    let lint = roll(4) == 0 && cfg["ignore"] != "gitfile";
    for f in FILES {
        put(f, UNFORMATTED);
    }
    let is = |v: &Value| strs(v) != ["-"];
    let mut conf = String::new();
    if cfg["config"] == true {
        conf.push_str("[schema]\ncatalog   =  { paths = [] }\n");
        if is(&cfg["include"]) || is(&cfg["exclude"]) || cfg["respect"] == false {
            conf.push_str("[files]\n");
        }
        if is(&cfg["include"]) {
            conf.push_str(&format!("include = {}\n", quoted(&cfg["include"])));
        }
        if is(&cfg["exclude"]) {
            conf.push_str(&format!("exclude = {}\n", quoted(&cfg["exclude"])));
        }
        if cfg["respect"] == false {
            conf.push_str("respect-ignore-files = false\n");
        }
        put("P/tombi.toml", &conf);
    }
    for (p, text) in ignore_files(cfg["ignore"].as_str().unwrap()) {
        put(p, text);
    }
    let _ = std::os::unix::fs::symlink(tree.join("O"), tree.join("P/lnk"));
    let _ = std::os::unix::fs::symlink("../O/x.toml", tree.join("P/lnk.toml"));
    give(&tree);

    let cwd = path_of(&cfg["cwd"]);
    let mut args: Vec<String> = vec![if lint { "lint".into() } else { "format".into() }, "--offline".into()];
    for a in vector["args"].as_array().unwrap() {
        let kind = a["kind"].as_str().unwrap();
        args.push(match kind {
            "glob" => a["glob"].as_str().unwrap().to_string(),
            _ => spell(&tree, &cwd, &path_of(&a["path"]), kind == "dir", roll(10)),
        });
    }
    let story = format!("in {cwd}: tombi {} with {} {}", args.join(" ").replace(&*tree.to_string_lossy(), "/T"),
        cfg["ignore"].as_str().unwrap(), conf.replace('\n', " "));
    out.nontrivial.push(vector.to_string());
    let o = run(&tree.join(&cwd), &args, false, None, ctx).expect("cannot run tombi as nobody");
    let stderr = String::from_utf8_lossy(&o.stderr).into_owned();
    let kinds = || vector["args"].as_array().unwrap().iter().map(|a| a["kind"].as_str().unwrap()).collect::<Vec<_>>().join("+");
    let found: Vec<String> = vector["found"].as_array().unwrap().iter().map(path_of).collect();
    let failed = vector["failed"].as_u64().unwrap();
    let skipped = vector["skipped"].as_u64().unwrap();
    let (n, f) = if lint {
        (count(&stderr, "file linted successfully", "files linted successfully"),
         count(&stderr, "file failed to be linted", "files failed to be linted"))
    } else {
        (count(&stderr, "file formatted", "files formatted"),
         count(&stderr, "file failed to be formatted", "files failed to be formatted"))
    };
    let mut all: Vec<(&str, &str)> = FILES.iter().map(|f| (*f, UNFORMATTED)).collect();
    if cfg["config"] == true {
        all.push(("P/tombi.toml", &conf));
    }
    all.extend(ignore_files(cfg["ignore"].as_str().unwrap()));
    let (mut extra, mut missed) = (vec![], vec![]);
    for (p, before) in all {
        let now = std::fs::read_to_string(tree.join(p)).unwrap_or_default();
        let want = !lint && found.iter().any(|f| f == p);
        if now != before && !want {
            extra.push(p);
        } else if now == before && want {
            missed.push(p);
        }
    }
    let mut worked = found.len() as u64;
    // a known finding (known-findings.txt): nothing but this is excused
    if cfg["ignore"] == "gitfile" && !extra.is_empty()
        && extra.iter().all(|p| matches!(*p, "P/sub/deep/a.toml" | "P/sub/vendor/a.toml"))
    {
        out.fail("ignored-below",
            format!("[{story}] changes {}, which P/.gitignore (a.toml, !/sub/a.toml) ignores", extra.join(" ")),
            vector.clone());
        worked += extra.len() as u64;
        extra.clear();
    }
    for (how, l) in [("extra", extra), ("missed", missed)] {
        for p in l {
            out.fail(format!("touched:{how}:{}:{p}", kinds()),
                format!("[{story}] {} {p}: {}", if how == "extra" { "changes" } else { "leaves out" }, tail(&stderr)),
                vector.clone());
        }
    }
    for (what, want, got) in [("worked", worked, n), ("failed", failed, f),
                              ("skipped", skipped, count(&stderr, "file skipped", "files skipped"))] {
        if want != got {
            out.fail(format!("count:{what}:{}:{}", args[0], kinds()),
                format!("[{story}] reports {got} files {what} instead of {want}: {}", tail(&stderr)), vector.clone());
        }
    }
    if o.status.success() != (failed == 0) {
        out.fail(format!("exit:{}:{}", args[0], kinds()),
            format!("[{story}] ends with {} although {failed} failed: {}", o.status, tail(&stderr)), vector.clone());
    }
    // the editor asks about one file at a time
    if cfg["config"] == true && !strs(&cfg["include"]).is_empty() {
        let conf_path = tree.join("P/tombi.toml");
        let config = serde_tombi::config::from_str(&conf, &conf_path).expect("the configuration");
        let covered: Vec<String> = vector["covered"].as_array().unwrap().iter().map(path_of).collect();
        for p in FILES.iter().filter(|p| p.starts_with("P/")) {
            let got = tombi_glob::matches_file_patterns(&tree.join(p), Some(&conf_path), &config);
            if (got == tombi_glob::MatchResult::Matched) != covered.iter().any(|c| c == p) {
                out.fail(format!("editor:{p}"),
                    format!("[{}] the editor's answer for {p} is {got:?}", conf.replace('\n', " ")), vector.clone());
            }
        }
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"run": story, "files": found}));
    }
    out
}

/// Hand the tree to the user the program runs as.
pub fn give(p: &Path) {
    let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
    if p.symlink_metadata().is_ok_and(|m| m.is_dir()) {
        for e in std::fs::read_dir(p).unwrap().flatten() {
            give(&e.path());
        }
    }
}
