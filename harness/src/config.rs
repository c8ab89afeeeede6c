//! C15, C19: replay of ConfigSearch.tla and Overrides.tla.

use crate::cli::{NOBODY, run, tail};
use crate::common::*;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use tombi_config::TomlVersion;

fn put(p: &Path, text: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}

fn give(p: &Path) {
    let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
    if p.is_dir() {
        for e in std::fs::read_dir(p).unwrap().flatten() {
            give(&e.path());
        }
    }
}

fn own_dir(ctx: &Ctx, what: &str) -> PathBuf {
    let d = ctx.scratch.join(format!("{what}-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

// ------------------------------------------------------------------ search
/// The environment belongs to the whole process.
static ENVIRONMENT: Mutex<()> = Mutex::new(());

pub fn search(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 1, ..Default::default() };
    let disk = strs(&vector["disk"]);
    let levels = vector["levels"].as_u64().unwrap() as usize;
    let start = vector["start"].as_u64().unwrap() as usize;
    let used = vector["used"].as_u64().unwrap() as usize;
    let tree = own_dir(ctx, "search");
    let user = tree.join("user");
    // level 1 is the deepest directory
    let dir = |level: usize| {
        let mut d = tree.join("top");
        for n in 0..levels - level {
            d.push(format!("d{n}"));
        }
        d
    };
    std::fs::create_dir_all(dir(1)).unwrap();
    let place = |i: usize| -> (PathBuf, bool) {
        if i < 4 * levels {
            let d = dir(i / 4 + 1);
            match i % 4 {
                0 => (d.join(".tombi.toml"), false),
                1 => (d.join("tombi.toml"), false),
                2 => (d.join(".config/tombi.toml"), false),
                _ => (d.join("pyproject.toml"), true),
            }
        } else if i == 4 * levels {
            (user.join("xdg/tombi/config.toml"), false)
        } else {
            (user.join("home/.config/tombi/config.toml"), false)
        }
    };
    for (i, c) in disk.iter().enumerate() {
        let (p, py) = place(i);
        let n = i + 1;
        let sect = if py { "[tool.tombi.format.rules]\n" } else { "[format.rules]\n" };
        let name = if py { "[project]\nname = \"p\"\n" } else { "" };
        let text = match c.as_str() {
            "absent" => continue,
            "dir" => {
                std::fs::create_dir_all(&p).unwrap();
                continue;
            }
            "valid" => format!("{name}{sect}indent-width = {n}\n"),
            "empty" => if py { "[tool.tombi]\n".into() } else { String::new() },
            "broken" => format!("{name}{sect}indent-width = {n}\n= =\n"),
            "badkey" => format!("{name}{sect}indent-width = {n}\nno-such-rule = 1\n"),
            "badtype" => format!("{name}{sect}indent-width = \"{n}\"\n"),
            "notool" => "[project]\nname = \"p\"\n".into(),
            "othertool" => "[tool.other]\nindent-width = 1\n[tool.ruff]\n".into(),
            _ => panic!("unknown content {c}"),
        };
        put(&p, &text);
    }
    let from = dir(start);
    let story = {
        let l: Vec<_> = disk.iter().enumerate().filter(|(_, c)| *c != "absent")
            .map(|(i, c)| format!("{}: {c}", place(i).0.strip_prefix(&tree).unwrap().display())).collect();
        format!("from {} with {}", from.strip_prefix(&tree).unwrap().display(), l.join(", "))
    };
    out.nontrivial.push(story.clone());
    let want_path = (used != 0).then(|| place(used - 1).0);
    let want_width = (used != 0 && disk[used - 1] == "valid").then_some(used as u64);
    let slot = if used == 0 { "none".into() } else {
        place(used - 1).0.file_name().unwrap().to_string_lossy().into_owned()
    };
    let got = {
        let _guard = ENVIRONMENT.lock().unwrap_or_else(|e| e.into_inner());
        let before = (std::env::var_os("HOME"), std::env::var_os("XDG_CONFIG_HOME"));
        unsafe {
            std::env::set_var("HOME", user.join("home"));
            std::env::set_var("XDG_CONFIG_HOME", user.join("xdg"));
        }
        let got = catch(|| serde_tombi::config::load_with_path_and_level(Some(from.clone())));
        for (k, v) in [("HOME", before.0), ("XDG_CONFIG_HOME", before.1)] {
            unsafe {
                match v {
                    Some(v) => std::env::set_var(k, v),
                    None => std::env::remove_var(k),
                }
            }
        }
        got
    };
    match got {
        Err(p) => out.fail("search:panic", format!("[{story}] panics: {p}"), vector.clone()),
        Ok(Err(e)) => out.fail("search:error", format!("[{story}] fails: {e}"), vector.clone()),
        Ok(Ok((config, path, level))) => {
            let width = serde_json::to_value(&config).unwrap()["format"]["rules"]["indent-width"].as_u64();
            let want_level = match used {
                0 => "Default",
                u if u > 4 * levels => "User",
                _ => "Project",
            };
            if path != want_path {
                out.fail(format!("search:path:{slot}"),
                    format!("[{story}] uses {path:?} instead of {want_path:?}"), vector.clone());
            } else if width != want_width {
                out.fail(format!("search:content:{slot}"),
                    format!("[{story}] reads indent-width {width:?} instead of {want_width:?}"), vector.clone());
            }
            if format!("{level:?}") != want_level {
                out.fail(format!("search:level:{slot}"),
                    format!("[{story}] says {level:?} instead of {want_level}"), vector.clone());
            }
        }
    }
    // the program as a whole
    let mut rng = Rng::new(ctx.seed, &story);
    if rng.below(if ctx.thorough { 8 } else { 12 }) == 0 {
        give(&tree);
        let file = from.join("f.toml");
        put(&file, "a = [1, # c\n]\n");
        let _ = std::os::unix::fs::chown(&file, Some(NOBODY), Some(NOBODY));
        let mine = Ctx { seed: ctx.seed, thorough: ctx.thorough, scratch: user.clone() };
        let by_name = rng.below(2) == 0;
        let args: Vec<String> = if by_name {
            vec!["format".into(), "--offline".into(), "f.toml".into()]
        } else {
            vec!["format".into(), "--offline".into(), "-".into()]
        };
        let o = run(&from, &args, false, (!by_name).then_some(b"a = [1, # c\n]\n"), &mine).expect("cannot run tombi");
        let text = if by_name { std::fs::read_to_string(&file).unwrap() } else { String::from_utf8_lossy(&o.stdout).into() };
        let want = format!("a = [\n{}1,  # c\n]\n", " ".repeat(want_width.unwrap_or(2) as usize));
        out.evals += 1;
        if text != want || !o.status.success() {
            out.fail(format!("search:cli:{slot}"),
                format!("[{story}] tombi {} gives {text:?} instead of {want:?}: {}", args.join(" "),
                    tail(&String::from_utf8_lossy(&o.stderr))), vector.clone());
        }
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"search": story, "used": slot}));
    }
    out
}

// --------------------------------------------------------------- overrides
/// Three different values of each rule: of the configuration, of the override.
fn rule_values(rule: &str) -> [Value; 2] {
    match rule {
        "array-bracket-space-width" => [json!(1), json!(2)],
        "array-comma-space-width" => [json!(2), json!(0)],
        "comment-style" => [json!("preserve"), json!("normalize")],
        "date-time-delimiter" => [json!("space"), json!("preserve")],
        "group-blank-lines-limit" => [json!(2), json!(3)],
        "indent-style" => [json!("tab"), json!("space")],
        "indent-sub-tables" => [json!(true), json!(false)],
        "indent-table-key-value-pairs" => [json!(true), json!(false)],
        "indent-width" => [json!(3), json!(5)],
        "inline-table-brace-space-width" => [json!(0), json!(2)],
        "inline-table-comma-space-width" => [json!(2), json!(0)],
        "key-quote-style" => [json!("single"), json!("preserve")],
        "key-value-equals-sign-alignment" => [json!(true), json!(false)],
        "key-value-equals-sign-space-width" => [json!(0), json!(2)],
        "line-ending" => [json!("crlf"), json!("auto")],
        "line-width" => [json!(40), json!(20)],
        "string-quote-style" => [json!("single"), json!("preserve")],
        "table-blank-lines" => [json!(2), json!(0)],
        "trailing-comment-alignment" => [json!(true), json!(false)],
        "trailing-comment-space-width" => [json!(3), json!(1)],
        "key-empty" => [json!("error"), json!("off")],
        "dotted-keys-out-of-order" => [json!("off"), json!("error")],
        "tables-out-of-order" => [json!("error"), json!("off")],
        _ => panic!("unknown rule {rule}"),
    }
}

const SAMPLE: &str = "\"a.b\" = [1,[2,{x=1,y=\"q\"}]]#c\nlong = 1979-05-27t07:32:00Z  #  d\n\n\n\n\n\nw = ['one', 'two', 'three', 'four']\n[t]\n'k l' = [\n1, # e\n]\n[t.u]\nv = 1\n#f\n[z]\n";
const FAULTS: &str = "\"\" = 1\na.b = 1\nc = 2\na.d = 3\n\n[x]\n\n[y]\n\n[x.z]\n";

fn toml_of(v: &Value) -> String {
    match v {
        Value::String(s) => format!("\"{s}\""),
        _ => v.to_string(),
    }
}

pub fn overrides(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 1, ..Default::default() };
    let feature = vector["feature"].as_str().unwrap();
    let place = vector["place"].as_str().unwrap();
    let file = strs(&vector["file"]).join("/");
    let answer = &vector["answer"];
    let pre = if place == "pyproject" { "tool.tombi." } else { "" };
    let list = |v: &Value| format!("[{}]", strs(v).iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", "));
    let mut text = if place == "pyproject" { "[tool.tombi]\n".to_string() } else { String::new() };
    if !strs(&vector["base"]).is_empty() {
        text.push_str(&format!("[{pre}{feature}.rules]\n"));
        for k in strs(&vector["base"]) {
            text.push_str(&format!("{k} = {}\n", toml_of(&rule_values(&k)[0])));
        }
    }
    for o in vector["ovs"].as_array().unwrap() {
        text.push_str(&format!("[[{pre}overrides]]\nfiles.include = {}\n", list(&o["inc"])));
        if !strs(&o["exc"]).is_empty() {
            text.push_str(&format!("files.exclude = {}\n", list(&o["exc"])));
        }
        if o["says"] == true {
            text.push_str(&format!("[{pre}overrides.{feature}]\n"));
            if o["enabled"] != "-" {
                text.push_str(&format!("enabled = {}\n", o["enabled"].as_str().unwrap()));
            }
            let keys = strs(&o["keys"]);
            if !keys.is_empty() {
                text.push_str(&format!("[{pre}overrides.{feature}.rules]\n"));
            }
            for k in keys {
                text.push_str(&format!("{k} = {}\n", toml_of(&rule_values(&k)[1])));
            }
        }
    }
    let tree = own_dir(ctx, "overrides");
    let config_path = tree.join(match place {
        "tombi" => "tombi.toml",
        "dottombi" => ".tombi.toml",
        "dotconfig" => ".config/tombi.toml",
        _ => "pyproject.toml",
    });
    let path = tree.join(&file);
    put(&config_path, &text);
    let sample = if feature == "lint" { FAULTS } else { SAMPLE };
    put(&path, sample);
    let story = format!("{file} with {}: {}", config_path.strip_prefix(&tree).unwrap().display(), text.replace('\n', "; "));
    out.nontrivial.push(story.clone());

    let mut rules = serde_json::Map::new();
    for (which, i) in [("base", 0), ("over", 1)] {
        for k in strs(&answer[which]) {
            rules.insert(k.clone(), rule_values(&k)[i].clone());
        }
    }
    let want = (answer["on"] == true).then(|| Value::Object(rules));
    let loaded = catch(|| serde_tombi::config::try_from_path(&config_path));
    let config = match loaded {
        Ok(Ok(Some(c))) => c,
        other => {
            out.fail("overrides:config", format!("[{story}] is not read: {:?}", other.map(|r| r.map(|_| ()))), vector.clone());
            return out;
        }
    };
    let strip = |v: Value| -> Value {
        match v["rules"].clone() {
            Value::Object(m) => Value::Object(m.into_iter().filter(|(_, v)| !v.is_null()).collect()),
            _ => json!({}),
        }
    };
    let got = if feature == "lint" {
        tombi_glob::get_lint_options(&config, Some(&path), Some(&config_path)).map(|o| strip(serde_json::to_value(o).unwrap()))
    } else {
        tombi_glob::get_format_options(&config, Some(&path), Some(&config_path)).map(|o| strip(serde_json::to_value(o).unwrap()))
    };
    if got != want {
        let what = match (&got, &want) {
            (Some(g), Some(w)) => {
                let (g, w) = (g.as_object().unwrap(), w.as_object().unwrap());
                g.keys().chain(w.keys()).find(|k| g.get(*k) != w.get(*k)).cloned().unwrap_or_default()
            }
            _ => "enabled".into(),
        };
        let show = |v: &Option<Value>| v.as_ref().map_or("nothing".to_string(), |v| v.to_string());
        out.fail(format!("overrides:{feature}:{what}"),
            format!("[{story}] gives {} instead of {}", show(&got), show(&want)), vector.clone());
    }
    // the program as a whole
    let mut rng = Rng::new(ctx.seed, &story);
    if rng.below(if ctx.thorough { 8 } else { 16 }) == 0 {
        give(&tree);
        out.evals += 1;
        let by_name = rng.below(2) == 0;
        let mut args = vec![feature.to_string(), "--offline".into()];
        if by_name {
            args.push(file.clone());
        } else {
            args.extend(["-".into(), "--stdin-filename".into(), file.clone()]);
        }
        let o = run(&tree, &args, false, (!by_name).then_some(sample.as_bytes()), ctx).expect("cannot run tombi");
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        if feature == "format" {
            let text = if by_name { std::fs::read_to_string(&path).unwrap() } else { String::from_utf8_lossy(&o.stdout).into() };
            let want = match &want {
                None => sample.to_string(),
                Some(r) => crate::layout::format(sample, TomlVersion::V1_0_0, r).unwrap_or_default(),
            };
            if text != want {
                out.fail("overrides:cli:format",
                    format!("[{story}] tombi {} gives {text:?} instead of {want:?}: {}", args.join(" "), tail(&err)), vector.clone());
            }
        } else {
            let say = format!("{err}{}", String::from_utf8_lossy(&o.stdout));
            let mut expected = vec![];
            for (rule, default, message) in [
                ("key-empty", "warn", "an empty key is discouraged"),
                ("dotted-keys-out-of-order", "warn", "defining dotted keys out-of-order"),
                ("tables-out-of-order", "warn", "defining tables out-of-order"),
            ] {
                let level = want.as_ref().map_or("off", |w| w[rule].as_str().unwrap_or(default));
                expected.push((rule, level, message));
            }
            // an error of the first stage ends the linting
            if expected[1..].iter().any(|e| e.1 == "error") {
                expected.remove(0);
            }
            for (rule, level, message) in expected {
                let got = say.lines().find(|l| l.contains(message)).map(|l| l.trim_start());
                let fine = match level {
                    "off" => got.is_none(),
                    "warn" => got.is_some_and(|l| l.starts_with("Warning")),
                    _ => got.is_some_and(|l| l.starts_with("Error")),
                };
                if !fine {
                    out.fail(format!("overrides:cli:lint:{rule}"),
                        format!("[{story}] tombi {} says {got:?} although {rule} is {level}", args.join(" ")), vector.clone());
                }
            }
        }
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"overrides": story}));
    }
    out
}
