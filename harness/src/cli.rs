//! C17: replay of CliBatch.tla against the real command line program.

use crate::common::*;
use serde_json::{Value, json};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub const NOBODY: u32 = 65534;
/// longest text that can be written when the "disk is full"
const LIMIT: u64 = 4096;

pub fn tombi() -> &'static Path {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| std::env::current_exe().unwrap().with_file_name("tombi"))
}

fn text_of(kind: &str, i: usize) -> Option<Vec<u8>> {
    let long_line = |spaced: bool| {
        let mut s = String::new();
        for n in 0..560 {
            s.push_str(&if spaced { format!("k{n} = {i}\n") } else { format!("k{n}={i}\n") });
        }
        s
    };
    Some(match kind {
        "unf" => format!("a={i}\n\n\n\nb  =   [1,2]\n").into_bytes(),
        "ro" => format!("a={i}\n").into_bytes(),
        // the text itself can be written, the formatted text is too long
        "big" => long_line(false).into_bytes(),
        "ok" | "rook" | "off" | "excl" => {
            if kind == "off" || kind == "excl" {
                format!("z   =  {i}\n").into_bytes()
            } else {
                format!("a = {i}\n").into_bytes()
            }
        }
        "noread" => format!("a = {i}\n").into_bytes(),
        "empty" => vec![],
        "warn" => format!("\"\" = {i}\n").into_bytes(),
        "warnunf" => format!("\"\"={i}\n").into_bytes(),
        "lerr" => format!("x = {i}\n\n[x.y]\nz = 1\n").into_bytes(),
        "mix" => format!("\"\" = {i}\na = 1\na = 2\n").into_bytes(),
        "mix2" => format!("x = {i}\n\n[x.y]\nz = 1\n\n[z]\n\"\" = 1\n").into_bytes(),
        "badwarn" => format!("\"\" = {i}\nb = = 1\n\"\".x = 1\n").into_bytes(),
        "bad" => format!("a = {i}\nb = = 1\n").into_bytes(),
        "nonutf" => vec![b'a', b' ', b'=', b' ', b'"', 0xff, 0xfe, b'"', b'\n'],
        _ => return None,
    })
}

fn formatted_of(kind: &str, i: usize) -> String {
    match kind {
        "unf" => format!("a = {i}\n\nb = [1, 2]\n"),
        "big" => (0..560).map(|n| format!("k{n} = {i}\n")).collect(),
        "ro" => format!("a = {i}\n"),
        "warnunf" => format!("\"\" = {i}\n"),
        _ => String::from_utf8(text_of(kind, i).unwrap()).unwrap(),
    }
}

fn name_of(kind: &str, i: usize) -> String {
    match kind {
        "excl" => format!("excluded{i}.toml"),
        "off" => format!("off{i}.toml"),
        _ => format!("f{i}-{kind}.toml"),
    }
}

/// Run the program as a user without special rights.
pub fn run(cwd: &Path, args: &[String], full: bool, stdin: Option<&[u8]>, ctx: &Ctx) -> std::io::Result<std::process::Output> {
    let mut c = Command::new(tombi());
    c.args(args)
        .current_dir(cwd)
        .env_clear()
        .env("HOME", ctx.scratch.join("home"))
        .env("XDG_CONFIG_HOME", ctx.scratch.join("xdg"))
        .env("TOMBI_CACHE_HOME", ctx.scratch.join("cache"))
        .env("NO_COLOR", "1")
        .env("PATH", "/usr/bin:/bin")
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .uid(NOBODY)
        .gid(NOBODY);
    unsafe {
        c.pre_exec(move || {
            // an endless run is a finding, not a hanging check
            let cpu = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            if full {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let size = libc::rlimit { rlim_cur: LIMIT, rlim_max: LIMIT };
                libc::setrlimit(libc::RLIMIT_FSIZE, &size);
            }
            Ok(())
        });
    }
    let mut child = c.spawn()?;
    if let Some(text) = stdin {
        use std::io::Write;
        let _ = child.stdin.take().unwrap().write_all(text);
    }
    child.wait_with_output()
}

pub fn count(stderr: &str, one: &str, many: &str) -> u64 {
    for l in stderr.lines() {
        if l == format!("1 {one}") {
            return 1;
        }
        if let Some(n) = l.strip_suffix(&format!(" {many}")).and_then(|n| n.parse().ok()) {
            return n;
        }
    }
    0
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 1, ..Default::default() };
    let input = strs(&vector["input"]);
    let mode = vector["mode"].as_str().unwrap();
    let full = vector["full"].as_bool().unwrap();
    let res = strs(&vector["res"]);
    let disk = strs(&vector["disk"]);
    let lint = mode.starts_with("lint");
    let story = format!("{mode} {}{}", input.join(" "), if full { " (disk full)" } else { "" });
    out.nontrivial.push(story.clone());

    let dir = ctx.scratch.join(format!("cli-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(
        dir.join("tombi.toml"),
        "[files]\nexclude = [\"excluded*.toml\"]\n[schema]\ncatalog = { paths = [] }\n\
         [[overrides]]\nfiles = { include = [\"off*.toml\"] }\nformat = { enabled = false }\nlint = { enabled = false }\n",
    )
    .unwrap();
    let from_stdin = mode.ends_with("in");
    let mut names = vec![];
    for (i, k) in input.iter().enumerate() {
        let name = name_of(k, i);
        if let (Some(text), false) = (text_of(k, i), from_stdin) {
            let p = dir.join(&name);
            std::fs::write(&p, text).unwrap();
            std::os::unix::fs::chown(&p, Some(NOBODY), Some(NOBODY)).unwrap();
            let mode = match k.as_str() {
                "ro" | "rook" => 0o444,
                "noread" => 0o000,
                _ => 0o644,
            };
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
        }
        names.push(name);
    }
    std::os::unix::fs::chown(&dir, Some(NOBODY), Some(NOBODY)).unwrap();

    let mut args: Vec<String> = vec![if lint { "lint".into() } else { "format".into() }];
    match mode {
        "check" | "checkin" => args.push("--check".into()),
        "diff" => args.push("--diff".into()),
        "checkdiff" => args.extend(["--check".into(), "--diff".into()]),
        "lintw" | "lintwin" => args.push("--error-on-warnings".into()),
        _ => {}
    }
    args.push("--offline".into());
    let stdin = if from_stdin {
        args.extend(["-".into(), "--stdin-filename".into(), names[0].clone()]);
        text_of(&input[0], 0)
    } else {
        args.extend(names.iter().cloned());
        None
    };
    let o = run(&dir, &args, full, stdin.as_deref(), ctx).expect("cannot run tombi as nobody");
    let stderr = plain(&String::from_utf8_lossy(&o.stderr));
    let stdout = String::from_utf8_lossy(&o.stdout).into_owned();
    let say = format!("{}\n{}", stderr, stdout);

    let code = o.status.code();
    let want_exit = vector["exit"].as_i64().unwrap() as i32;
    if code != Some(want_exit) {
        out.fail(format!("exit:{mode}"),
            format!("[{story}] ends with {} instead of {want_exit}: {}", o.status, tail(&say)), vector.clone());
    }
    let n = |r: &str| res.iter().filter(|x| *x == r).count() as u64;
    let mut want = vec![];
    if lint {
        want.push(("linted", n("same"), count(&stderr, "file linted successfully", "files linted successfully")));
        want.push(("failed", n("failed"), count(&stderr, "file failed to be linted", "files failed to be linted")));
    } else {
        want.push(("formatted", n("changed"), count(&stderr, "file formatted", "files formatted")));
        want.push(("not needed", n("same"), count(&stderr, "file did not need formatting", "files did not need formatting")));
        want.push(("failed", n("failed"), count(&stderr, "file failed to be formatted", "files failed to be formatted")));
    }
    want.push(("skipped", n("skipped"), count(&stderr, "file skipped", "files skipped")));
    for (what, want, got) in want {
        if want != got {
            out.fail(format!("count:{mode}:{what}"),
                format!("[{story}] reports {got} files {what} instead of {want}: {}", tail(&say)), vector.clone());
        }
    }
    if from_stdin {
        let k = &input[0];
        let want = match vector["printed"][0].as_str().unwrap() {
            "formatted" => formatted_of(k, 0).into_bytes(),
            "orig" => text_of(k, 0).unwrap(),
            _ => vec![],
        };
        if !lint && mode != "checkin" && o.stdout != want {
            out.fail(format!("stdout:{mode}:{k}"),
                format!("[{story}] prints {stdout:?} instead of {:?}", String::from_utf8_lossy(&want)), vector.clone());
        }
        if out.violations.is_empty() {
            out.sample = Some(json!({"run": story, "outcome": res, "exit": want_exit}));
        }
        return out;
    }
    for (i, k) in input.iter().enumerate() {
        let p = dir.join(&names[i]);
        let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o644));
        let got = std::fs::read(&p).ok();
        let want = match disk[i].as_str() {
            "formatted" => Some(formatted_of(k, i).into_bytes()),
            _ => text_of(k, i),
        };
        if got != want {
            let got = got.map(|g| String::from_utf8_lossy(&g).chars().take(80).collect::<String>());
            out.fail(format!("content:{mode}:{k}"),
                format!("[{story}] leaves {} as {got:?} instead of {}", names[i], disk[i]), vector.clone());
        }
        // a file that fails is named, one that is fine is not
        let failed = res[i] == "failed";
        let about = failed || (lint && k.starts_with("warn"));
        let diffed = mode.contains("diff");
        let mentioned = say.contains(names[i].as_str());
        if about && !mentioned && !matches!(k.as_str(), "nonutf" | "noread" | "ro" | "rook" | "big") {
            out.fail(format!("report:{mode}:{k}"),
                format!("[{story}] does not mention {}: {}", names[i], tail(&say)), vector.clone());
        }
        if !about && mentioned && !diffed {
            out.fail(format!("report:{mode}:{k}:extra"),
                format!("[{story}] complains about {}: {}", names[i], tail(&say)), vector.clone());
        }
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"run": story, "outcome": res, "exit": want_exit}));
    }
    out
}

/// Without colours.
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub fn tail(s: &str) -> String {
    let s: String = s.chars().take(500).collect();
    s.replace('\n', " | ")
}
