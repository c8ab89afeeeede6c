//! Conformance harness: replays behaviours generated by the TLA+
//! specifications in /verif/specs against the real tombi crates, and records
//! traces of the real code for the trace specifications.
//!
//!   tvh replay PROPERTY --in VECTORS.ndjson --out REPORT.json --scratch DIR
//!              [--seed N] [--tier quick|thorough] [--threads N] [--limit N]

mod common;
mod cache;
mod choice;
mod nesting;
mod sortkeys;
mod sortvalues;
mod soup;
mod session;
mod cli;
mod config;
mod layout;
mod lsp;
mod noqa;
mod norm;
mod positions;
mod serde_values;
mod scalar;
mod schema;
mod select;
mod sort;
mod structure;

use common::*;
use serde_json::{Value, json};
use std::io::Write;

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: tvh replay PROPERTY --in F --out F --scratch DIR");
        std::process::exit(2);
    }
    let cmd = args.remove(0);
    match cmd.as_str() {
        "replay" => replay(args),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn absolute(p: String) -> String {
    std::path::absolute(p).unwrap().to_string_lossy().into_owned()
}

fn replay(args: Vec<String>) {
    let property = args[0].clone();
    let input = absolute(opt(&args, "--in").expect("--in"));
    let output = absolute(opt(&args, "--out").expect("--out"));
    let scratch = std::path::PathBuf::from(absolute(opt(&args, "--scratch").expect("--scratch")));
    let seed: u64 = opt(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = opt(&args, "--tier").unwrap_or_else(|| "quick".into());
    let threads: usize = opt(&args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    setup_environment(&scratch);
    let ctx = Ctx { seed, thorough: tier == "thorough", scratch };

    let handler: Handler = match property.as_str() {
        "structure" => structure::check,
        "lsp" => lsp::check,
        "cli" => cli::check,
        "layout" => layout::check,
        "cache" => cache::check,
        "select" => select::check,
        "search" => config::search,
        "overrides" => config::overrides,
        "version" => sort::version,
        "scalar" => scalar::check,
        "schema" => schema::check,
        "choice" => choice::check,
        "nesting" => nesting::check,
        "positions" => positions::check,
        "serde" => serde_values::check,
        "editortext" => positions::editor,
        "noqa" => noqa::check,
        "order" => noqa::order,
        "sortkeys" => sortkeys::check,
        "sortvalues" => sortvalues::check,
        "soup" => soup::check,
        "session" => session::check,
        "structfmt" => structure::check_format,
        _ => {
            eprintln!("unknown replay target {property}");
            std::process::exit(2);
        }
    };
    let report = run_parallel(&input, threads, &ctx, handler);
    let mut f = std::fs::File::create(&output).expect("create report");
    f.write_all(serde_json::to_string(&report).unwrap().as_bytes()).unwrap();
    let n = report["violation_count"].as_u64().unwrap_or(0);
    println!("{}", json!({"vectors": report["vectors"], "evaluations": report["evaluations"], "violations": n}));
    let _: Value = report;
}
