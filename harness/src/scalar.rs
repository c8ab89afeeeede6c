//! C02: replay of TomlScalar.tla.

use crate::common::*;
use crate::norm;
use serde_json::{Value, json};
use tombi_toml_version::TomlVersion;

fn number_symbol(s: &str) -> String {
    match s {
        "D" => "922337203685477580".into(),
        "E" => "7".repeat(20),
        "B" => "1".repeat(62),
        "H" => "f".repeat(15),
        "E1" => "E".into(),
        s => s.into(),
    }
}

fn string_symbol(s: &str, basic: bool) -> String {
    match s {
        "q" => if basic { "\"" } else { "'" }.into(),
        "Q" => if basic { "'" } else { "\"" }.into(),
        "sp" => " ".into(),
        "tab" => "\t".into(),
        "nl" => "\n".into(),
        "crlf" => "\r\n".into(),
        "cr" => "\r".into(),
        "ctl" => "\u{b}".into(),
        "nbsp" => "\u{a0}".into(),
        "del" => "\u{7f}".into(),
        "uni" => "\u{e9}".into(),
        "emo" => "\u{1f600}".into(),
        s => s.into(),
    }
}

fn date_text(fields: &Value) -> String {
    let mut s = String::new();
    for f in fields.as_array().unwrap() {
        let (name, v) = (f[0].as_str().unwrap(), f[1].as_str().unwrap());
        match name {
            "month" | "day" => {
                s.push('-');
                s.push_str(v);
            }
            "minute" => {
                s.push(':');
                s.push_str(v);
            }
            "second" if v != "none" => {
                s.push(':');
                s.push_str(v);
            }
            "second" => {}
            "offset" if v == "none" => {}
            _ => s.push_str(v),
        }
    }
    s
}

/// Numbers in a date or time as text, fraction in nanoseconds, offset in minutes.
fn date_parts(s: &str) -> Option<(Vec<i64>, i64, Option<i64>)> {
    let s = s.trim();
    let mut numbers = vec![];
    let (date, rest) = if s.as_bytes().get(4) == Some(&b'-') { (s.get(..10)?, s.get(10..)?) } else { ("", s) };
    if !date.is_empty() {
        for p in date.split('-') {
            numbers.push(p.parse().ok()?);
        }
    }
    let mut rest = rest.trim_start_matches(['T', 't', ' ']).to_string();
    let mut offset = None;
    if rest.ends_with(['Z', 'z']) {
        rest.pop();
        offset = Some(0);
    } else if let Some(i) = rest.rfind(['+', '-']) {
        let sign = if rest.as_bytes()[i] == b'-' { -1 } else { 1 };
        let (h, m) = rest[i + 1..].split_once(':')?;
        offset = Some(sign * (h.parse::<i64>().ok()? * 60 + m.parse::<i64>().ok()?));
        rest.truncate(i);
    }
    let mut nanos = 0;
    if let Some((a, b)) = rest.clone().split_once('.') {
        let digits: String = b.chars().take(9).collect();
        nanos = format!("{digits:0<9}").parse().ok()?;
        rest = a.into();
    }
    if !rest.is_empty() {
        let t: Vec<&str> = rest.split(':').collect();
        for p in &t {
            numbers.push(p.parse().ok()?);
        }
        if t.len() == 2 {
            numbers.push(0);
        }
    }
    Some((numbers, nanos, offset))
}

/// The value the specification gives the literal; None: out of TOML's range.
fn expected(kind: &str, text: &str, v: &Value) -> Option<Value> {
    let clean = text.replace('_', "");
    let int = |radix: u32, digits: &str| -> Option<Value> {
        let n = i128::from_str_radix(digits, radix).ok()?;
        i64::try_from(n).ok().map(|n| json!(["int", n.to_string()]))
    };
    match kind {
        "dec" => int(10, clean.strip_prefix('+').unwrap_or(&clean)),
        "hex" => int(16, &clean[2..]),
        "oct" => int(8, &clean[2..]),
        "bin" => int(2, &clean[2..]),
        "float" => {
            let x: f64 = clean.parse().ok()?;
            Some(json!(["float", format!("{x:?}")]))
        }
        "special" => Some(json!(["float", match clean.trim_start_matches('+') {
            "inf" => "inf",
            "-inf" => "-inf",
            _ => "nan",
        }])),
        "bool" => Some(json!(["bool", clean == "true"])),
        "str" => {
            let s: String = v["value"].as_array().unwrap().iter()
                .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
            Some(json!(["str", s]))
        }
        _ => Some(json!([kind, text])),
    }
}

fn same(want: &Value, got: &Value) -> bool {
    if want[0] != got[0] {
        return false;
    }
    match want[0].as_str().unwrap() {
        "date" | "ldt" | "odt" | "time" => {
            let (a, b) = (want[1].as_str().unwrap(), got[1].as_str().unwrap_or(""));
            date_parts(a).is_some() && date_parts(a) == date_parts(b)
        }
        "str" => want[1].as_str().unwrap() == got[1].as_str().unwrap_or("").replace("\r\n", "\n"),
        _ => want == got,
    }
}

pub fn check(v: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let family = v["family"].as_str().unwrap();
    let kind = v["kind"].as_str().unwrap();
    let basic = family.ends_with("basic");
    let (open, symbols): (&str, String) = match family {
        "number" => ("", strs(&v["text"]).iter().map(|s| number_symbol(s)).collect()),
        "date" => ("", date_text(&v["text"])),
        _ => (
            match family {
                "basic" => "\"",
                "literal" => "'",
                "mlbasic" => "\"\"\"",
                _ => "'''",
            },
            strs(&v["text"]).iter().map(|s| string_symbol(s, basic)).collect(),
        ),
    };
    let literal = format!("{open}{symbols}");
    let story = format!("{family}:{}", literal.escape_debug());
    out.nontrivial.push(story.clone());
    let want = if kind == "none" { None } else { expected(kind, &literal, v) };
    let v11 = v["v11"].as_bool().unwrap();
    let either = v["either"].as_bool().unwrap();
    // an exponent nothing can hold has no prescribed value
    let no_value = kind == "float" && want.as_ref().is_some_and(|w| w[1] == "inf" || w[1] == "-inf");

    let mut texts = vec![(literal.clone(), want.clone())];
    if kind == "none" && !open.is_empty() && v["dead"].as_bool().unwrap() {
        // wrong even if it is closed
        texts.push((format!("{literal}{open}"), None));
    }
    let mut rng = Rng::new(ctx.seed, &story);
    for (literal, want) in texts {
        let contexts: [(&str, &str); 7] = [
            ("k = ", "\n"), ("k = [", "]\n"), ("k = {a = ", "}\n"), ("k =", ""), ("k\t=\t", "\t# c\n"),
            ("k = ", "\r\nz = 1\r\n"), ("[t]\nk = [0, ", ", 'x']\n"),
        ];
        let picks: Vec<usize> = if ctx.thorough { (0..7).collect() } else { vec![0, 1 + rng.below(6)] };
        for c in picks {
            let text = format!("{}{literal}{}", contexts[c].0, contexts[c].1);
            for (version, name, new) in [(TomlVersion::V1_0_0, "v1.0.0", false), (TomlVersion::V1_1_0, "v1.1.0", true)] {
                let want = if v11 && !new { &None } else { &want };
                out.evals += 1;
                let got = norm::read_document(&text, version).map(|d| norm::typed_document(&d));
                if either && got.is_err() {
                    continue;
                }
                let value = got.as_ref().ok().map(|d| {
                    let k = if c == 6 { &d[1]["t"][1]["k"] } else { &d[1]["k"] };
                    match c {
                        1 => k[1][0].clone(),
                        2 => k[1]["a"].clone(),
                        6 => k[1][1].clone(),
                        _ => k.clone(),
                    }
                });
                match (want, value) {
                    // a missing comma is put in by the formatter and reported by the linter
                    (None, Some(_)) if c != 0 && !norm::lint_errors(&text, version).is_empty() => {}
                    (None, Some(got)) => out.fail(format!("accepts-invalid:{story}"),
                        format!("{text:?} is accepted under {name} as {got}"), json!({"text": text, "vector": v})),
                    (Some(want), None) => out.fail(format!("rejects-valid:{story}"),
                        format!("{text:?} is rejected under {name} ({}), it is {want}", got.unwrap_err()),
                        json!({"text": text, "vector": v})),
                    (Some(want), Some(got)) if !same(want, &got) && !no_value =>
                        out.fail(format!("wrong-value:{story}"),
                            format!("{text:?} is read under {name} as {got} instead of {want}"),
                            json!({"text": text, "vector": v})),
                    _ => {}
                }
                if c == 0 && !either {
                    let errs = norm::lint_errors(&text, version);
                    if errs.is_empty() != want.is_some() {
                        out.fail(format!("lint-verdict:{story}"),
                            format!("the linter reports {errs:?} on {text:?} under {name}"), json!({"text": text, "vector": v}));
                    }
                }
            }
        }
    }
    // as a key
    let key: Option<Option<Vec<String>>> = match family {
        "number" => Some(v["key"].as_bool().unwrap().then(|| literal.split('.').map(String::from).collect())),
        "basic" | "literal" => Some(want.as_ref().map(|w| vec![w[1].as_str().unwrap().to_string()])),
        "mlbasic" | "mlliteral" if kind == "str" => Some(None),
        _ => None,
    };
    if let Some(want) = key {
        for (version, new) in [(TomlVersion::V1_0_0, false), (TomlVersion::V1_1_0, true)] {
            let want = if v11 && !new { None } else { want.clone() };
            let text = format!("{literal} = 1\n");
            out.evals += 1;
            let got = norm::read_document(&text, version).map(|d| norm::typed_document(&d));
            let path = got.as_ref().ok().map(|d| {
                let mut path = vec![];
                let mut at = d;
                while let Some((k, x)) = at[1].as_object().and_then(|o| o.iter().next()) {
                    path.push(k.clone());
                    at = x;
                }
                path
            });
            if path != want {
                out.fail(format!("key:{story}"),
                    format!("{text:?} under {version:?} defines {path:?} instead of {want:?}"), json!({"text": text, "vector": v}));
            }
        }
    }
    // what the value is written back as
    if let (Some(w), false) = (&want, open.is_empty()) {
        let value = w[1].as_str().unwrap();
        let text = format!("k = {}\n", tombi_toml_text::to_basic_string(value));
        let got = norm::read_document(&text, TomlVersion::V1_0_0).map(|d| norm::typed_document(&d)[1]["k"][1].clone());
        out.evals += 1;
        if got != Ok(json!(value)) {
            out.fail(format!("writes:{story}"), format!("{value:?} is written as {text:?}, which reads as {got:?}"), json!({"vector": v}));
        }
        let text = format!("{} = 1\n", tombi_toml_text::to_key_string(value));
        let got = norm::read_document(&text, TomlVersion::V1_0_0).map(|d| norm::typed_document(&d)[1].as_object().unwrap().keys().next().cloned());
        if got != Ok(Some(value.to_string())) {
            out.fail(format!("writes:{story}"), format!("the key {value:?} is written as {text:?}, which reads as {got:?}"), json!({"vector": v}));
        }
    }
    out.count(&format!("{family}_{kind}"));
    out.sample = Some(json!({"literal": literal, "kind": kind}));
    out
}

