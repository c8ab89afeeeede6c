//! C04, C05, C06: replay of FormatLayout.tla against the real formatter.

use crate::common::*;
use crate::norm;
use serde_json::{Value, json};
use tombi_toml_version::TomlVersion;

const TOP: &[&str] = &["t", "s", "a", "u"];

fn is_open(t: &str) -> bool {
    t == "[" || t == "{"
}

/// A document's tokens with the names the harness gives them.
#[derive(Clone)]
pub struct Named {
    pub kind: String,
    /// key ("" in arrays), header text, comment number
    pub name: String,
    pub value: String,
}

/// scalars whose text the formatter leaves as it is
const PLAIN: &[&str] = &["1", "-2.5", "\"x y\"", "true", "2024-01-02", "07:32:00", "\"#\"", "\"\""];
/// further spellings of scalars
const MORE: &[&str] = &[
    "0xDEAD_beef", "0o17", "0b1010", "+1_000", "1e3", "-0.0", "inf", "-nan", "'lit \"q\"'", "'l'", "\"it's\"",
    "\"a\\\"b\"", "'back\\slash'", "'''m'''", "\"\"\"m\\\n   n\"\"\"", "'''a\n# not a comment\nb'''",
    "\"\"\"\n[x]\n\ny = 1\"\"\"", "1979-05-27T07:32:00Z", "1979-05-27 07:32:00.999", "1979-05-27t00:32:00-07:00",
    "\"\\u00e9\\t\"", "\"é漢👩‍👩‍👧\"", "false", "''", "\"'\"", "'\"'",
];

pub fn name(doc: &[String], scalar: &mut dyn FnMut(usize) -> String, key: &dyn Fn(usize) -> String) -> Vec<Named> {
    let mut ctx: Vec<String> = vec![];
    let mut head = String::new();
    let mut n = 0;
    let mut heads = 0;
    let mut coms = 0;
    doc.iter()
        .map(|t| {
            let kind = t.clone();
            let in_array = ctx.last().map(|c| c == "[").unwrap_or(false);
            let (name, value) = match t.as_str() {
                "i" | "[" | "{" => {
                    n += 1;
                    let name = if in_array { String::new() } else { key(n) };
                    if t == "i" {
                        (name, scalar(n))
                    } else {
                        ctx.push(t.clone());
                        (name, t.clone())
                    }
                }
                "]" => {
                    let c = ctx.pop().unwrap();
                    (String::new(), if c == "[" { "]".into() } else { "}".into() })
                }
                "c" => {
                    coms += 1;
                    (coms.to_string(), String::new())
                }
                "t" | "s" | "a" | "u" => {
                    heads += 1;
                    head = match t.as_str() {
                        "t" => format!("t{heads}"),
                        "a" => "a".into(),
                        "u" => "a.u".into(),
                        _ => format!("{head}.s{heads}"),
                    };
                    (head.clone(), String::new())
                }
                _ => (String::new(), String::new()),
            };
            Named { kind, name, value }
        })
        .collect()
}

/// Text of the source document; spacing and comment spelling are free.
fn source(toks: &[Named], rng: &mut Rng, nl: &str, wild: bool) -> String {
    let mut s = String::new();
    let mut own_line = true;
    for t in toks {
        let sp = |rng: &mut Rng| if wild { ["", " ", "  ", "\t"][rng.below(4)] } else { "" };
        match t.kind.as_str() {
            "n" => {
                s.push_str(sp(rng));
                s.push_str(nl);
                own_line = true;
                continue;
            }
            "c" => {
                s.push_str(if wild { sp(rng) } else if own_line { "" } else { " " });
                let body = format!("c{}", t.name);
                if wild {
                    s.push_str(&match rng.below(5) {
                        0 => format!("#{body}"),
                        1 => format!("# {body}  "),
                        2 => format!("# {body}\t"),
                        _ => format!("# {body}"),
                    });
                } else {
                    s.push_str(&format!("# {body}"));
                }
            }
            "i" | "[" | "{" => {
                s.push_str(sp(rng));
                if !t.name.is_empty() {
                    s.push_str(&format!("{}{}={}", t.name, sp(rng), sp(rng)));
                }
                s.push_str(&t.value);
            }
            "," => {
                s.push_str(sp(rng));
                s.push(',');
            }
            "]" => {
                s.push_str(sp(rng));
                s.push_str(&t.value);
            }
            h => {
                s.push_str(sp(rng));
                let (o, c) = if h == "a" { ("[[", "]]") } else { ("[", "]") };
                let path = if wild && rng.below(3) == 0 { t.name.replace('.', " . ") } else { t.name.clone() };
                s.push_str(&format!("{o}{}{path}{}{c}", sp(rng), sp(rng)));
            }
        }
        own_line = false;
    }
    s
}

pub struct Style {
    pub indent: String,
    pub bracket: usize,
    pub comma: usize,
    pub brace: usize,
    pub brace_comma: usize,
    pub equal: usize,
    pub trailing: usize,
    pub nl: &'static str,
    /// indent tables below their parents, and what is in a table
    pub sub_tables: bool,
    pub key_values: bool,
}

/// Text of the formatted document.
fn canonical(toks: &[Named], st: &Style) -> String {
    let mut s = String::new();
    let mut ctx: Vec<(String, bool)> = vec![];
    let mut own_line = true;
    let mut prev = String::new();
    let mut body = 0;
    let level = |t: &Named| if st.sub_tables { t.name.matches('.').count() } else { 0 };
    for (i, t) in toks.iter().enumerate() {
        let k = t.kind.as_str();
        // the header a comment stands above
        let mut above = i;
        while toks[above].kind == "c" && above + 2 < toks.len() && toks[above + 1].kind == "n" {
            above += 2;
        }
        let header = matches!(toks[above].kind.as_str(), "t" | "s" | "a" | "u");
        let base = if header && ctx.is_empty() { level(&toks[above]) } else { body };
        if k == "n" {
            s.push_str(st.nl);
            own_line = true;
            prev = "n".into();
            continue;
        }
        let depth = ctx.len() - (k == "]" && !ctx.is_empty()) as usize;
        let space = |n: usize| " ".repeat(n);
        if own_line {
            s.push_str(&st.indent.repeat(base + depth));
        } else if k != "," && k != "c" {
            // on the same line: inside a container on one line
            let (c, _) = ctx.last().cloned().unwrap_or_default();
            if c == "[" {
                if prev == "," {
                    s.push_str(&space(st.comma));
                } else if !(is_open(&prev) && k == "]") {
                    s.push_str(&space(st.bracket));
                }
            } else if c == "{" {
                if prev == "," {
                    s.push_str(&space(st.brace_comma));
                } else if !(is_open(&prev) && k == "]") {
                    s.push_str(&space(st.brace));
                }
            }
        }
        match k {
            "c" => {
                if !own_line {
                    s.push_str(&space(st.trailing));
                }
                s.push_str(&format!("# c{}", t.name));
            }
            "i" | "[" | "{" => {
                if !t.name.is_empty() {
                    s.push_str(&format!("{}{}={}", t.name, space(st.equal), space(st.equal)));
                }
                s.push_str(&t.value);
                if k != "i" {
                    ctx.push((k.to_string(), i > 0));
                }
            }
            "]" => {
                s.push_str(&t.value);
                ctx.pop();
            }
            "," => s.push(','),
            h => {
                body = level(t) + st.key_values as usize;
                s.push_str(&if h == "a" { format!("[[{}]]", t.name) } else { format!("[{}]", t.name) });
            }
        }
        prev = k.into();
        own_line = false;
    }
    s
}

/// Read a text back as tokens, without tombi.
pub fn scan(text: &str) -> Result<Vec<Named>, String> {
    let b: Vec<char> = text.chars().collect();
    let mut out: Vec<Named> = vec![];
    let mut ctx: Vec<char> = vec![];
    let mut i = 0;
    let mut key = String::new();
    let mut have_key = false;
    let mut line_start = true;
    let mut push = |kind: &str, name: &str, value: &str| {
        out.push(Named { kind: kind.into(), name: name.into(), value: value.into() })
    };
    fn string_end(b: &[char], i: usize) -> Result<usize, String> {
        let q = b[i];
        let triple = i + 2 < b.len() && b[i + 1] == q && b[i + 2] == q;
        let mut j = i + if triple { 3 } else { 1 };
        loop {
            if j >= b.len() {
                return Err("string does not end".into());
            }
            if b[j] == '\\' && q == '"' {
                j += 2;
                continue;
            }
            if b[j] == q {
                if !triple {
                    return Ok(j + 1);
                }
                if j + 2 < b.len() && b[j + 1] == q && b[j + 2] == q {
                    let mut e = j + 3;
                    // up to two more quotes belong to the string
                    while e < b.len() && b[e] == q && e < j + 5 {
                        e += 1;
                    }
                    return Ok(e);
                }
            }
            j += 1;
        }
    }
    while i < b.len() {
        let c = b[i];
        let in_array = ctx.last() == Some(&'[');
        match c {
            ' ' | '\t' => i += 1,
            '\r' if i + 1 < b.len() && b[i + 1] == '\n' => {
                push("n", "", "\r\n");
                line_start = true;
                i += 2;
            }
            '\n' => {
                push("n", "", "\n");
                line_start = true;
                i += 1;
            }
            '#' => {
                let mut j = i;
                while j < b.len() && b[j] != '\n' && !(b[j] == '\r' && b.get(j + 1) == Some(&'\n')) {
                    j += 1;
                }
                let t: String = b[i..j].iter().collect();
                push("c", t.trim_start_matches('#').trim().trim_start_matches('c'), &t);
                i = j;
            }
            ',' => {
                push(",", "", ",");
                i += 1;
            }
            '[' if ctx.is_empty() && line_start && !have_key => {
                let two = b.get(i + 1) == Some(&'[');
                let mut j = i;
                while j < b.len() && b[j] != ']' && b[j] != '\n' {
                    j += 1;
                }
                let name: String = b[i..j].iter().filter(|c| **c != '[' && **c != ' ' && **c != '\t').collect();
                push(if two { "a" } else { "t" }, &name, "");
                i = j + if two { 2 } else { 1 };
                line_start = false;
            }
            '[' | '{' if have_key || in_array => {
                push(if c == '[' { "[" } else { "{" }, &key, &c.to_string());
                ctx.push(c);
                key.clear();
                have_key = false;
                line_start = false;
                i += 1;
            }
            ']' | '}' => {
                if ctx.pop().is_none() {
                    return Err(format!("unexpected {c}"));
                }
                push("]", "", &c.to_string());
                line_start = false;
                i += 1;
            }
            _ if have_key || in_array => {
                let j = if c == '"' || c == '\'' {
                    string_end(&b, i)?
                } else {
                    let mut j = i;
                    while j < b.len() && !matches!(b[j], ',' | ']' | '}' | '#' | '\n' | '\r') {
                        j += 1;
                    }
                    while j > i && matches!(b[j - 1], ' ' | '\t') {
                        j -= 1;
                    }
                    j
                };
                if j == i {
                    return Err(format!("unexpected {c:?}"));
                }
                push("i", &key, &b[i..j].iter().collect::<String>());
                key.clear();
                have_key = false;
                line_start = false;
                i = j;
            }
            _ => {
                // a key
                let mut j = i;
                while j < b.len() && b[j] != '=' {
                    if b[j] == '"' || b[j] == '\'' {
                        j = string_end(&b, j)?;
                    } else if b[j] == '\n' {
                        return Err("key without value".into());
                    } else {
                        j += 1;
                    }
                }
                key = b[i..j.min(b.len())].iter().collect::<String>().trim().to_string();
                have_key = true;
                i = j + 1;
            }
        }
    }
    Ok(out)
}

/// The tokens to be kept, with the way each comment stands (FormatLayout!Sig).
pub fn signature(toks: &[Named]) -> Vec<String> {
    let k = |i: usize| toks.get(i).map(|t| t.kind.as_str()).unwrap_or("");
    let mut out = vec![];
    for i in 0..toks.len() {
        let t = &toks[i];
        match t.kind.as_str() {
            "n" | "," => {}
            "c" => {
                let kind = if i > 0 && k(i - 1) != "n" {
                    "trailing"
                } else {
                    let mut j = i;
                    while k(j + 1) == "n" && k(j + 2) == "c" {
                        j += 2;
                    }
                    let above = if k(j + 1) == "n" { k(j + 2) } else { "" };
                    if above == "i" || is_open(above) || TOP.contains(&above) { "leading" } else { "dangling" }
                };
                out.push(format!("{kind} comment {}", t.name));
            }
            "i" => out.push(format!("item {}", t.name)),
            "]" => out.push("]".into()),
            "[" | "{" => out.push(format!("{} {}", t.kind, t.name)),
            h => out.push(format!("{} {}", if h == "a" { "[[]]" } else { "[]" }, t.name)),
        }
    }
    out
}

fn expected_signature(toks: &[Named], sig: &[String]) -> Vec<String> {
    toks.iter()
        .filter(|t| t.kind != "n" && t.kind != ",")
        .zip(sig)
        .map(|(t, s)| match t.kind.as_str() {
            "c" => format!("{s} comment {}", t.name),
            "i" => format!("item {}", t.name),
            "]" => "]".into(),
            "[" | "{" => format!("{} {}", t.kind, t.name),
            h => format!("{} {}", if h == "a" { "[[]]" } else { "[]" }, t.name),
        })
        .collect()
}

pub fn options(rules: Value) -> tombi_config::FormatOptions {
    serde_json::from_value(json!({ "rules": rules })).expect("format options")
}

pub fn format(text: &str, version: TomlVersion, rules: &Value) -> Result<String, String> {
    let options = options(rules.clone());
    let store = offline_store();
    block_on(async { tombi_formatter::Formatter::new(version, &options, None, &store).format(text).await })
        .map_err(|ds| ds.iter().map(|d| format!("{}@{:?}", d.message(), d.range())).collect::<Vec<_>>().join("; "))
}

/// Rules chosen at random.
pub fn any_rules(rng: &mut Rng) -> Value {
    let mut r = serde_json::Map::new();
    let mut set = |rng: &mut Rng, k: &str, vs: &[Value]| {
        if rng.below(2) == 0 {
            r.insert(k.into(), rng.pick(vs).clone());
        }
    };
    let n = |xs: &[u64]| xs.iter().map(|x| json!(x)).collect::<Vec<_>>();
    set(rng, "array-bracket-space-width", &n(&[0, 1, 2]));
    set(rng, "array-comma-space-width", &n(&[0, 1, 3]));
    set(rng, "comment-style", &[json!("normalize"), json!("preserve")]);
    set(rng, "date-time-delimiter", &[json!("T"), json!("space"), json!("preserve")]);
    set(rng, "group-blank-lines-limit", &n(&[1, 2, 3]));
    set(rng, "indent-style", &[json!("space"), json!("tab")]);
    set(rng, "indent-sub-tables", &[json!(true), json!(false)]);
    set(rng, "indent-table-key-value-pairs", &[json!(true), json!(false)]);
    set(rng, "indent-width", &n(&[0, 1, 4]));
    set(rng, "inline-table-brace-space-width", &n(&[0, 1, 2]));
    set(rng, "inline-table-comma-space-width", &n(&[0, 1, 2]));
    set(rng, "key-quote-style", &[json!("double"), json!("single"), json!("preserve")]);
    set(rng, "key-value-equals-sign-alignment", &[json!(true), json!(false)]);
    set(rng, "key-value-equals-sign-space-width", &n(&[0, 1, 2]));
    set(rng, "line-ending", &[json!("auto"), json!("lf"), json!("crlf")]);
    set(rng, "line-width", &n(&[1, 10, 20, 80]));
    set(rng, "string-quote-style", &[json!("double"), json!("single"), json!("preserve")]);
    set(rng, "table-blank-lines", &n(&[0, 1, 2]));
    set(rng, "trailing-comment-alignment", &[json!(true), json!(false)]);
    set(rng, "trailing-comment-space-width", &n(&[0, 1, 2]));
    Value::Object(r)
}

fn needs_v1_1(doc: &[String]) -> bool {
    let mut ctx: Vec<&str> = vec![];
    for (i, t) in doc.iter().enumerate() {
        match t.as_str() {
            "[" | "{" => ctx.push(t),
            "]" => {
                if ctx.pop() == Some("{") && i > 0 {
                    let mut j = i;
                    while j > 0 && (doc[j - 1] == "n" || doc[j - 1] == "c") {
                        j -= 1;
                    }
                    if j > 0 && doc[j - 1] == "," {
                        return true;
                    }
                }
            }
            "n" | "c" if ctx.last() == Some(&"{") => return true,
            _ => {}
        }
    }
    false
}

pub fn check(v: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let doc = strs(&v["doc"]);
    let want = strs(&v["out"]);
    let sig = strs(&v["sig"]);
    let story = doc.concat();
    let mut rng = Rng::new(ctx.seed, &story);
    if doc.iter().any(|t| t == "c") {
        out.nontrivial.push(story.clone());
    }
    let v11_only = needs_v1_1(&doc);

    // 1. the exact layout
    let off = rng.below(PLAIN.len());
    let mut plain = |n: usize| PLAIN[(n + off) % PLAIN.len()].to_string();
    let src = name(&doc, &mut plain, &|n| format!("k{n}"));
    let wild = rng.below(2) == 0;
    let crlf = rng.below(3) == 0;
    let text = source(&src, &mut rng, if crlf { "\r\n" } else { "\n" }, wild);
    let mut rules = json!({"group-blank-lines-limit": v["g"], "table-blank-lines": v["t"]});
    let mut style = Style {
        indent: "  ".into(), bracket: 0, comma: 1, brace: 1, brace_comma: 1, equal: 1, trailing: 2,
        nl: if crlf && text.contains("\r\n") { "\r\n" } else { "\n" }, sub_tables: false, key_values: false,
    };
    if rng.below(3) == 0 {
        style.sub_tables = rng.below(2) == 0;
        style.key_values = rng.below(2) == 0;
        rules["indent-sub-tables"] = json!(style.sub_tables);
        rules["indent-table-key-value-pairs"] = json!(style.key_values);
    }
    if rng.below(3) != 0 {
        style.bracket = rng.below(3);
        style.comma = rng.below(3);
        style.brace = rng.below(3);
        style.brace_comma = rng.below(3);
        style.equal = rng.below(3);
        style.trailing = rng.below(3);
        let width = [1, 2, 4][rng.below(3)];
        let tab = rng.below(3) == 0;
        style.indent = if tab { "\t".into() } else { " ".repeat(width) };
        rules["array-bracket-space-width"] = json!(style.bracket);
        rules["array-comma-space-width"] = json!(style.comma);
        rules["inline-table-brace-space-width"] = json!(style.brace);
        rules["inline-table-comma-space-width"] = json!(style.brace_comma);
        rules["key-value-equals-sign-space-width"] = json!(style.equal);
        rules["trailing-comment-space-width"] = json!(style.trailing);
        rules["indent-width"] = json!(width);
        rules["indent-style"] = json!(if tab { "tab" } else { "space" });
        match rng.below(3) {
            0 => {
                rules["line-ending"] = json!("lf");
                style.nl = "\n";
            }
            1 => {
                rules["line-ending"] = json!("crlf");
                style.nl = "\r\n";
            }
            _ => {}
        }
    }
    let mut same = |n: usize| PLAIN[(n + off) % PLAIN.len()].to_string();
    let expected = canonical(&name(&want, &mut same, &|n| format!("k{n}")), &style);
    let version = TomlVersion::V1_1_0;
    out.evals += 1;
    match format(&text, version, &rules) {
        Err(e) => out.fail(format!("refused:{story}"), format!("refuses the valid document {text:?}: {e}"), v.clone()),
        Ok(got) => {
            if got != expected {
                out.fail(format!("layout:{story}"),
                    format!("{text:?} becomes {got:?} instead of {expected:?} under {rules}"), v.clone());
            }
            keeps(&mut out, &story, &text, &got, version, &rules, &expected_signature(&src, &sig), v);
        }
    }

    // 2. other scalars, keys and rules: only what must be kept
    let rounds = if ctx.thorough { 3 } else { 1 };
    for _ in 0..rounds {
        let off = rng.below(MORE.len());
        let mut more = |n: usize| if n % 2 == 0 { PLAIN[(n + off) % PLAIN.len()] } else { MORE[(n + off) % MORE.len()] }.to_string();
        let kf = rng.below(4);
        let src = name(&doc, &mut more, &|n| match (kf + n) % 6 {
            0 => format!("'k {n}'"),
            1 => format!("\"k.{n}\""),
            2 => format!("k{n}.x"),
            3 => format!("\"é{n}\""),
            _ => format!("k{n}"),
        });
        let crlf = rng.below(3) == 0;
        let text = source(&src, &mut rng, if crlf { "\r\n" } else { "\n" }, true);
        let rules = any_rules(&mut rng);
        let v10 = !v11_only && rng.below(2) == 0;
        let version = if v10 { TomlVersion::V1_0_0 } else { TomlVersion::V1_1_0 };
        out.evals += 1;
        match format(&text, version, &rules) {
            Err(e) => out.fail(format!("refused:{story}"), format!("refuses the valid document {text:?}: {e}"), v.clone()),
            Ok(got) => {
                let expected: Vec<String> = expected_signature(&src, &sig);
                keeps(&mut out, &story, &text, &got, version, &rules, &expected, v);
            }
        }
    }
    // 3. with a closing bracket missing it is no TOML document any more
    let closers: Vec<usize> = (0..src.len()).filter(|&i| doc[i] == "]").collect();
    if !closers.is_empty() {
        let mut broken = src;
        broken.remove(closers[rng.below(closers.len())]);
        let text = source(&broken, &mut rng, "\n", true);
        let rules = any_rules(&mut rng);
        out.evals += 1;
        if let Ok(got) = format(&text, version, &rules) {
            out.fail(format!("style:rewrites-invalid:{story}"),
                format!("the unclosed {text:?} is not refused but becomes {got:?}"), v.clone());
        }
    }
    out.sample = Some(json!({"document": story, "formatted": want.concat(), "comments": sig}));
    out
}

/// Comments (C05), data (C04), style and idempotence (C06).
#[allow(clippy::too_many_arguments)]
fn keeps(out: &mut Outcome, story: &str, text: &str, got: &str, version: TomlVersion, rules: &Value,
         expected: &[String], v: &Value) {
    let unquote = |s: &[String]| -> Vec<String> { s.iter().map(|x| x.replace(['\'', '"'], "")).collect() };
    match scan(got) {
        Err(e) => out.fail(format!("style:broken:{story}"), format!("{text:?} becomes {got:?}: {e}"), v.clone()),
        Ok(toks) => {
            let have = signature(&toks);
            if unquote(&have) != unquote(expected) {
                out.fail(format!("comments:{story}"),
                    format!("{text:?} becomes {got:?} under {rules}: {have:?} instead of {expected:?}"), v.clone());
            }
            // line ends
            let configured = match rules["line-ending"].as_str() {
                Some("lf") => Some("\n"),
                Some("crlf") => Some("\r\n"),
                _ => None,
            };
            let ends: Vec<&str> = toks.iter().filter(|t| t.kind == "n").map(|t| t.value.as_str()).collect();
            let first = scan(text).ok().and_then(|s| s.into_iter().find(|t| t.kind == "n").map(|t| t.value));
            let want = configured.map(String::from).or(first).unwrap_or("\n".into());
            if ends.iter().any(|e| *e != want) {
                out.fail(format!("style:line-ending:{story}"),
                    format!("{text:?} becomes {got:?} under {rules}: line endings are not {want:?}"), v.clone());
            }
            let tail = ends.len() - toks.iter().rev().skip_while(|t| t.kind == "n").filter(|t| t.kind == "n").count();
            if !got.is_empty() && tail != 1 {
                out.fail(format!("style:end:{story}"),
                    format!("{text:?} becomes {got:?} under {rules}: ends with {tail} line endings"), v.clone());
            }
        }
    }
    match (norm::read_document(text, version), norm::read_document(got, version)) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (norm::ordered_document(&a), norm::ordered_document(&b));
            if a != b {
                out.fail(format!("data:{story}"),
                    format!("{text:?} becomes {got:?} under {rules}: {a} becomes {b}"), v.clone());
            }
        }
        (Ok(_), Err(e)) => out.fail(format!("style:invalid:{story}"),
            format!("{text:?} becomes {got:?} under {rules}, which is invalid: {e}"), v.clone()),
        (Err(e), _) => out.fail(format!("harness:{story}"), format!("the document {text:?} is not valid: {e}"), v.clone()),
    }
    match format(got, version, rules) {
        Ok(again) if again == got => {}
        Ok(again) => out.fail(format!("style:idempotent:{story}"),
            format!("{text:?} becomes {got:?} under {rules}, and again formatted {again:?}"), v.clone()),
        Err(e) => out.fail(format!("style:refused-again:{story}"),
            format!("{text:?} becomes {got:?} under {rules}, which is refused: {e}"), v.clone()),
    }
}
