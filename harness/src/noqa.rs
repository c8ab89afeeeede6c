//! C09: replay of NoQa.tla: a document broken in some places, with directives in some
//! comments, is linted, and what is reported is compared with what should be left.

use crate::common::*;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Mutex, OnceLock};
use tombi_config::TomlVersion;

/// `<P>` is a comment at the point P; `{p}` before a value is where the place p is.
const TEXT: &str = r#"#<root>

#<La>
#<Ma>
a = 5 #<Ta>
#<Lf>
f = 5.0 #<Tf>
#<Ls>
s = "five" #<Ts>
#<Lb>
b = true #<Tb>
#<Lo>
o = 2020-05-05 #<To>
#<Lu>
u = 5 #<Tu>
#<Ly>
x.y = 5 #<Ty>
#<Lr>
r = [ #<Sr>
  #<Ir>

  #<Lel>
  5, #<Tel>
  #<Les>
  "five", #<Tes>
  7,
  7
] #<Tr>
#<Li>
i = { #<Si>
  #<Ii>

  #<Lc>
  c = 5, #<Tc>
  #<Liu>
  iu = 5, #<Tiu>
} #<Ti>

#<Lt>
#<Mt>
[t] #<Tt>
#<It>

#<Ld>
d = 5 #<Td>
#<Lv>
v = 5 #<Tv>
#<Ltf>
tf = 5.0 #<Ttf>

#<Lw>
[[w]] #<Tw>
#<Iw>

#<Lh>
h = "five" #<Th>
"#;

/// Of each place: what its line begins with, and the kind of its value
const PLACES: [(&str, &str, &str); 21] = [
    ("root", "", "object"), ("u", "u = ", "key"), ("a", "a = ", "integer"), ("f", "f = ", "number"), ("s", "s = ", "string"),
    ("b", "b = ", "boolean"), ("o", "o = ", "date"), ("x", "x.y = ", "object"), ("y", "x.y = ", "integer"),
    ("r", "r = ", "array"), ("el", "  5, ", "integer"), ("es", "  \"five\", ", "string"), ("i", "i = ", "object"),
    ("c", "  c = ", "integer"), ("iu", "  iu = ", "key"), ("t", "[t]", "object"), ("d", "d = ", "integer"),
    ("tf", "tf = ", "number"), ("v", "v = ", "key"), ("w", "[[w]]", "array"), ("h", "h = ", "string"),
];

fn kind(place: &str) -> &'static str {
    PLACES.iter().find(|p| p.0 == place).map_or("object", |p| p.2)
}

type Broken = BTreeSet<(String, String)>;

fn node(viol: &Broken, place: &str) -> Map<String, Value> {
    let mut m = Map::new();
    let own = kind(place);
    m.insert("type".into(), json!(match own { "date" => "string", k => k }));
    if own == "date" {
        m.insert("format".into(), json!("date"));
    }
    let rules: Vec<&str> = viol.iter().filter(|v| v.0 == place).map(|v| v.1.as_str()).collect();
    for rule in rules {
        let (key, value) = match rule {
            "type-mismatch" => {
                m.remove("format");
                ("type", json!(if own == "boolean" { "integer" } else { "boolean" }))
            }
            "const-value" => ("const", match own { "boolean" => json!(false), "array" => json!([]), "object" => json!({}), "integer" | "number" => json!(77), _ => json!("other") }),
            "enum" => ("enum", match own { "boolean" => json!([false]), "array" => json!([[]]), "object" => json!([{}]), "integer" | "number" => json!([78]), _ => json!(["another"]) }),
            "deprecated" => ("deprecated", json!(true)),
            "one-of-multiple-match" => ("oneOf", json!([{"title": "one"}, {"title": "two"}])),
            "not-schema-match" => ("not", json!({})),
            "integer-maximum" | "float-maximum" => ("maximum", json!(1)),
            "integer-minimum" | "float-minimum" => ("minimum", json!(100)),
            "integer-exclusive-maximum" | "float-exclusive-maximum" => ("exclusiveMaximum", json!(5)),
            "integer-exclusive-minimum" | "float-exclusive-minimum" => ("exclusiveMinimum", json!(5)),
            "integer-multiple-of" | "float-multiple-of" => ("multipleOf", json!(3)),
            "string-max-length" => ("maxLength", json!(1)),
            "string-min-length" => ("minLength", json!(100)),
            "string-pattern" => ("pattern", json!("^x")),
            "string-format" => ("format", json!("ipv4")),
            "array-max-values" => ("maxItems", json!(0)),
            "array-min-values" => ("minItems", json!(100)),
            "array-unique-values" => ("uniqueItems", json!(true)),
            "table-max-keys" => ("maxProperties", json!(0)),
            "table-min-keys" => ("minProperties", json!(100)),
            "table-key-required" => ("required", json!(["zz"])),
            other => panic!("rule {other}"),
        };
        m.insert(key.into(), value);
    }
    m
}

fn schema(viol: &Broken) -> Value {
    let leaf = |p: &str| Value::Object(node(viol, p));
    let table = |p: &str, undeclared: &str, inside: Vec<(&str, Value)>| {
        let mut m = node(viol, p);
        let has = |rule: &str| viol.contains(&(undeclared.to_string(), rule.to_string()));
        m.insert("additionalProperties".into(), json!(!has("key-not-allowed") && !has("key-pattern")));
        if has("key-pattern") {
            m.insert("patternProperties".into(), json!({"^pattern": {}}));
        }
        m.insert("properties".into(), Value::Object(inside.into_iter().map(|(k, v)| (k.to_string(), v)).collect()));
        Value::Object(m)
    };
    let list = |p: &str, items: Value| {
        let mut m = node(viol, p);
        m.insert("items".into(), items);
        m
    };
    let mut r = list("r", json!({}));
    r.insert("prefixItems".into(), json!([leaf("el"), leaf("es")]));
    let mut root = table("root", "u", vec![
        ("a", leaf("a")), ("f", leaf("f")), ("s", leaf("s")), ("b", leaf("b")), ("o", leaf("o")),
        ("x", table("x", "", vec![("y", leaf("y"))])),
        ("r", Value::Object(r)),
        ("i", table("i", "iu", vec![("c", leaf("c"))])),
        ("t", table("t", "v", vec![("d", leaf("d")), ("tf", leaf("tf"))])),
        ("w", Value::Object(list("w", table("wi", "", vec![("h", leaf("h"))])))),
    ]);
    root["x-tombi-string-formats"] = json!(["ipv4"]);
    root["$schema"] = json!("https://json-schema.org/draft/2020-12/schema");
    root
}

struct Linting {
    store: tombi_schema_store::SchemaStore,
    path: PathBuf,
}

impl Linting {
    fn new(dir: &Path, schema: &Value) -> Result<Self, String> {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(dir.join("s.json"), schema.to_string()).unwrap();
        let conf = "[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n";
        let conf_path = dir.join("tombi.toml");
        std::fs::write(&conf_path, conf).unwrap();
        let config = serde_tombi::config::from_str(conf, &conf_path).map_err(|e| e.to_string())?;
        let store = tombi_schema_store::SchemaStore::new_with_options_and_http_client(
            tombi_schema_store::Options { strict: None, offline: Some(true), cache: None },
            std::sync::Arc::new(NoNetwork),
        );
        block_on(store.load_config(&config, Some(&conf_path))).map_err(|e| e.to_string())?;
        Ok(Self { store, path: dir.join("x.toml") })
    }

    fn lint(&self, text: &str) -> Result<Vec<Said>, String> {
        let options = tombi_config::LintOptions::default();
        match catch(|| block_on(async {
            tombi_linter::Linter::new(TomlVersion::V1_1_0, &options, Some(itertools::Either::Right(self.path.as_path())), &self.store).lint(text).await
        })) {
            Err(p) => Err(format!("panic: {p}")),
            Ok(Ok(())) => Ok(vec![]),
            Ok(Err(ds)) => Ok(ds.iter().map(|d| Said {
                code: d.code().to_string(),
                line: d.range().start.line,
                column: d.range().start.column,
                error: d.level() == tombi_diagnostic::Level::ERROR,
                message: d.message().to_string(),
            }).collect()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Said {
    line: u32,
    column: u32,
    code: String,
    error: bool,
    message: String,
}

fn text(directives: &HashMap<String, String>) -> (String, HashMap<String, u32>) {
    let mut out = String::new();
    let mut points = HashMap::new();
    for (n, line) in TEXT.lines().enumerate() {
        match line.split_once("#<") {
            Some((before, point)) => {
                let point = point.trim_end_matches('>');
                points.insert(point.to_string(), n as u32);
                let comment = match directives.get(point) {
                    Some(rule) => format!("# tombi: lint.rules.{rule}.disabled = true"),
                    None => format!("# tell: lint.rules.{point}.disabled = true"),
                };
                out.push_str(&format!("{before}{comment}\n"));
            }
            None => out.push_str(&format!("{line}\n")),
        }
    }
    (out, points)
}

/// What is said of one violation in a document without directives.
fn alone(v: &(String, String), dir: &Path) -> Result<Vec<Said>, String> {
    static KNOWN: OnceLock<Mutex<HashMap<(String, String), Vec<Said>>>> = OnceLock::new();
    let known = KNOWN.get_or_init(Default::default);
    if let Some(said) = known.lock().unwrap().get(v) {
        return Ok(said.clone());
    }
    let one: Broken = [v.clone()].into();
    let said = Linting::new(dir, &schema(&one))?.lint(&text(&HashMap::new()).0)?;
    // of values that are not unique, each is told
    let items = if v.1 == "array-unique-values" { 9 } else { 0 };
    if said.is_empty() || said.len() > 1 + items as usize {
        return Err(format!("{} diagnostics of one violation: {said:?} {}", said.len(), schema(&one)));
    }
    let code = if v.1 == "const-value" { "const" } else { v.1.as_str() };
    let line = TEXT.lines().position(|l| match v.0.as_str() {
        "wi" => l.starts_with("[[w]]"),
        "root" => true,
        p => l.starts_with(PLACES.iter().find(|q| q.0 == p).unwrap().1),
    }).unwrap() as u32;
    // the comments before a header are part of its table
    let first = line - TEXT.lines().take(line as usize).collect::<Vec<_>>().iter().rev().take_while(|l| l.starts_with("#<")).count() as u32;
    let from = if matches!(v.0.as_str(), "t" | "w" | "wi") { first } else { line };
    if let Some(only) = said.iter().find(|s| s.code != code || s.line < from || s.line > line + items || s.error != (code != "deprecated")) {
        return Err(format!("not about line {line} and {code}: {only:?} {}", schema(&one)));
    }
    known.lock().unwrap().insert(v.clone(), said.clone());
    Ok(said)
}

pub fn check(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let dir = ctx.scratch.join(format!("{:?}", std::thread::current().id()));
    let pairs = |name: &str| -> Broken {
        vector[name].as_array().unwrap().iter().map(|v| (v["place"].as_str().unwrap().to_string(), v["rule"].as_str().unwrap().to_string())).collect()
    };
    let viol = pairs("viol");
    let shown = pairs("shown");
    let maybe = pairs("maybe");
    let mut expected: BTreeMap<Said, &(String, String)> = BTreeMap::new();
    for v in &viol {
        match alone(v, &dir) {
            Ok(said) => {
                if shown.contains(v) {
                    expected.extend(said.into_iter().map(|s| (s, v)));
                }
            }
            Err(e) => {
                out.fail(format!("alone:{}:{}", v.0, v.1), e, vector.clone());
                return out;
            }
        }
    }
    let noqa = vector["noqa"].as_array().unwrap();
    let directives: HashMap<String, String> = noqa.iter().map(|n| (n["point"].as_str().unwrap().to_string(), n["rule"].as_str().unwrap().to_string())).collect();
    let (written, points) = text(&directives);
    for p in directives.keys() {
        if !points.contains_key(p) {
            out.fail("harness:point", p.clone(), vector.clone());
            return out;
        }
    }
    out.evals += 1;
    let said = match Linting::new(&dir, &schema(&viol)).and_then(|l| l.lint(&written)) {
        Ok(s) => s,
        Err(e) => {
            out.fail("panic", e, vector.clone());
            return out;
        }
    };
    let story = |what: String| format!("{what} with {:?} and {:?}; said: {said:?}", viol, directives);
    // what is said of comments, by line
    let remarks = |n: &Value| -> Vec<&Said> {
        let line = points[n["point"].as_str().unwrap()];
        let rule = n["rule"].as_str().unwrap();
        said.iter().filter(|s| s.line == line && (n["said"] == "open" && s.code == "duplicate-key") || s.line == line && s.message.contains(rule) && !expected.contains_key(s) && !s.error && s.code != "deprecated").collect()
    };
    let mut explained: Vec<&Said> = vec![];
    for n in noqa {
        let r = remarks(n);
        let name = format!("{}:{}", n["point"].as_str().unwrap(), n["rule"].as_str().unwrap());
        let about = n["said"].as_str().unwrap();
        let fine = match about {
            "open" => true,
            "used" => r.is_empty(),
            "useless" => r.len() == 1 && r[0].code == "unused-noqa",
            _ => r.len() == 1 && r[0].code == "key-not-allowed",
        };
        if !fine {
            out.fail(format!("remark:{about}:{name}"), story(format!("remarks {r:?}")), vector.clone());
        }
        explained.extend(r);
    }
    for (e, v) in &expected {
        if !said.contains(e) && !maybe.contains(v) {
            out.fail(format!("silenced:{}:{}", v.0, v.1), story(format!("{e:?} is not said")), vector.clone());
        }
    }
    for s in &said {
        if !expected.contains_key(s) && !explained.contains(&s) {
            out.fail(format!("said:{}:{}", s.code, s.line), story(format!("{s:?} is said")), vector.clone());
        }
    }
    let mut sorted = said.clone();
    sorted.sort();
    if sorted.windows(2).any(|w| w[0] == w[1]) {
        out.fail("said:twice", story("twice the same".into()), vector.clone());
    }
    if shown.len() < viol.len() {
        out.nontrivial.push(vector.to_string());
        out.count("silenced");
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"viol": viol, "noqa": noqa, "said": said.len()}));
    }
    out
}

/// StyleOrder.tla
pub fn order(vector: &Value, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let mut rng = Rng::new(ctx.seed, &vector.to_string());
    let how = &vector["how"];
    let field = |name: &str| how[name].as_str().unwrap();
    let (what, site, dir) = (field("what"), field("site"), field("dir"));
    let rule = match what { "tables" => "tables-out-of-order", "dotted" => "dotted-keys-out-of-order", _ => "key-empty" };
    let directive = match dir {
        "-" => "# nothing".to_string(),
        "lint" => format!("# tombi: lint.rules.{rule}.disabled = true"),
        _ => "# tombi: format.rules.table-keys-order.disabled = true".to_string(),
    };
    let spell = |name: &str, as_: &str| match as_ {
        _ if name.is_empty() => if as_ == "bare" { "\"\"".to_string() } else { "''".to_string() },
        "basic" => format!("\"{name}\""),
        "literal" => format!("'{name}'"),
        "escaped" => format!("\"\\u{:04x}{}\"", name.chars().next().unwrap() as u32, &name[1..]),
        _ => name.to_string(),
    };
    let lines = vector["lines"].as_array().unwrap();
    let keys: Vec<String> = lines.iter().map(|l| spell(l["name"].as_str().unwrap(), l["as"].as_str().unwrap())).collect();
    let spread = rng.below(2) == 0;
    let comment = if what == "empty" { "" } else { directive.as_str() };
    // where the directive of a table stands
    // (a comment after the comma of an inline table is not about an empty key: a test says so)
    let point = if what == "empty" && site == "inline" { 0 } else { rng.below(3) };
    let mut text = String::new();
    if how["doc"].as_bool().unwrap() {
        text.push_str("#:tombi lint.disabled = true\n\n");
    }
    let mut at: Vec<u32> = vec![];
    let now = |text: &str| text.matches('\n').count() as u32;
    let entries: Vec<String> = keys.iter().enumerate().map(|(i, k)| {
        if what == "empty" && i > 0 { format!("x{i}.{k} = {i}") } else if what == "empty" { format!("{k} = {i}") } else { format!("{k}.k{i} = {i}") }
    }).collect();
    match what {
        "tables" => {
            text.push_str(&format!("{comment}\n\n"));
            for (i, k) in keys.iter().enumerate() {
                if spread { text.push('\n'); }
                at.push(now(&text));
                text.push_str(&match rng.below(3) {
                    0 => format!("[{k}.t{i}]\nx = 1\n"),
                    1 => format!("[[{k}.t{i}]]\n"),
                    _ => format!("[ {k} . \"t{i}\" . z ]\n"),
                });
            }
        }
        _ => {
            match site {
                "root" => text.push_str(&format!("{comment}\n\n")),
                "inline" if point == 0 => text.push_str(&format!("{comment}\nw = {{\n")),
                "inline" if point == 1 => text.push_str(&format!("w = {{ {comment}\n")),
                "inline" => text.push_str(&format!("w = {{\n  {comment}\n\n")),
                _ => {
                    let header = if site == "aot" { "[[w]]" } else { "[w]" };
                    text.push_str(&match point {
                        0 if site == "table" => format!("{comment}\n{header}\n"),
                        1 => format!("{header} {comment}\n"),
                        _ => format!("{header}\n{comment}\n\n"),
                    });
                }
            }
            for (i, e) in entries.iter().enumerate() {
                if spread && i > 0 && rng.below(2) == 0 { text.push('\n'); }
                let own = what == "empty" && dir != "-";
                if own && point == 0 { text.push_str(&format!("{directive}\n")); }
                at.push(now(&text));
                text.push_str(e);
                if site == "inline" { text.push(','); }
                if own && point > 0 { text.push_str(&format!(" {directive}")); }
                text.push('\n');
            }
            if site == "inline" { text.push_str("}\n"); }
        }
    }
    // the levels, from the configuration file
    let mut conf = String::new();
    if field("conf") != "-" {
        conf.push_str(&format!("[lint.rules]\n{rule} = \"{}\"\n", field("conf")));
    }
    if field("over") != "-" {
        conf.push_str(&format!("[[overrides]]\nfiles.include = [\"*.toml\"]\nlint.rules.{rule} = \"{}\"\n", field("over")));
    }
    let path = ctx.scratch.join("tombi.toml");
    let options = match serde_tombi::config::from_str(&conf, &path) {
        Ok(c) => c.merge_lint(c.overrides().and_then(|o| o.first()).and_then(|o| o.lint.as_ref())),
        Err(e) => {
            out.fail("harness:config", format!("{e}: {conf}"), vector.clone());
            return out;
        }
    };
    let store = offline_store();
    out.evals += 1;
    let said = match catch(|| block_on(async { tombi_linter::Linter::new(TomlVersion::V1_1_0, &options, None, &store).lint(&text).await })) {
        Err(p) => {
            out.fail("order:panic", format!("{p}: {text}"), vector.clone());
            return out;
        }
        Ok(Ok(())) => vec![],
        Ok(Err(ds)) => ds,
    };
    let mut got: Vec<(u32, String, bool)> = said.iter().map(|d| (d.range().start.line, d.code().to_string(), d.level() == tombi_diagnostic::Level::ERROR)).collect();
    got.sort();
    let mut want: Vec<(u32, String, bool)> = vector["told"].as_array().unwrap().iter()
        .map(|i| (at[i.as_u64().unwrap() as usize - 1], rule.to_string(), vector["level"] == "error")).collect();
    want.sort();
    if got != want {
        out.fail(format!("order:{what}:{site}:{dir}:{point}"), format!("[{}] with [{}]: {got:?} instead of {want:?}", text.replace('\n', " ⏎ "), conf.replace('\n', " ⏎ ")), vector.clone());
    }
    if !want.is_empty() {
        out.nontrivial.push(vector.to_string());
    }
    out
}
