//! Reading a text through tombi's own public entry points, and projecting the
//! result to the abstract values the specifications use.

use serde_json::{Value as J, json};
use tombi_document::{Document, Table, Value};
use tombi_document_tree::IntoDocumentTreeAndErrors;
use tombi_toml_version::TomlVersion;

/// Verdict and value of the document (parser, then document tree).
pub fn read_document(text: &str, version: TomlVersion) -> Result<Document, String> {
    use tombi_ast::AstNode;
    let parsed = tombi_parser::parse(text);
    if !parsed.errors.is_empty() {
        return Err(format!("parse: {:?}", parsed.errors));
    }
    let root = tombi_ast::Root::cast(parsed.syntax_node()).ok_or("no root")?;
    let (tree, errors) = root.into_document_tree_and_errors(version).into();
    if !errors.is_empty() {
        return Err(format!("tree: {:?}", errors));
    }
    use tombi_document::IntoDocument;
    Ok(tree.into_document(version))
}

pub fn typed(v: &Value) -> J {
    match v {
        Value::Boolean(b) => json!(["bool", b.value()]),
        Value::Integer(i) => json!(["int", i.value().to_string()]),
        Value::Float(f) => {
            let x = f.value();
            json!(["float", if x.is_nan() { "nan".to_string() } else { format!("{x:?}") }])
        }
        Value::String(s) => json!(["str", s.value()]),
        Value::OffsetDateTime(d) => json!(["odt", d.to_string()]),
        Value::LocalDateTime(d) => json!(["ldt", d.to_string()]),
        Value::LocalDate(d) => json!(["date", d.to_string()]),
        Value::LocalTime(d) => json!(["time", d.to_string()]),
        Value::Array(a) => json!(["arr", a.values().iter().map(typed).collect::<Vec<_>>()]),
        Value::Table(t) => typed_table(t),
    }
}

pub fn typed_table(t: &Table) -> J {
    let mut m = serde_json::Map::new();
    let mut entries: Vec<(String, J)> =
        t.key_values().iter().map(|(k, v)| (k.value().to_string(), typed(v))).collect();
    entries.sort_by(|a, b| a.0.cmp(&b.0));
    for (k, v) in entries {
        m.insert(k, v);
    }
    json!(["tab", m])
}

/// The same with keys in document order: the order of keys is not data, but a
/// formatter that is not asked to sort leaves it alone.
pub fn ordered_document(d: &Document) -> J {
    fn table(t: &Table) -> J {
        json!(["tab", t.key_values().iter().map(|(k, v)| json!([k.value(), value(v)])).collect::<Vec<_>>()])
    }
    fn value(v: &Value) -> J {
        match v {
            Value::Array(a) => json!(["arr", a.values().iter().map(value).collect::<Vec<_>>()]),
            Value::Table(t) => table(t),
            v => typed(v),
        }
    }
    table(d)
}

pub fn typed_document(d: &Document) -> J {
    typed_table(d)
}

/// tombi's own verdict on the text through the linter (what `tombi lint`
/// reports): the number of ERROR diagnostics.
pub fn lint_errors(text: &str, version: TomlVersion) -> Vec<String> {
    let store = crate::common::offline_store();
    let options = tombi_linter::LintOptions::default();
    let r = crate::common::block_on(async {
        tombi_linter::Linter::new(version, &options, None, &store).lint(text).await
    });
    match r {
        Ok(()) => vec![],
        Err(ds) => ds
            .into_iter()
            .filter(|d| d.level() == tombi_diagnostic::Level::ERROR)
            .map(|d| format!("{}@{:?}", d.code(), d.range()))
            .collect(),
    }
}
