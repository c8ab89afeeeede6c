//! C22: replay of VersionSort.tla.

use crate::common::*;
use serde_json::{Value, json};

fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

pub fn version(vector: &Value, _ctx: &Ctx) -> Outcome {
    let mut out = Outcome { evals: 2, ..Default::default() };
    let (a, b) = (text(&vector["a"]), text(&vector["b"]));
    let want = vector["order"].as_i64().unwrap();
    out.nontrivial.push(format!("{a}\u{0}{b}"));
    for (x, y, want) in [(&a, &b, want), (&b, &a, -want)] {
        match catch(|| tombi_version_sort::version_sort(x, y) as i64) {
            Ok(got) if got == want => {}
            Ok(got) => out.fail(format!("version:{want}:{}", x.chars().map(class).collect::<String>()),
                format!("{x:?} against {y:?} is {got} instead of {want}"), vector.clone()),
            Err(p) => out.fail("version:panic", format!("{x:?} against {y:?} panics: {p}"), vector.clone()),
        }
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"a": a, "b": b, "order": want}));
    }
    out
}

fn class(c: char) -> char {
    match c {
        '0'..='9' => 'd',
        'a'..='z' => 'a',
        c => c,
    }
}
