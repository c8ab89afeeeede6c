//! C18: replay of SerdeValues.tla: values of serde's data model are written
//! with serde_tombi, the text is read by tombi, and read back with serde.

use crate::common::*;
use crate::norm::{read_document, typed_document};
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant, Serializer,
};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::fmt;

const VARIANTS: &[&str] = &["A", "B"];

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Unit {
    A,
    B,
}

#[derive(Debug, Clone)]
enum Leaf {
    Bool(bool),
    I8(i8),
    I64(i64),
    U8(u8),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Variant(Unit),
    None,
    Unit,
    UnitStruct,
    Bytes,
    Odt(tombi_date_time::OffsetDateTime),
    Ldt(tombi_date_time::LocalDateTime),
    Date(tombi_date_time::LocalDate),
    Time(tombi_date_time::LocalTime),
}

impl PartialEq for Leaf {
    fn eq(&self, other: &Self) -> bool {
        // the sign of a zero counts, and not-a-number is itself
        format!("{self:?}") == format!("{other:?}")
    }
}

#[derive(Debug, Clone, PartialEq)]
enum V {
    Leaf(Leaf),
    /// kind, variant, items
    Node(String, String, Vec<(&'static str, V)>),
}

fn key_text(class: &str) -> &'static str {
    match class {
        "" => "",
        "bare" => "bare_key-1",
        "k2" => "other",
        "empty" => "",
        "dot" => "a.b",
        "space" => "two words",
        "quote" => "say \"hi\"",
        "apos" => "it's",
        "both" => "it's \"both\"",
        "uni" => "\u{65e5}\u{672c}",
        "lf" => "two\nlines",
        "num" => "1979",
        "hash" => "#no comment",
        "backslash" => "back\\slash",
        "eq" => "a=b",
        "int" => "<int>",
        "A" => "A",
        "B" => "B",
        other => panic!("unknown key {other}"),
    }
}

fn leaf(class: &str) -> Leaf {
    let s = |t: &str| Leaf::Str(t.to_string());
    match class {
        "b:true" => Leaf::Bool(true),
        "b:false" => Leaf::Bool(false),
        "i:-5" => Leaf::I64(-5),
        "i8:min" => Leaf::I8(i8::MIN),
        "i64:min" => Leaf::I64(i64::MIN),
        "i64:max" => Leaf::I64(i64::MAX),
        "u8:max" => Leaf::U8(u8::MAX),
        "u64:max" => Leaf::U64(i64::MAX as u64),
        "u64:big" => Leaf::U64(u64::MAX),
        "f:1" => Leaf::F64(1.0),
        "f:-0" => Leaf::F64(-0.0),
        "f:1.5" => Leaf::F64(1.5),
        "f:1e300" => Leaf::F64(1e300),
        "f:5e-324" => Leaf::F64(5e-324),
        "f:1e16" => Leaf::F64(1e16),
        "f:inf" => Leaf::F64(f64::INFINITY),
        "f:-inf" => Leaf::F64(f64::NEG_INFINITY),
        "f:nan" => Leaf::F64(f64::NAN),
        "f32:0.1" => Leaf::F32(0.1),
        "c:a" => Leaf::Char('a'),
        "c:quote" => Leaf::Char('"'),
        "c:nl" => Leaf::Char('\n'),
        "s:empty" => s(""),
        "s:plain" => s("plain"),
        "s:quote" => s("say \"hi\""),
        "s:backslash" => s("back\\slash\\"),
        "s:lf" => s("two\nlines\n"),
        "s:crlf" => s("two\r\nlines\r"),
        "s:control" => s("\u{0}\u{1}\u{7}\u{8}\u{b}\u{c}\u{1b}\u{7f}"),
        "s:uni" => s("\u{e9}\u{65e5}\u{1f985}\u{85}\u{2028}"),
        "s:apos" => s("it's"),
        "s:mixed" => s("it's \"both\""),
        "s:tripple" => s("'''\"\"\""),
        "s:hash" => s("# no comment"),
        "s:date" => s("1979-05-27"),
        "s:tab" => s("\ta\t "),
        "s:long" => s(&"long \u{e9}".repeat(40)),
        "uv:A" => Leaf::Variant(Unit::A),
        "uv:B" => Leaf::Variant(Unit::B),
        "none" => Leaf::None,
        "unit" => Leaf::Unit,
        "ustruct" => Leaf::UnitStruct,
        "bytes" => Leaf::Bytes,
        "odt" => Leaf::Odt("1979-05-27T00:32:00.999999-07:00".parse().unwrap()),
        "ldt" => Leaf::Ldt("1979-05-27T07:32:00".parse().unwrap()),
        "date" => Leaf::Date("1979-05-27".parse().unwrap()),
        "time" => Leaf::Time("00:32:00.5".parse().unwrap()),
        other => panic!("unknown leaf {other}"),
    }
}

fn typed_leaf(l: &Leaf) -> Value {
    let float = |x: f64| json!(["float", if x.is_nan() { "nan".to_string() } else { format!("{x:?}") }]);
    match l {
        Leaf::Bool(b) => json!(["bool", b]),
        Leaf::I8(i) => json!(["int", i.to_string()]),
        Leaf::I64(i) => json!(["int", i.to_string()]),
        Leaf::U8(i) => json!(["int", i.to_string()]),
        Leaf::U64(i) => json!(["int", i.to_string()]),
        Leaf::F32(x) => float(*x as f64),
        Leaf::F64(x) => float(*x),
        Leaf::Char(c) => json!(["str", c.to_string()]),
        Leaf::Str(s) => json!(["str", s]),
        Leaf::Variant(u) => json!(["str", format!("{u:?}")]),
        Leaf::Odt(d) => json!(["odt", d.to_string()]),
        Leaf::Ldt(d) => json!(["ldt", d.to_string()]),
        Leaf::Date(d) => json!(["date", d.to_string()]),
        Leaf::Time(d) => json!(["time", d.to_string()]),
        _ => Value::Null,
    }
}

/// The data that the specification expects, as norm.rs tells it.
fn typed(d: &Value) -> Value {
    let items = || d["items"].as_array().unwrap().iter();
    match d["t"].as_str().unwrap() {
        "leaf" => typed_leaf(&leaf(d["v"].as_str().unwrap())),
        "arr" => json!(["arr", items().map(|e| typed(&e["val"])).collect::<Vec<_>>()]),
        _ => {
            let mut entries: Vec<(&str, Value)> =
                items().map(|e| (key_text(e["key"].as_str().unwrap()), typed(&e["val"]))).collect();
            entries.sort_by(|a, b| a.0.cmp(b.0));
            let map: serde_json::Map<String, Value> = entries.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
            json!(["tab", map])
        }
    }
}

fn value(v: &Value) -> V {
    match v["k"].as_str().unwrap() {
        "leaf" => V::Leaf(leaf(v["v"].as_str().unwrap())),
        k => V::Node(
            k.to_string(),
            v["v"].as_str().unwrap().to_string(),
            v["items"].as_array().unwrap().iter().map(|e| (key_text(e["key"].as_str().unwrap()), value(&e["val"]))).collect(),
        ),
    }
}

fn variant(name: &str) -> (u32, &'static str) {
    let at = VARIANTS.iter().position(|v| *v == name).unwrap();
    (at as u32, VARIANTS[at])
}

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Leaf(l) => match l {
                Leaf::Bool(x) => x.serialize(s),
                Leaf::I8(x) => x.serialize(s),
                Leaf::I64(x) => x.serialize(s),
                Leaf::U8(x) => x.serialize(s),
                Leaf::U64(x) => x.serialize(s),
                Leaf::F32(x) => x.serialize(s),
                Leaf::F64(x) => x.serialize(s),
                Leaf::Char(x) => x.serialize(s),
                Leaf::Str(x) => x.serialize(s),
                Leaf::Variant(x) => x.serialize(s),
                Leaf::None => s.serialize_none(),
                Leaf::Unit => s.serialize_unit(),
                Leaf::UnitStruct => s.serialize_unit_struct("U"),
                Leaf::Bytes => s.serialize_bytes(b"bytes"),
                Leaf::Odt(x) => x.serialize(s),
                Leaf::Ldt(x) => x.serialize(s),
                Leaf::Date(x) => x.serialize(s),
                Leaf::Time(x) => x.serialize(s),
            },
            V::Node(kind, tag, items) => match kind.as_str() {
                "map" => {
                    let mut m = s.serialize_map(Some(items.len()))?;
                    for (k, v) in items {
                        if *k == "<int>" { m.serialize_entry(&5, v)? } else { m.serialize_entry(k, v)? }
                    }
                    m.end()
                }
                "struct" => {
                    let mut m = s.serialize_struct("S", items.len())?;
                    for (k, v) in items {
                        m.serialize_field(k, v)?;
                    }
                    m.end()
                }
                "sv" => {
                    let (i, name) = variant(tag);
                    let mut m = s.serialize_struct_variant("E", i, name, items.len())?;
                    for (k, v) in items {
                        m.serialize_field(k, v)?;
                    }
                    m.end()
                }
                "seq" => {
                    let mut m = s.serialize_seq(Some(items.len()))?;
                    for (_, v) in items {
                        m.serialize_element(v)?;
                    }
                    m.end()
                }
                "tuple" => {
                    let mut m = s.serialize_tuple(items.len())?;
                    for (_, v) in items {
                        m.serialize_element(v)?;
                    }
                    m.end()
                }
                "tstruct" => {
                    let mut m = s.serialize_tuple_struct("T", items.len())?;
                    for (_, v) in items {
                        m.serialize_field(v)?;
                    }
                    m.end()
                }
                "tv" => {
                    let (i, name) = variant(tag);
                    let mut m = s.serialize_tuple_variant("E", i, name, items.len())?;
                    for (_, v) in items {
                        m.serialize_field(v)?;
                    }
                    m.end()
                }
                "some" => s.serialize_some(&items[0].1),
                "newtype" => s.serialize_newtype_struct("N", &items[0].1),
                _ => {
                    let (i, name) = variant(tag);
                    s.serialize_newtype_variant("E", i, name, &items[0].1)
                }
            },
        }
    }
}

/// Reads a value of the type that a value has.
struct Like<'a>(&'a V);
struct Items<'a>(&'a str, &'a str, &'a [(&'static str, V)]);

impl<'de> DeserializeSeed<'de> for Like<'_> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        Ok(match self.0 {
            V::Leaf(l) => V::Leaf(match l {
                Leaf::Bool(_) => Leaf::Bool(Deserialize::deserialize(d)?),
                Leaf::I8(_) => Leaf::I8(Deserialize::deserialize(d)?),
                Leaf::I64(_) => Leaf::I64(Deserialize::deserialize(d)?),
                Leaf::U8(_) => Leaf::U8(Deserialize::deserialize(d)?),
                Leaf::U64(_) => Leaf::U64(Deserialize::deserialize(d)?),
                Leaf::F32(_) => Leaf::F32(Deserialize::deserialize(d)?),
                Leaf::F64(_) => Leaf::F64(Deserialize::deserialize(d)?),
                Leaf::Char(_) => Leaf::Char(Deserialize::deserialize(d)?),
                Leaf::Str(_) => Leaf::Str(Deserialize::deserialize(d)?),
                Leaf::Variant(_) => Leaf::Variant(Deserialize::deserialize(d)?),
                Leaf::Odt(_) => Leaf::Odt(Deserialize::deserialize(d)?),
                Leaf::Ldt(_) => Leaf::Ldt(Deserialize::deserialize(d)?),
                Leaf::Date(_) => Leaf::Date(Deserialize::deserialize(d)?),
                Leaf::Time(_) => Leaf::Time(Deserialize::deserialize(d)?),
                _ => return Err(serde::de::Error::custom("something where nothing was written")),
            }),
            V::Node(kind, tag, items) => {
                let fields: Vec<&'static str> = items.iter().map(|i| i.0).collect();
                // few and small
                let fields: &'static [&'static str] = Box::leak(fields.into_boxed_slice());
                let v = Items(kind, tag, items);
                match kind.as_str() {
                    "map" => d.deserialize_map(v)?,
                    "struct" => d.deserialize_struct("S", fields, v)?,
                    "seq" => d.deserialize_seq(v)?,
                    "tuple" => d.deserialize_tuple(items.len(), v)?,
                    "tstruct" => d.deserialize_tuple_struct("T", items.len(), v)?,
                    "some" => d.deserialize_option(v)?,
                    "newtype" => d.deserialize_newtype_struct("N", v)?,
                    _ => d.deserialize_enum("E", VARIANTS, v)?,
                }
            }
        })
    }
}

impl Items<'_> {
    fn with(&self, items: Vec<(&'static str, V)>) -> V {
        V::Node(self.0.to_string(), self.1.to_string(), items)
    }
}

impl<'de> Visitor<'de> for Items<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a {}", self.0)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<V, A::Error> {
        let mut found: Vec<Option<V>> = vec![None; self.2.len()];
        while let Some(key) = map.next_key::<String>()? {
            let Some(at) = self.2.iter().position(|i| i.0 == key) else {
                return Err(serde::de::Error::custom(format!("unknown key {key:?}")));
            };
            found[at] = Some(map.next_value_seed(Like(&self.2[at].1))?);
        }
        let mut items = vec![];
        for (i, got) in self.2.iter().zip(found) {
            match got {
                Some(v) => items.push((i.0, v)),
                None if i.1 == V::Leaf(Leaf::None) => items.push((i.0, V::Leaf(Leaf::None))),
                None => return Err(serde::de::Error::custom(format!("no key {:?}", i.0))),
            }
        }
        Ok(self.with(items))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<V, A::Error> {
        let mut items = vec![];
        for i in self.2 {
            match seq.next_element_seed(Like(&i.1))? {
                Some(v) => items.push((i.0, v)),
                None => return Err(serde::de::Error::custom("too short")),
            }
        }
        if seq.next_element::<serde::de::IgnoredAny>()?.is_some() {
            return Err(serde::de::Error::custom("too long"));
        }
        Ok(self.with(items))
    }
    fn visit_unit<E: serde::de::Error>(self) -> Result<V, E> {
        if self.0 == "tv" && self.2.is_empty() { Ok(self.with(vec![])) } else { Err(E::custom("a unit")) }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        let v = Like(&self.2[0].1).deserialize(d)?;
        Ok(self.with(vec![("", v)]))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        let v = Like(&self.2[0].1).deserialize(d)?;
        Ok(self.with(vec![("", v)]))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, data: A) -> Result<V, A::Error> {
        let (name, access) = data.variant::<String>()?;
        if !VARIANTS.contains(&name.as_str()) {
            return Err(serde::de::Error::custom(format!("no variant {name:?}")));
        }
        let inner = Items(self.0, &name, self.2);
        match self.0 {
            "nv" => {
                let v = access.newtype_variant_seed(Like(&self.2[0].1))?;
                Ok(inner.with(vec![("", v)]))
            }
            "tv" => access.tuple_variant(self.2.len(), inner),
            _ => access.struct_variant(&[], inner),
        }
    }
}

/// What serde knows of types is only known when reading: the value that is expected.
struct Expected;
thread_local! {
    static LIKE: std::cell::RefCell<Option<V>> = const { std::cell::RefCell::new(None) };
}
struct Read(V);
impl<'de> Deserialize<'de> for Read {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let like = Expected::get();
        Like(&like).deserialize(d).map(Read)
    }
}
impl Expected {
    fn get() -> V {
        LIKE.with(|l| l.borrow().clone().unwrap())
    }
}

fn shape(v: &V) -> String {
    match v {
        V::Leaf(l) => format!("{l:?}").split('(').next().unwrap().to_string(),
        V::Node(k, _, items) => format!("{k}({})", items.iter().map(|i| shape(&i.1)).collect::<Vec<_>>().join(",")),
    }
}

pub fn check(vector: &Value, _ctx: &Ctx) -> Outcome {
    let mut out = Outcome::default();
    let v = value(&vector["value"]);
    let accepted = vector["accepted"].as_bool().unwrap();
    let store = offline_store();
    let written = catch(|| {
        block_on(async {
            serde_tombi::Serializer::builder().schema_store(&store).build().to_string_async(&v).await.map_err(|e| e.to_string())
        })
    });
    out.evals += 1;
    let text = match written {
        Err(panic) => {
            out.fail(format!("panic:{}", shape(&v)), format!("writing {v:?} panics: {panic}"), vector.clone());
            return out;
        }
        Ok(Err(e)) => {
            if accepted {
                out.fail(format!("refused:{}", shape(&v)), format!("{v:?} is refused: {e}"), vector.clone());
            }
            return out;
        }
        Ok(Ok(text)) => text,
    };
    if !accepted {
        out.fail(format!("written:{}", shape(&v)), format!("{v:?}, which TOML cannot express, is written as {text:?}"), vector.clone());
        return out;
    }
    out.evals += 1;
    let want = typed(&vector["data"]);
    match read_document(&text, tombi_toml_version::TomlVersion::default()) {
        Err(e) => out.fail(format!("invalid:{}", shape(&v)), format!("{v:?} is written as {text:?}: {e}"), vector.clone()),
        Ok(d) => {
            let got = typed_document(&d);
            if got != want {
                out.fail(format!("data:{}", shape(&v)), format!("{v:?} is written as {text:?}, which is {got} instead of {want}"), vector.clone());
            }
        }
    }
    out.evals += 1;
    LIKE.with(|l| *l.borrow_mut() = Some(v.clone()));
    let read = catch(|| {
        block_on(async {
            serde_tombi::Deserializer::builder().schema_store(&store).build().from_str_async::<Read>(&text).await.map_err(|e| format!("{e:?}"))
        })
    });
    match read {
        Ok(Ok(Read(back))) if back == v => {}
        Ok(Ok(Read(back))) => {
            out.fail(format!("other:{}", shape(&v)), format!("{v:?} is written as {text:?} and read as {back:?}"), vector.clone())
        }
        Ok(Err(e)) => {
            out.fail(format!("unreadable:{}", shape(&v)), format!("{v:?} is written as {text:?} and not read: {e}"), vector.clone())
        }
        Err(panic) => out.fail(format!("panic:{}", shape(&v)), format!("reading {text:?} panics: {panic}"), vector.clone()),
    }
    if matches!(&v, V::Node(_, _, items) if !items.is_empty()) {
        out.nontrivial.push(text.clone());
    }
    if out.violations.is_empty() {
        out.sample = Some(json!({"value": shape(&v), "text": text}));
    }
    out
}
