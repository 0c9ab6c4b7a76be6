//! Builders shared by the entries.
use crate::sx;
use serde_json::Value;

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
/// Unpadded base64url, written independently of the code under test.
pub fn b64(d: &[u8]) -> String {
    let mut o = String::with_capacity(d.len() * 4 / 3 + 4);
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(ALPHABET[((n >> (18 - 6 * i)) & 63) as usize] as char);
        }
    }
    o
}

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

/// A JSON object from name and value pairs.
pub fn obj(m: Vec<(&str, Value)>) -> Value {
    let mut o = serde_json::Map::new();
    for (k, v) in m {
        o.insert(k.to_string(), v);
    }
    Value::Object(o)
}
pub fn s(v: &str) -> Value {
    Value::String(v.to_string())
}
/// The member is present and is that text.
pub fn has_str(v: &Value, k: &str, want: &str) -> bool {
    match v.get(k) {
        Some(Value::String(x)) => sx::same(x, want),
        _ => false,
    }
}
/// The member is absent or null.
pub fn lacks(v: &Value, k: &str) -> bool {
    matches!(v.get(k), None | Some(Value::Null))
}
pub fn has_opt_str(v: &Value, k: &str, want: &Option<String>) -> bool {
    match want {
        Some(w) => has_str(v, k, w),
        None => lacks(v, k),
    }
}
pub fn has_opt_num(v: &Value, k: &str, want: Option<u64>) -> bool {
    match want {
        Some(w) => v.get(k).and_then(Value::as_u64) == Some(w),
        None => lacks(v, k),
    }
}
pub fn has_opt_bool(v: &Value, k: &str, want: Option<bool>) -> bool {
    match want {
        Some(w) => v.get(k).and_then(Value::as_bool) == Some(w),
        None => lacks(v, k),
    }
}
/// Only these members may be present (with null counting as absent).
pub fn only(v: &Value, names: &[&str]) -> bool {
    match v {
        Value::Object(m) => m.iter().all(|(k, x)| x.is_null() || names.contains(&k.as_str())),
        _ => false,
    }
}

/// Text, lists and objects as a source for reading whose errors do not describe the position in the
/// text (serde_json's do, which forks for every symbolic character).
pub enum Src {
    S(String),
    L(Vec<Src>),
    O(Vec<(&'static str, Src)>),
}
type SrcError = serde::de::value::Error;
impl<'de> serde::Deserializer<'de> for Src {
    type Error = SrcError;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SrcError> {
        match self {
            Src::S(t) => v.visit_string(t),
            Src::L(l) => v.visit_seq(serde::de::value::SeqDeserializer::new(l.into_iter())),
            Src::O(o) => v.visit_map(serde::de::value::MapDeserializer::new(o.into_iter())),
        }
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SrcError> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SrcError> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum
        identifier ignored_any
    }
}
impl<'de> serde::de::IntoDeserializer<'de, SrcError> for Src {
    type Deserializer = Src;
    fn into_deserializer(self) -> Src {
        self
    }
}
pub fn read<T: serde::de::DeserializeOwned>(s: Src) -> Option<T> {
    T::deserialize(s).ok()
}
