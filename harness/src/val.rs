//! Helpers over `upon::Value`, which doubles as the data type of the model.

use std::collections::BTreeMap;
pub use upon::Value;

pub type Map = BTreeMap<String, Value>;

/// A canonical, unambiguous (bit exact) text form.
pub fn dump(v: &Value) -> String {
    let mut s = String::new();
    dump_to(v, &mut s);
    s
}

fn dump_to(v: &Value, s: &mut String) {
    use std::fmt::Write;
    match v {
        Value::None => s.push('~'),
        Value::Bool(b) => s.push(if *b { 'T' } else { 'F' }),
        Value::Integer(i) => write!(s, "{i}").unwrap(),
        Value::Float(f) => {
            if f.is_nan() {
                s.push_str("fNaN")
            } else {
                write!(s, "f{f:?}").unwrap()
            }
        }
        Value::String(x) => write!(s, "{x:?}").unwrap(),
        Value::List(l) => {
            s.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                dump_to(x, s);
            }
            s.push(']');
        }
        Value::Map(m) => {
            s.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                write!(s, "{k:?}:").unwrap();
                dump_to(x, s);
            }
            s.push('}');
        }
    }
}

/// Structural, bit exact equality (NaN equals NaN, 0.0 differs from -0.0).
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::None, Value::None) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Integer(a), Value::Integer(b)) => a == b,
        (Value::Float(a), Value::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (Value::String(a), Value::String(b)) => a == b,
        (Value::List(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Value::Map(a), Value::Map(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && same(a, b))
        }
        _ => false,
    }
}

pub fn kind_name(v: &Value) -> &'static str {
    match v {
        Value::None => "none",
        Value::Bool(_) => "bool",
        Value::Integer(_) => "integer",
        Value::Float(_) => "float",
        Value::String(_) => "string",
        Value::List(_) => "list",
        Value::Map(_) => "map",
    }
}

pub fn s(x: impl Into<String>) -> Value {
    Value::String(x.into())
}

pub fn map<const N: usize>(xs: [(&str, Value); N]) -> Value {
    Value::Map(xs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
