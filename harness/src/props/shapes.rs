// Written by tools/genshapes.py.
use super::functions::{shape, Shape};
use crate::val::{Map, Value};
#[rustfmt::skip]
pub const SHAPES: &[Shape] = &[
    Shape { code: "o", ret: "P" },
    Shape { code: "oo", ret: "R" },
    Shape { code: "os", ret: "O" },
    Shape { code: "ooo", ret: "RO" },
    Shape { code: "oos", ret: "V" },
    Shape { code: "oso", ret: "P" },
    Shape { code: "oss", ret: "R" },
    Shape { code: "oooo", ret: "O" },
    Shape { code: "ooos", ret: "RO" },
    Shape { code: "ooso", ret: "V" },
    Shape { code: "ooss", ret: "P" },
    Shape { code: "osoo", ret: "R" },
    Shape { code: "osos", ret: "O" },
    Shape { code: "osso", ret: "RO" },
    Shape { code: "osss", ret: "V" },
    Shape { code: "ooooo", ret: "P" },
    Shape { code: "oooos", ret: "R" },
    Shape { code: "oooso", ret: "O" },
    Shape { code: "oooss", ret: "RO" },
    Shape { code: "oosoo", ret: "V" },
    Shape { code: "oosos", ret: "P" },
    Shape { code: "oosso", ret: "R" },
    Shape { code: "oosss", ret: "O" },
    Shape { code: "osooo", ret: "RO" },
    Shape { code: "osoos", ret: "V" },
    Shape { code: "ososo", ret: "P" },
    Shape { code: "ososs", ret: "R" },
    Shape { code: "ossoo", ret: "O" },
    Shape { code: "ossos", ret: "RO" },
    Shape { code: "ossso", ret: "V" },
    Shape { code: "ossss", ret: "P" },
    Shape { code: "s", ret: "R" },
    Shape { code: "so", ret: "O" },
    Shape { code: "ss", ret: "RO" },
    Shape { code: "soo", ret: "V" },
    Shape { code: "sos", ret: "P" },
    Shape { code: "sso", ret: "R" },
    Shape { code: "sss", ret: "O" },
    Shape { code: "sooo", ret: "RO" },
    Shape { code: "soos", ret: "V" },
    Shape { code: "soso", ret: "P" },
    Shape { code: "soss", ret: "R" },
    Shape { code: "ssoo", ret: "O" },
    Shape { code: "ssos", ret: "RO" },
    Shape { code: "ssso", ret: "V" },
    Shape { code: "ssss", ret: "P" },
    Shape { code: "soooo", ret: "R" },
    Shape { code: "sooos", ret: "O" },
    Shape { code: "sooso", ret: "RO" },
    Shape { code: "sooss", ret: "V" },
    Shape { code: "sosoo", ret: "P" },
    Shape { code: "sosos", ret: "R" },
    Shape { code: "sosso", ret: "O" },
    Shape { code: "sosss", ret: "RO" },
    Shape { code: "ssooo", ret: "V" },
    Shape { code: "ssoos", ret: "P" },
    Shape { code: "ssoso", ret: "R" },
    Shape { code: "ssoss", ret: "O" },
    Shape { code: "sssoo", ret: "RO" },
    Shape { code: "sssos", ret: "V" },
    Shape { code: "sssso", ret: "P" },
    Shape { code: "sssss", ret: "R" },
    Shape { code: "l", ret: "O" },
    Shape { code: "lo", ret: "RO" },
    Shape { code: "ls", ret: "V" },
    Shape { code: "loo", ret: "P" },
    Shape { code: "los", ret: "R" },
    Shape { code: "lso", ret: "O" },
    Shape { code: "lss", ret: "RO" },
    Shape { code: "looo", ret: "V" },
    Shape { code: "loos", ret: "P" },
    Shape { code: "loso", ret: "R" },
    Shape { code: "loss", ret: "O" },
    Shape { code: "lsoo", ret: "RO" },
    Shape { code: "lsos", ret: "V" },
    Shape { code: "lsso", ret: "P" },
    Shape { code: "lsss", ret: "R" },
    Shape { code: "loooo", ret: "O" },
    Shape { code: "looos", ret: "RO" },
    Shape { code: "looso", ret: "V" },
    Shape { code: "looss", ret: "P" },
    Shape { code: "losoo", ret: "R" },
    Shape { code: "losos", ret: "O" },
    Shape { code: "losso", ret: "RO" },
    Shape { code: "losss", ret: "V" },
    Shape { code: "lsooo", ret: "P" },
    Shape { code: "lsoos", ret: "R" },
    Shape { code: "lsoso", ret: "O" },
    Shape { code: "lsoss", ret: "RO" },
    Shape { code: "lssoo", ret: "V" },
    Shape { code: "lssos", ret: "P" },
    Shape { code: "lssso", ret: "R" },
    Shape { code: "lssss", ret: "O" },
    Shape { code: "m", ret: "RO" },
    Shape { code: "mo", ret: "V" },
    Shape { code: "ms", ret: "P" },
    Shape { code: "moo", ret: "R" },
    Shape { code: "mos", ret: "O" },
    Shape { code: "mso", ret: "RO" },
    Shape { code: "mss", ret: "V" },
    Shape { code: "mooo", ret: "P" },
    Shape { code: "moos", ret: "R" },
    Shape { code: "moso", ret: "O" },
    Shape { code: "moss", ret: "RO" },
    Shape { code: "msoo", ret: "V" },
    Shape { code: "msos", ret: "P" },
    Shape { code: "msso", ret: "R" },
    Shape { code: "msss", ret: "O" },
    Shape { code: "moooo", ret: "RO" },
    Shape { code: "mooos", ret: "V" },
    Shape { code: "mooso", ret: "P" },
    Shape { code: "mooss", ret: "R" },
    Shape { code: "mosoo", ret: "O" },
    Shape { code: "mosos", ret: "RO" },
    Shape { code: "mosso", ret: "V" },
    Shape { code: "mosss", ret: "P" },
    Shape { code: "msooo", ret: "R" },
    Shape { code: "msoos", ret: "O" },
    Shape { code: "msoso", ret: "RO" },
    Shape { code: "msoss", ret: "V" },
    Shape { code: "mssoo", ret: "P" },
    Shape { code: "mssos", ret: "R" },
    Shape { code: "mssso", ret: "O" },
    Shape { code: "mssss", ret: "RO" },
    Shape { code: "v", ret: "V" },
    Shape { code: "vo", ret: "P" },
    Shape { code: "vs", ret: "R" },
    Shape { code: "voo", ret: "O" },
    Shape { code: "vos", ret: "RO" },
    Shape { code: "vso", ret: "V" },
    Shape { code: "vss", ret: "P" },
    Shape { code: "vooo", ret: "R" },
    Shape { code: "voos", ret: "O" },
    Shape { code: "voso", ret: "RO" },
    Shape { code: "voss", ret: "V" },
    Shape { code: "vsoo", ret: "P" },
    Shape { code: "vsos", ret: "R" },
    Shape { code: "vsso", ret: "O" },
    Shape { code: "vsss", ret: "RO" },
    Shape { code: "voooo", ret: "V" },
    Shape { code: "vooos", ret: "P" },
    Shape { code: "vooso", ret: "R" },
    Shape { code: "vooss", ret: "O" },
    Shape { code: "vosoo", ret: "RO" },
    Shape { code: "vosos", ret: "V" },
    Shape { code: "vosso", ret: "P" },
    Shape { code: "vosss", ret: "R" },
    Shape { code: "vsooo", ret: "O" },
    Shape { code: "vsoos", ret: "RO" },
    Shape { code: "vsoso", ret: "V" },
    Shape { code: "vsoss", ret: "P" },
    Shape { code: "vssoo", ret: "R" },
    Shape { code: "vssos", ret: "O" },
    Shape { code: "vssso", ret: "RO" },
    Shape { code: "vssss", ret: "V" },
];
#[rustfmt::skip]
pub fn register(e: &mut upon::Engine<'_>) {
    use crate::funcs::ToV;
    e.add_filter("s0", |v: Value| -> Value { { let x = shape(0, vec![v.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s1", |v: Value, a: Value| -> Result<Value, String> { shape(1, vec![v.to_v(), a.to_v()]).map(|x| x) });
    e.add_filter("s2", |v: Value, a: &str| -> Option<Value> { { let x = shape(2, vec![v.to_v(), a.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s3", |v: Value, a: Value, b: Value| -> Result<Option<Value>, String> { shape(3, vec![v.to_v(), a.to_v(), b.to_v()]).map(|x| Some(x)) });
    e.add_filter("s4", |v: Value, a: Value, b: &str| -> Vec<Value> { { let x = shape(4, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s5", |v: Value, a: &str, b: Value| -> Value { { let x = shape(5, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s6", |v: Value, a: &str, b: &str| -> Result<Value, String> { shape(6, vec![v.to_v(), a.to_v(), b.to_v()]).map(|x| x) });
    e.add_filter("s7", |v: Value, a: Value, b: Value, c: Value| -> Option<Value> { { let x = shape(7, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s8", |v: Value, a: Value, b: Value, c: &str| -> Result<Option<Value>, String> { shape(8, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| Some(x)) });
    e.add_filter("s9", |v: Value, a: Value, b: &str, c: Value| -> Vec<Value> { { let x = shape(9, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s10", |v: Value, a: Value, b: &str, c: &str| -> Value { { let x = shape(10, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s11", |v: Value, a: &str, b: Value, c: Value| -> Result<Value, String> { shape(11, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| x) });
    e.add_filter("s12", |v: Value, a: &str, b: Value, c: &str| -> Option<Value> { { let x = shape(12, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s13", |v: Value, a: &str, b: &str, c: Value| -> Result<Option<Value>, String> { shape(13, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| Some(x)) });
    e.add_filter("s14", |v: Value, a: &str, b: &str, c: &str| -> Vec<Value> { { let x = shape(14, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s15", |v: Value, a: Value, b: Value, c: Value, d: Value| -> Value { { let x = shape(15, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s16", |v: Value, a: Value, b: Value, c: Value, d: &str| -> Result<Value, String> { shape(16, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s17", |v: Value, a: Value, b: Value, c: &str, d: Value| -> Option<Value> { { let x = shape(17, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s18", |v: Value, a: Value, b: Value, c: &str, d: &str| -> Result<Option<Value>, String> { shape(18, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s19", |v: Value, a: Value, b: &str, c: Value, d: Value| -> Vec<Value> { { let x = shape(19, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s20", |v: Value, a: Value, b: &str, c: Value, d: &str| -> Value { { let x = shape(20, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s21", |v: Value, a: Value, b: &str, c: &str, d: Value| -> Result<Value, String> { shape(21, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s22", |v: Value, a: Value, b: &str, c: &str, d: &str| -> Option<Value> { { let x = shape(22, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s23", |v: Value, a: &str, b: Value, c: Value, d: Value| -> Result<Option<Value>, String> { shape(23, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s24", |v: Value, a: &str, b: Value, c: Value, d: &str| -> Vec<Value> { { let x = shape(24, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s25", |v: Value, a: &str, b: Value, c: &str, d: Value| -> Value { { let x = shape(25, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s26", |v: Value, a: &str, b: Value, c: &str, d: &str| -> Result<Value, String> { shape(26, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s27", |v: Value, a: &str, b: &str, c: Value, d: Value| -> Option<Value> { { let x = shape(27, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s28", |v: Value, a: &str, b: &str, c: Value, d: &str| -> Result<Option<Value>, String> { shape(28, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s29", |v: Value, a: &str, b: &str, c: &str, d: Value| -> Vec<Value> { { let x = shape(29, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s30", |v: Value, a: &str, b: &str, c: &str, d: &str| -> Value { { let x = shape(30, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s31", |v: &str| -> Result<Value, String> { shape(31, vec![v.to_v()]).map(|x| x) });
    e.add_filter("s32", |v: &str, a: Value| -> Option<Value> { { let x = shape(32, vec![v.to_v(), a.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s33", |v: &str, a: &str| -> Result<Option<Value>, String> { shape(33, vec![v.to_v(), a.to_v()]).map(|x| Some(x)) });
    e.add_filter("s34", |v: &str, a: Value, b: Value| -> Vec<Value> { { let x = shape(34, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s35", |v: &str, a: Value, b: &str| -> Value { { let x = shape(35, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s36", |v: &str, a: &str, b: Value| -> Result<Value, String> { shape(36, vec![v.to_v(), a.to_v(), b.to_v()]).map(|x| x) });
    e.add_filter("s37", |v: &str, a: &str, b: &str| -> Option<Value> { { let x = shape(37, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s38", |v: &str, a: Value, b: Value, c: Value| -> Result<Option<Value>, String> { shape(38, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| Some(x)) });
    e.add_filter("s39", |v: &str, a: Value, b: Value, c: &str| -> Vec<Value> { { let x = shape(39, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s40", |v: &str, a: Value, b: &str, c: Value| -> Value { { let x = shape(40, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s41", |v: &str, a: Value, b: &str, c: &str| -> Result<Value, String> { shape(41, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| x) });
    e.add_filter("s42", |v: &str, a: &str, b: Value, c: Value| -> Option<Value> { { let x = shape(42, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s43", |v: &str, a: &str, b: Value, c: &str| -> Result<Option<Value>, String> { shape(43, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| Some(x)) });
    e.add_filter("s44", |v: &str, a: &str, b: &str, c: Value| -> Vec<Value> { { let x = shape(44, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s45", |v: &str, a: &str, b: &str, c: &str| -> Value { { let x = shape(45, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s46", |v: &str, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { shape(46, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s47", |v: &str, a: Value, b: Value, c: Value, d: &str| -> Option<Value> { { let x = shape(47, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s48", |v: &str, a: Value, b: Value, c: &str, d: Value| -> Result<Option<Value>, String> { shape(48, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s49", |v: &str, a: Value, b: Value, c: &str, d: &str| -> Vec<Value> { { let x = shape(49, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s50", |v: &str, a: Value, b: &str, c: Value, d: Value| -> Value { { let x = shape(50, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s51", |v: &str, a: Value, b: &str, c: Value, d: &str| -> Result<Value, String> { shape(51, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s52", |v: &str, a: Value, b: &str, c: &str, d: Value| -> Option<Value> { { let x = shape(52, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s53", |v: &str, a: Value, b: &str, c: &str, d: &str| -> Result<Option<Value>, String> { shape(53, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s54", |v: &str, a: &str, b: Value, c: Value, d: Value| -> Vec<Value> { { let x = shape(54, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s55", |v: &str, a: &str, b: Value, c: Value, d: &str| -> Value { { let x = shape(55, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s56", |v: &str, a: &str, b: Value, c: &str, d: Value| -> Result<Value, String> { shape(56, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s57", |v: &str, a: &str, b: Value, c: &str, d: &str| -> Option<Value> { { let x = shape(57, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s58", |v: &str, a: &str, b: &str, c: Value, d: Value| -> Result<Option<Value>, String> { shape(58, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s59", |v: &str, a: &str, b: &str, c: Value, d: &str| -> Vec<Value> { { let x = shape(59, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s60", |v: &str, a: &str, b: &str, c: &str, d: Value| -> Value { { let x = shape(60, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s61", |v: &str, a: &str, b: &str, c: &str, d: &str| -> Result<Value, String> { shape(61, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s62", |v: &[Value]| -> Option<Value> { { let x = shape(62, vec![v.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s63", |v: &[Value], a: Value| -> Result<Option<Value>, String> { shape(63, vec![v.to_v(), a.to_v()]).map(|x| Some(x)) });
    e.add_filter("s64", |v: &[Value], a: &str| -> Vec<Value> { { let x = shape(64, vec![v.to_v(), a.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s65", |v: &[Value], a: Value, b: Value| -> Value { { let x = shape(65, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s66", |v: &[Value], a: Value, b: &str| -> Result<Value, String> { shape(66, vec![v.to_v(), a.to_v(), b.to_v()]).map(|x| x) });
    e.add_filter("s67", |v: &[Value], a: &str, b: Value| -> Option<Value> { { let x = shape(67, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s68", |v: &[Value], a: &str, b: &str| -> Result<Option<Value>, String> { shape(68, vec![v.to_v(), a.to_v(), b.to_v()]).map(|x| Some(x)) });
    e.add_filter("s69", |v: &[Value], a: Value, b: Value, c: Value| -> Vec<Value> { { let x = shape(69, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s70", |v: &[Value], a: Value, b: Value, c: &str| -> Value { { let x = shape(70, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s71", |v: &[Value], a: Value, b: &str, c: Value| -> Result<Value, String> { shape(71, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| x) });
    e.add_filter("s72", |v: &[Value], a: Value, b: &str, c: &str| -> Option<Value> { { let x = shape(72, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s73", |v: &[Value], a: &str, b: Value, c: Value| -> Result<Option<Value>, String> { shape(73, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| Some(x)) });
    e.add_filter("s74", |v: &[Value], a: &str, b: Value, c: &str| -> Vec<Value> { { let x = shape(74, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s75", |v: &[Value], a: &str, b: &str, c: Value| -> Value { { let x = shape(75, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s76", |v: &[Value], a: &str, b: &str, c: &str| -> Result<Value, String> { shape(76, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| x) });
    e.add_filter("s77", |v: &[Value], a: Value, b: Value, c: Value, d: Value| -> Option<Value> { { let x = shape(77, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s78", |v: &[Value], a: Value, b: Value, c: Value, d: &str| -> Result<Option<Value>, String> { shape(78, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s79", |v: &[Value], a: Value, b: Value, c: &str, d: Value| -> Vec<Value> { { let x = shape(79, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s80", |v: &[Value], a: Value, b: Value, c: &str, d: &str| -> Value { { let x = shape(80, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s81", |v: &[Value], a: Value, b: &str, c: Value, d: Value| -> Result<Value, String> { shape(81, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s82", |v: &[Value], a: Value, b: &str, c: Value, d: &str| -> Option<Value> { { let x = shape(82, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s83", |v: &[Value], a: Value, b: &str, c: &str, d: Value| -> Result<Option<Value>, String> { shape(83, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s84", |v: &[Value], a: Value, b: &str, c: &str, d: &str| -> Vec<Value> { { let x = shape(84, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s85", |v: &[Value], a: &str, b: Value, c: Value, d: Value| -> Value { { let x = shape(85, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s86", |v: &[Value], a: &str, b: Value, c: Value, d: &str| -> Result<Value, String> { shape(86, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s87", |v: &[Value], a: &str, b: Value, c: &str, d: Value| -> Option<Value> { { let x = shape(87, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s88", |v: &[Value], a: &str, b: Value, c: &str, d: &str| -> Result<Option<Value>, String> { shape(88, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s89", |v: &[Value], a: &str, b: &str, c: Value, d: Value| -> Vec<Value> { { let x = shape(89, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s90", |v: &[Value], a: &str, b: &str, c: Value, d: &str| -> Value { { let x = shape(90, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s91", |v: &[Value], a: &str, b: &str, c: &str, d: Value| -> Result<Value, String> { shape(91, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s92", |v: &[Value], a: &str, b: &str, c: &str, d: &str| -> Option<Value> { { let x = shape(92, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s93", |v: &Map| -> Result<Option<Value>, String> { shape(93, vec![v.to_v()]).map(|x| Some(x)) });
    e.add_filter("s94", |v: &Map, a: Value| -> Vec<Value> { { let x = shape(94, vec![v.to_v(), a.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s95", |v: &Map, a: &str| -> Value { { let x = shape(95, vec![v.to_v(), a.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s96", |v: &Map, a: Value, b: Value| -> Result<Value, String> { shape(96, vec![v.to_v(), a.to_v(), b.to_v()]).map(|x| x) });
    e.add_filter("s97", |v: &Map, a: Value, b: &str| -> Option<Value> { { let x = shape(97, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s98", |v: &Map, a: &str, b: Value| -> Result<Option<Value>, String> { shape(98, vec![v.to_v(), a.to_v(), b.to_v()]).map(|x| Some(x)) });
    e.add_filter("s99", |v: &Map, a: &str, b: &str| -> Vec<Value> { { let x = shape(99, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s100", |v: &Map, a: Value, b: Value, c: Value| -> Value { { let x = shape(100, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s101", |v: &Map, a: Value, b: Value, c: &str| -> Result<Value, String> { shape(101, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| x) });
    e.add_filter("s102", |v: &Map, a: Value, b: &str, c: Value| -> Option<Value> { { let x = shape(102, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s103", |v: &Map, a: Value, b: &str, c: &str| -> Result<Option<Value>, String> { shape(103, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| Some(x)) });
    e.add_filter("s104", |v: &Map, a: &str, b: Value, c: Value| -> Vec<Value> { { let x = shape(104, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s105", |v: &Map, a: &str, b: Value, c: &str| -> Value { { let x = shape(105, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s106", |v: &Map, a: &str, b: &str, c: Value| -> Result<Value, String> { shape(106, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| x) });
    e.add_filter("s107", |v: &Map, a: &str, b: &str, c: &str| -> Option<Value> { { let x = shape(107, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s108", |v: &Map, a: Value, b: Value, c: Value, d: Value| -> Result<Option<Value>, String> { shape(108, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s109", |v: &Map, a: Value, b: Value, c: Value, d: &str| -> Vec<Value> { { let x = shape(109, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s110", |v: &Map, a: Value, b: Value, c: &str, d: Value| -> Value { { let x = shape(110, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s111", |v: &Map, a: Value, b: Value, c: &str, d: &str| -> Result<Value, String> { shape(111, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s112", |v: &Map, a: Value, b: &str, c: Value, d: Value| -> Option<Value> { { let x = shape(112, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s113", |v: &Map, a: Value, b: &str, c: Value, d: &str| -> Result<Option<Value>, String> { shape(113, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s114", |v: &Map, a: Value, b: &str, c: &str, d: Value| -> Vec<Value> { { let x = shape(114, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s115", |v: &Map, a: Value, b: &str, c: &str, d: &str| -> Value { { let x = shape(115, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s116", |v: &Map, a: &str, b: Value, c: Value, d: Value| -> Result<Value, String> { shape(116, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s117", |v: &Map, a: &str, b: Value, c: Value, d: &str| -> Option<Value> { { let x = shape(117, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s118", |v: &Map, a: &str, b: Value, c: &str, d: Value| -> Result<Option<Value>, String> { shape(118, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s119", |v: &Map, a: &str, b: Value, c: &str, d: &str| -> Vec<Value> { { let x = shape(119, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s120", |v: &Map, a: &str, b: &str, c: Value, d: Value| -> Value { { let x = shape(120, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s121", |v: &Map, a: &str, b: &str, c: Value, d: &str| -> Result<Value, String> { shape(121, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s122", |v: &Map, a: &str, b: &str, c: &str, d: Value| -> Option<Value> { { let x = shape(122, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s123", |v: &Map, a: &str, b: &str, c: &str, d: &str| -> Result<Option<Value>, String> { shape(123, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s124", |v: &Value| -> Vec<Value> { { let x = shape(124, vec![v.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s125", |v: &Value, a: Value| -> Value { { let x = shape(125, vec![v.to_v(), a.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s126", |v: &Value, a: &str| -> Result<Value, String> { shape(126, vec![v.to_v(), a.to_v()]).map(|x| x) });
    e.add_filter("s127", |v: &Value, a: Value, b: Value| -> Option<Value> { { let x = shape(127, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s128", |v: &Value, a: Value, b: &str| -> Result<Option<Value>, String> { shape(128, vec![v.to_v(), a.to_v(), b.to_v()]).map(|x| Some(x)) });
    e.add_filter("s129", |v: &Value, a: &str, b: Value| -> Vec<Value> { { let x = shape(129, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s130", |v: &Value, a: &str, b: &str| -> Value { { let x = shape(130, vec![v.to_v(), a.to_v(), b.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s131", |v: &Value, a: Value, b: Value, c: Value| -> Result<Value, String> { shape(131, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| x) });
    e.add_filter("s132", |v: &Value, a: Value, b: Value, c: &str| -> Option<Value> { { let x = shape(132, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s133", |v: &Value, a: Value, b: &str, c: Value| -> Result<Option<Value>, String> { shape(133, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| Some(x)) });
    e.add_filter("s134", |v: &Value, a: Value, b: &str, c: &str| -> Vec<Value> { { let x = shape(134, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s135", |v: &Value, a: &str, b: Value, c: Value| -> Value { { let x = shape(135, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s136", |v: &Value, a: &str, b: Value, c: &str| -> Result<Value, String> { shape(136, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| x) });
    e.add_filter("s137", |v: &Value, a: &str, b: &str, c: Value| -> Option<Value> { { let x = shape(137, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s138", |v: &Value, a: &str, b: &str, c: &str| -> Result<Option<Value>, String> { shape(138, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]).map(|x| Some(x)) });
    e.add_filter("s139", |v: &Value, a: Value, b: Value, c: Value, d: Value| -> Vec<Value> { { let x = shape(139, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s140", |v: &Value, a: Value, b: Value, c: Value, d: &str| -> Value { { let x = shape(140, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s141", |v: &Value, a: Value, b: Value, c: &str, d: Value| -> Result<Value, String> { shape(141, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s142", |v: &Value, a: Value, b: Value, c: &str, d: &str| -> Option<Value> { { let x = shape(142, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s143", |v: &Value, a: Value, b: &str, c: Value, d: Value| -> Result<Option<Value>, String> { shape(143, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s144", |v: &Value, a: Value, b: &str, c: Value, d: &str| -> Vec<Value> { { let x = shape(144, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s145", |v: &Value, a: Value, b: &str, c: &str, d: Value| -> Value { { let x = shape(145, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s146", |v: &Value, a: Value, b: &str, c: &str, d: &str| -> Result<Value, String> { shape(146, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s147", |v: &Value, a: &str, b: Value, c: Value, d: Value| -> Option<Value> { { let x = shape(147, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s148", |v: &Value, a: &str, b: Value, c: Value, d: &str| -> Result<Option<Value>, String> { shape(148, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s149", |v: &Value, a: &str, b: Value, c: &str, d: Value| -> Vec<Value> { { let x = shape(149, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
    e.add_filter("s150", |v: &Value, a: &str, b: Value, c: &str, d: &str| -> Value { { let x = shape(150, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); x } });
    e.add_filter("s151", |v: &Value, a: &str, b: &str, c: Value, d: Value| -> Result<Value, String> { shape(151, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| x) });
    e.add_filter("s152", |v: &Value, a: &str, b: &str, c: Value, d: &str| -> Option<Value> { { let x = shape(152, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); Some(x) } });
    e.add_filter("s153", |v: &Value, a: &str, b: &str, c: &str, d: Value| -> Result<Option<Value>, String> { shape(153, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).map(|x| Some(x)) });
    e.add_filter("s154", |v: &Value, a: &str, b: &str, c: &str, d: &str| -> Vec<Value> { { let x = shape(154, vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]).unwrap_or_else(Value::String); vec![x] } });
}
/// Functions for every parameter type in every position: type, position (0 is piped), arity.
#[rustfmt::skip]
pub fn register_types(e: &mut upon::Engine<'_>) {
    use crate::funcs::ToV;
    use super::functions::typed;
    e.add_filter("t_Unit_0_0", |v: ()| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_Unit_0_1", |v: (), a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Unit_1_1", |v: Value, a: ()| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Unit_0_2", |v: (), a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Unit_1_2", |v: Value, a: (), b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Unit_2_2", |v: Value, a: Value, b: ()| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Unit_0_3", |v: (), a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Unit_1_3", |v: Value, a: (), b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Unit_2_3", |v: Value, a: Value, b: (), c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Unit_3_3", |v: Value, a: Value, b: Value, c: ()| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Unit_0_4", |v: (), a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Unit_1_4", |v: Value, a: (), b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Unit_2_4", |v: Value, a: Value, b: (), c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Unit_3_4", |v: Value, a: Value, b: Value, c: (), d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Unit_4_4", |v: Value, a: Value, b: Value, c: Value, d: ()| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Bool_0_0", |v: bool| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_Bool_0_1", |v: bool, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Bool_1_1", |v: Value, a: bool| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Bool_0_2", |v: bool, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Bool_1_2", |v: Value, a: bool, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Bool_2_2", |v: Value, a: Value, b: bool| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Bool_0_3", |v: bool, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Bool_1_3", |v: Value, a: bool, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Bool_2_3", |v: Value, a: Value, b: bool, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Bool_3_3", |v: Value, a: Value, b: Value, c: bool| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Bool_0_4", |v: bool, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Bool_1_4", |v: Value, a: bool, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Bool_2_4", |v: Value, a: Value, b: bool, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Bool_3_4", |v: Value, a: Value, b: Value, c: bool, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Bool_4_4", |v: Value, a: Value, b: Value, c: Value, d: bool| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I8_0_0", |v: i8| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_I8_0_1", |v: i8, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I8_1_1", |v: Value, a: i8| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I8_0_2", |v: i8, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I8_1_2", |v: Value, a: i8, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I8_2_2", |v: Value, a: Value, b: i8| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I8_0_3", |v: i8, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I8_1_3", |v: Value, a: i8, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I8_2_3", |v: Value, a: Value, b: i8, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I8_3_3", |v: Value, a: Value, b: Value, c: i8| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I8_0_4", |v: i8, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I8_1_4", |v: Value, a: i8, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I8_2_4", |v: Value, a: Value, b: i8, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I8_3_4", |v: Value, a: Value, b: Value, c: i8, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I8_4_4", |v: Value, a: Value, b: Value, c: Value, d: i8| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I16_0_0", |v: i16| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_I16_0_1", |v: i16, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I16_1_1", |v: Value, a: i16| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I16_0_2", |v: i16, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I16_1_2", |v: Value, a: i16, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I16_2_2", |v: Value, a: Value, b: i16| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I16_0_3", |v: i16, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I16_1_3", |v: Value, a: i16, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I16_2_3", |v: Value, a: Value, b: i16, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I16_3_3", |v: Value, a: Value, b: Value, c: i16| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I16_0_4", |v: i16, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I16_1_4", |v: Value, a: i16, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I16_2_4", |v: Value, a: Value, b: i16, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I16_3_4", |v: Value, a: Value, b: Value, c: i16, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I16_4_4", |v: Value, a: Value, b: Value, c: Value, d: i16| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I32_0_0", |v: i32| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_I32_0_1", |v: i32, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I32_1_1", |v: Value, a: i32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I32_0_2", |v: i32, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I32_1_2", |v: Value, a: i32, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I32_2_2", |v: Value, a: Value, b: i32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I32_0_3", |v: i32, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I32_1_3", |v: Value, a: i32, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I32_2_3", |v: Value, a: Value, b: i32, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I32_3_3", |v: Value, a: Value, b: Value, c: i32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I32_0_4", |v: i32, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I32_1_4", |v: Value, a: i32, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I32_2_4", |v: Value, a: Value, b: i32, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I32_3_4", |v: Value, a: Value, b: Value, c: i32, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I32_4_4", |v: Value, a: Value, b: Value, c: Value, d: i32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I64_0_0", |v: i64| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_I64_0_1", |v: i64, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I64_1_1", |v: Value, a: i64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I64_0_2", |v: i64, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I64_1_2", |v: Value, a: i64, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I64_2_2", |v: Value, a: Value, b: i64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I64_0_3", |v: i64, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I64_1_3", |v: Value, a: i64, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I64_2_3", |v: Value, a: Value, b: i64, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I64_3_3", |v: Value, a: Value, b: Value, c: i64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I64_0_4", |v: i64, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I64_1_4", |v: Value, a: i64, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I64_2_4", |v: Value, a: Value, b: i64, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I64_3_4", |v: Value, a: Value, b: Value, c: i64, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I64_4_4", |v: Value, a: Value, b: Value, c: Value, d: i64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I128_0_0", |v: i128| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_I128_0_1", |v: i128, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I128_1_1", |v: Value, a: i128| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_I128_0_2", |v: i128, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I128_1_2", |v: Value, a: i128, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I128_2_2", |v: Value, a: Value, b: i128| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_I128_0_3", |v: i128, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I128_1_3", |v: Value, a: i128, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I128_2_3", |v: Value, a: Value, b: i128, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I128_3_3", |v: Value, a: Value, b: Value, c: i128| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_I128_0_4", |v: i128, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I128_1_4", |v: Value, a: i128, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I128_2_4", |v: Value, a: Value, b: i128, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I128_3_4", |v: Value, a: Value, b: Value, c: i128, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_I128_4_4", |v: Value, a: Value, b: Value, c: Value, d: i128| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Isize_0_0", |v: isize| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_Isize_0_1", |v: isize, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Isize_1_1", |v: Value, a: isize| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Isize_0_2", |v: isize, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Isize_1_2", |v: Value, a: isize, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Isize_2_2", |v: Value, a: Value, b: isize| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Isize_0_3", |v: isize, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Isize_1_3", |v: Value, a: isize, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Isize_2_3", |v: Value, a: Value, b: isize, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Isize_3_3", |v: Value, a: Value, b: Value, c: isize| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Isize_0_4", |v: isize, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Isize_1_4", |v: Value, a: isize, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Isize_2_4", |v: Value, a: Value, b: isize, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Isize_3_4", |v: Value, a: Value, b: Value, c: isize, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Isize_4_4", |v: Value, a: Value, b: Value, c: Value, d: isize| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U8_0_0", |v: u8| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_U8_0_1", |v: u8, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U8_1_1", |v: Value, a: u8| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U8_0_2", |v: u8, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U8_1_2", |v: Value, a: u8, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U8_2_2", |v: Value, a: Value, b: u8| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U8_0_3", |v: u8, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U8_1_3", |v: Value, a: u8, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U8_2_3", |v: Value, a: Value, b: u8, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U8_3_3", |v: Value, a: Value, b: Value, c: u8| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U8_0_4", |v: u8, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U8_1_4", |v: Value, a: u8, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U8_2_4", |v: Value, a: Value, b: u8, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U8_3_4", |v: Value, a: Value, b: Value, c: u8, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U8_4_4", |v: Value, a: Value, b: Value, c: Value, d: u8| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U16_0_0", |v: u16| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_U16_0_1", |v: u16, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U16_1_1", |v: Value, a: u16| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U16_0_2", |v: u16, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U16_1_2", |v: Value, a: u16, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U16_2_2", |v: Value, a: Value, b: u16| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U16_0_3", |v: u16, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U16_1_3", |v: Value, a: u16, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U16_2_3", |v: Value, a: Value, b: u16, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U16_3_3", |v: Value, a: Value, b: Value, c: u16| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U16_0_4", |v: u16, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U16_1_4", |v: Value, a: u16, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U16_2_4", |v: Value, a: Value, b: u16, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U16_3_4", |v: Value, a: Value, b: Value, c: u16, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U16_4_4", |v: Value, a: Value, b: Value, c: Value, d: u16| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U32_0_0", |v: u32| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_U32_0_1", |v: u32, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U32_1_1", |v: Value, a: u32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U32_0_2", |v: u32, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U32_1_2", |v: Value, a: u32, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U32_2_2", |v: Value, a: Value, b: u32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U32_0_3", |v: u32, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U32_1_3", |v: Value, a: u32, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U32_2_3", |v: Value, a: Value, b: u32, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U32_3_3", |v: Value, a: Value, b: Value, c: u32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U32_0_4", |v: u32, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U32_1_4", |v: Value, a: u32, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U32_2_4", |v: Value, a: Value, b: u32, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U32_3_4", |v: Value, a: Value, b: Value, c: u32, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U32_4_4", |v: Value, a: Value, b: Value, c: Value, d: u32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U64_0_0", |v: u64| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_U64_0_1", |v: u64, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U64_1_1", |v: Value, a: u64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U64_0_2", |v: u64, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U64_1_2", |v: Value, a: u64, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U64_2_2", |v: Value, a: Value, b: u64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U64_0_3", |v: u64, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U64_1_3", |v: Value, a: u64, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U64_2_3", |v: Value, a: Value, b: u64, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U64_3_3", |v: Value, a: Value, b: Value, c: u64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U64_0_4", |v: u64, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U64_1_4", |v: Value, a: u64, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U64_2_4", |v: Value, a: Value, b: u64, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U64_3_4", |v: Value, a: Value, b: Value, c: u64, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U64_4_4", |v: Value, a: Value, b: Value, c: Value, d: u64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U128_0_0", |v: u128| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_U128_0_1", |v: u128, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U128_1_1", |v: Value, a: u128| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_U128_0_2", |v: u128, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U128_1_2", |v: Value, a: u128, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U128_2_2", |v: Value, a: Value, b: u128| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_U128_0_3", |v: u128, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U128_1_3", |v: Value, a: u128, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U128_2_3", |v: Value, a: Value, b: u128, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U128_3_3", |v: Value, a: Value, b: Value, c: u128| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_U128_0_4", |v: u128, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U128_1_4", |v: Value, a: u128, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U128_2_4", |v: Value, a: Value, b: u128, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U128_3_4", |v: Value, a: Value, b: Value, c: u128, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_U128_4_4", |v: Value, a: Value, b: Value, c: Value, d: u128| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Usize_0_0", |v: usize| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_Usize_0_1", |v: usize, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Usize_1_1", |v: Value, a: usize| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Usize_0_2", |v: usize, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Usize_1_2", |v: Value, a: usize, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Usize_2_2", |v: Value, a: Value, b: usize| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Usize_0_3", |v: usize, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Usize_1_3", |v: Value, a: usize, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Usize_2_3", |v: Value, a: Value, b: usize, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Usize_3_3", |v: Value, a: Value, b: Value, c: usize| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Usize_0_4", |v: usize, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Usize_1_4", |v: Value, a: usize, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Usize_2_4", |v: Value, a: Value, b: usize, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Usize_3_4", |v: Value, a: Value, b: Value, c: usize, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Usize_4_4", |v: Value, a: Value, b: Value, c: Value, d: usize| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F32_0_0", |v: f32| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_F32_0_1", |v: f32, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_F32_1_1", |v: Value, a: f32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_F32_0_2", |v: f32, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_F32_1_2", |v: Value, a: f32, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_F32_2_2", |v: Value, a: Value, b: f32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_F32_0_3", |v: f32, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_F32_1_3", |v: Value, a: f32, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_F32_2_3", |v: Value, a: Value, b: f32, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_F32_3_3", |v: Value, a: Value, b: Value, c: f32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_F32_0_4", |v: f32, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F32_1_4", |v: Value, a: f32, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F32_2_4", |v: Value, a: Value, b: f32, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F32_3_4", |v: Value, a: Value, b: Value, c: f32, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F32_4_4", |v: Value, a: Value, b: Value, c: Value, d: f32| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F64_0_0", |v: f64| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_F64_0_1", |v: f64, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_F64_1_1", |v: Value, a: f64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_F64_0_2", |v: f64, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_F64_1_2", |v: Value, a: f64, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_F64_2_2", |v: Value, a: Value, b: f64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_F64_0_3", |v: f64, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_F64_1_3", |v: Value, a: f64, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_F64_2_3", |v: Value, a: Value, b: f64, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_F64_3_3", |v: Value, a: Value, b: Value, c: f64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_F64_0_4", |v: f64, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F64_1_4", |v: Value, a: f64, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F64_2_4", |v: Value, a: Value, b: f64, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F64_3_4", |v: Value, a: Value, b: Value, c: f64, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_F64_4_4", |v: Value, a: Value, b: Value, c: Value, d: f64| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Str_0_0", |v: String| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_Str_0_1", |v: String, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Str_1_1", |v: Value, a: String| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Str_0_2", |v: String, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Str_1_2", |v: Value, a: String, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Str_2_2", |v: Value, a: Value, b: String| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Str_0_3", |v: String, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Str_1_3", |v: Value, a: String, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Str_2_3", |v: Value, a: Value, b: String, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Str_3_3", |v: Value, a: Value, b: Value, c: String| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Str_0_4", |v: String, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Str_1_4", |v: Value, a: String, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Str_2_4", |v: Value, a: Value, b: String, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Str_3_4", |v: Value, a: Value, b: Value, c: String, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Str_4_4", |v: Value, a: Value, b: Value, c: Value, d: String| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_StrRef_0_0", |v: &str| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_StrRef_0_1", |v: &str, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_StrRef_1_1", |v: Value, a: &str| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_StrRef_0_2", |v: &str, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_StrRef_1_2", |v: Value, a: &str, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_StrRef_2_2", |v: Value, a: Value, b: &str| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_StrRef_0_3", |v: &str, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_StrRef_1_3", |v: Value, a: &str, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_StrRef_2_3", |v: Value, a: Value, b: &str, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_StrRef_3_3", |v: Value, a: Value, b: Value, c: &str| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_StrRef_0_4", |v: &str, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_StrRef_1_4", |v: Value, a: &str, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_StrRef_2_4", |v: Value, a: Value, b: &str, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_StrRef_3_4", |v: Value, a: Value, b: Value, c: &str, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_StrRef_4_4", |v: Value, a: Value, b: Value, c: Value, d: &str| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_List_0_0", |v: Vec<Value>| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_List_0_1", |v: Vec<Value>, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_List_1_1", |v: Value, a: Vec<Value>| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_List_0_2", |v: Vec<Value>, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_List_1_2", |v: Value, a: Vec<Value>, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_List_2_2", |v: Value, a: Value, b: Vec<Value>| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_List_0_3", |v: Vec<Value>, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_List_1_3", |v: Value, a: Vec<Value>, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_List_2_3", |v: Value, a: Value, b: Vec<Value>, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_List_3_3", |v: Value, a: Value, b: Value, c: Vec<Value>| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_List_0_4", |v: Vec<Value>, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_List_1_4", |v: Value, a: Vec<Value>, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_List_2_4", |v: Value, a: Value, b: Vec<Value>, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_List_3_4", |v: Value, a: Value, b: Value, c: Vec<Value>, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_List_4_4", |v: Value, a: Value, b: Value, c: Value, d: Vec<Value>| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_ListRef_0_0", |v: &[Value]| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_ListRef_0_1", |v: &[Value], a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_ListRef_0_2", |v: &[Value], a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_ListRef_0_3", |v: &[Value], a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_ListRef_0_4", |v: &[Value], a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Map_0_0", |v: Map| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_Map_0_1", |v: Map, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Map_1_1", |v: Value, a: Map| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Map_0_2", |v: Map, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Map_1_2", |v: Value, a: Map, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Map_2_2", |v: Value, a: Value, b: Map| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Map_0_3", |v: Map, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Map_1_3", |v: Value, a: Map, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Map_2_3", |v: Value, a: Value, b: Map, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Map_3_3", |v: Value, a: Value, b: Value, c: Map| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Map_0_4", |v: Map, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Map_1_4", |v: Value, a: Map, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Map_2_4", |v: Value, a: Value, b: Map, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Map_3_4", |v: Value, a: Value, b: Value, c: Map, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Map_4_4", |v: Value, a: Value, b: Value, c: Value, d: Map| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_MapRef_0_0", |v: &Map| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_MapRef_0_1", |v: &Map, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_MapRef_0_2", |v: &Map, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_MapRef_0_3", |v: &Map, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_MapRef_0_4", |v: &Map, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Val_0_0", |v: Value| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_Val_0_1", |v: Value, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Val_1_1", |v: Value, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_Val_0_2", |v: Value, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Val_1_2", |v: Value, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Val_2_2", |v: Value, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_Val_0_3", |v: Value, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Val_1_3", |v: Value, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Val_2_3", |v: Value, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Val_3_3", |v: Value, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_Val_0_4", |v: Value, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Val_1_4", |v: Value, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Val_2_4", |v: Value, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Val_3_4", |v: Value, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_Val_4_4", |v: Value, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
    e.add_filter("t_ValRef_0_0", |v: &Value| -> Result<Value, String> { typed(vec![v.to_v()]) });
    e.add_filter("t_ValRef_0_1", |v: &Value, a: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v()]) });
    e.add_filter("t_ValRef_0_2", |v: &Value, a: Value, b: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v()]) });
    e.add_filter("t_ValRef_0_3", |v: &Value, a: Value, b: Value, c: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v()]) });
    e.add_filter("t_ValRef_0_4", |v: &Value, a: Value, b: Value, c: Value, d: Value| -> Result<Value, String> { typed(vec![v.to_v(), a.to_v(), b.to_v(), c.to_v(), d.to_v()]) });
}
