// Written by tools/genmacros.py.
#![allow(clippy::all)]
use super::data::Leaves;
use crate::val::{map, s, Map, Value};

fn pairs(l: Vec<(&str, Value)>) -> Map {
    let mut m = Map::new();
    for (k, v) in l {
        m.insert(k.to_string(), v);
    }
    m
}

fn bytes(l: &[u8]) -> Value {
    Value::List(l.iter().map(|b| Value::Integer(*b as i64)).collect())
}

#[rustfmt::skip]
pub const FORMS: &[fn(&Leaves) -> (Value, Value)] = &[
    |x| { let _ = x; (upon::value! {  }, Value::Map(pairs(vec![]))) },
    |x| { let _ = x; (upon::value! { a: None }, Value::Map(pairs(vec![("a", Value::None)]))) },
    |x| { let _ = x; (upon::value! { a: None }, Value::Map(pairs(vec![("a", Value::None)]))) },
    |x| { let _ = x; (upon::value! { a: true }, Value::Map(pairs(vec![("a", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { a: false }, Value::Map(pairs(vec![("a", Value::Bool(false))]))) },
    |x| { let _ = x; (upon::value! { a: 0 }, Value::Map(pairs(vec![("a", Value::Integer(0))]))) },
    |x| { let _ = x; (upon::value! { a: -7 }, Value::Map(pairs(vec![("a", Value::Integer(-7))]))) },
    |x| { let _ = x; (upon::value! { a: i64::MIN }, Value::Map(pairs(vec![("a", Value::Integer(i64::MIN))]))) },
    |x| { let _ = x; (upon::value! { a: 1.5 }, Value::Map(pairs(vec![("a", Value::Float(1.5))]))) },
    |x| { let _ = x; (upon::value! { a: -0.0 }, Value::Map(pairs(vec![("a", Value::Float(-0.0))]))) },
    |x| { let _ = x; (upon::value! { a: "text" }, Value::Map(pairs(vec![("a", s("text"))]))) },
    |x| { let _ = x; (upon::value! { a: "" }, Value::Map(pairs(vec![("a", s(""))]))) },
    |x| { let _ = x; (upon::value! { a: 'c' }, Value::Map(pairs(vec![("a", s("c"))]))) },
    |x| { let _ = x; (upon::value! { a: () }, Value::Map(pairs(vec![("a", Value::None)]))) },
    |x| { let _ = x; (upon::value! { a: x.i }, Value::Map(pairs(vec![("a", Value::Integer(x.i))]))) },
    |x| { let _ = x; (upon::value! { a: x.f }, Value::Map(pairs(vec![("a", Value::Float(x.f))]))) },
    |x| { let _ = x; (upon::value! { a: &x.t }, Value::Map(pairs(vec![("a", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { a: x.t.as_str() }, Value::Map(pairs(vec![("a", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { a: x.o }, Value::Map(pairs(vec![("a", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))]))) },
    |x| { let _ = x; (upon::value! { a: &x.l }, Value::Map(pairs(vec![("a", bytes(&x.l))]))) },
    |x| { let _ = x; (upon::value! { a: x.l.len() as u16 }, Value::Map(pairs(vec![("a", Value::Integer(x.l.len() as i64))]))) },
    |x| { let _ = x; (upon::value! { a: &x.v }, Value::Map(pairs(vec![("a", x.v.clone())]))) },
    |x| { let _ = x; (upon::value! { a: x.v.clone() }, Value::Map(pairs(vec![("a", x.v.clone())]))) },
    |x| { let _ = x; (upon::value! { a: 1 + 2 }, Value::Map(pairs(vec![("a", Value::Integer(3))]))) },
    |x| { let _ = x; (upon::value! { a: !false }, Value::Map(pairs(vec![("a", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { a: x.i == x.i }, Value::Map(pairs(vec![("a", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { a: vec![1, 2] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Integer(2)]))]))) },
    |x| { let _ = x; (upon::value! { a: Some(5) }, Value::Map(pairs(vec![("a", Value::Integer(5))]))) },
    |x| { let _ = x; (upon::value! { a: (1, "two") }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), s("two")]))]))) },
    |x| { let _ = x; (upon::value! { a: Some(&x.t) }, Value::Map(pairs(vec![("a", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { a: u64::MAX / 2 }, Value::Map(pairs(vec![("a", Value::Integer((u64::MAX / 2) as i64))]))) },
    |x| { let _ = x; (upon::value! { a: if x.l.is_empty() { 1 } else { 2 } }, Value::Map(pairs(vec![("a", Value::Integer(if x.l.is_empty() { 1 } else { 2 }))]))) },
    |x| { let _ = x; (upon::value! { a: match x.o { Some(_) => "some", _ => "none" } }, Value::Map(pairs(vec![("a", s(match x.o { Some(_) => "some", _ => "none" }))]))) },
    |x| { let _ = x; (upon::value! { a: upon::value! { q: [x.i] } }, Value::Map(pairs(vec![("a", map([("q", Value::List(vec![Value::Integer(x.i)]))]))]))) },
    |x| { let _ = x; (upon::value! { a: f32::MAX }, Value::Map(pairs(vec![("a", Value::Float(f32::MAX as f64))]))) },
    |x| { let _ = x; (upon::value! { a: std::borrow::Cow::Borrowed("cow") }, Value::Map(pairs(vec![("a", s("cow"))]))) },
    |x| { let _ = x; (upon::value! { a: &&x.i }, Value::Map(pairs(vec![("a", Value::Integer(x.i))]))) },
    |x| { let _ = x; (upon::value! { a: x.l.iter().map(|b| *b as i64).sum::<i64>() }, Value::Map(pairs(vec![("a", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()))]))) },
    |x| { let _ = x; (upon::value! { a: None, }, Value::Map(pairs(vec![("a", Value::None)]))) },
    |x| { let _ = x; (upon::value! { a: None, }, Value::Map(pairs(vec![("a", Value::None)]))) },
    |x| { let _ = x; (upon::value! { a: true, }, Value::Map(pairs(vec![("a", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { a: false, }, Value::Map(pairs(vec![("a", Value::Bool(false))]))) },
    |x| { let _ = x; (upon::value! { a: 0, }, Value::Map(pairs(vec![("a", Value::Integer(0))]))) },
    |x| { let _ = x; (upon::value! { a: -7, }, Value::Map(pairs(vec![("a", Value::Integer(-7))]))) },
    |x| { let _ = x; (upon::value! { a: i64::MIN, }, Value::Map(pairs(vec![("a", Value::Integer(i64::MIN))]))) },
    |x| { let _ = x; (upon::value! { a: 1.5, }, Value::Map(pairs(vec![("a", Value::Float(1.5))]))) },
    |x| { let _ = x; (upon::value! { a: [None], b: [1, None, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None])), ("b", Value::List(vec![Value::Integer(1), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None], b: [1, None, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None])), ("b", Value::List(vec![Value::Integer(1), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [true], b: [1, true, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Bool(true)])), ("b", Value::List(vec![Value::Integer(1), Value::Bool(true)]))]))) },
    |x| { let _ = x; (upon::value! { a: [false], b: [1, false, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Bool(false)])), ("b", Value::List(vec![Value::Integer(1), Value::Bool(false)]))]))) },
    |x| { let _ = x; (upon::value! { a: [0], b: [1, 0, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(0)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(0)]))]))) },
    |x| { let _ = x; (upon::value! { a: [-7], b: [1, -7, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(-7)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(-7)]))]))) },
    |x| { let _ = x; (upon::value! { a: [i64::MIN], b: [1, i64::MIN, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(i64::MIN)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(i64::MIN)]))]))) },
    |x| { let _ = x; (upon::value! { a: [1.5], b: [1, 1.5, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Float(1.5)])), ("b", Value::List(vec![Value::Integer(1), Value::Float(1.5)]))]))) },
    |x| { let _ = x; (upon::value! { a: [-0.0], b: [1, -0.0, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Float(-0.0)])), ("b", Value::List(vec![Value::Integer(1), Value::Float(-0.0)]))]))) },
    |x| { let _ = x; (upon::value! { a: ["text"], b: [1, "text", ] }, Value::Map(pairs(vec![("a", Value::List(vec![s("text")])), ("b", Value::List(vec![Value::Integer(1), s("text")]))]))) },
    |x| { let _ = x; (upon::value! { a: [""], b: [1, "", ] }, Value::Map(pairs(vec![("a", Value::List(vec![s("")])), ("b", Value::List(vec![Value::Integer(1), s("")]))]))) },
    |x| { let _ = x; (upon::value! { a: ['c'], b: [1, 'c', ] }, Value::Map(pairs(vec![("a", Value::List(vec![s("c")])), ("b", Value::List(vec![Value::Integer(1), s("c")]))]))) },
    |x| { let _ = x; (upon::value! { a: [()], b: [1, (), ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None])), ("b", Value::List(vec![Value::Integer(1), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i], b: [1, x.i, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.f], b: [1, x.f, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Float(x.f)])), ("b", Value::List(vec![Value::Integer(1), Value::Float(x.f)]))]))) },
    |x| { let _ = x; (upon::value! { a: [&x.t], b: [1, &x.t, ] }, Value::Map(pairs(vec![("a", Value::List(vec![s(x.t.as_str())])), ("b", Value::List(vec![Value::Integer(1), s(x.t.as_str())]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.t.as_str()], b: [1, x.t.as_str(), ] }, Value::Map(pairs(vec![("a", Value::List(vec![s(x.t.as_str())])), ("b", Value::List(vec![Value::Integer(1), s(x.t.as_str())]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.o], b: [1, x.o, ] }, Value::Map(pairs(vec![("a", Value::List(vec![x.o.map_or(Value::None, |o| Value::Integer(o as i64))])), ("b", Value::List(vec![Value::Integer(1), x.o.map_or(Value::None, |o| Value::Integer(o as i64))]))]))) },
    |x| { let _ = x; (upon::value! { a: [&x.l], b: [1, &x.l, ] }, Value::Map(pairs(vec![("a", Value::List(vec![bytes(&x.l)])), ("b", Value::List(vec![Value::Integer(1), bytes(&x.l)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.l.len() as u16], b: [1, x.l.len() as u16, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.l.len() as i64)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(x.l.len() as i64)]))]))) },
    |x| { let _ = x; (upon::value! { a: [&x.v], b: [1, &x.v, ] }, Value::Map(pairs(vec![("a", Value::List(vec![x.v.clone()])), ("b", Value::List(vec![Value::Integer(1), x.v.clone()]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.v.clone()], b: [1, x.v.clone(), ] }, Value::Map(pairs(vec![("a", Value::List(vec![x.v.clone()])), ("b", Value::List(vec![Value::Integer(1), x.v.clone()]))]))) },
    |x| { let _ = x; (upon::value! { a: [1 + 2], b: [1, 1 + 2, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(3)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(3)]))]))) },
    |x| { let _ = x; (upon::value! { a: [!false], b: [1, !false, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Bool(true)])), ("b", Value::List(vec![Value::Integer(1), Value::Bool(true)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i == x.i], b: [1, x.i == x.i, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Bool(true)])), ("b", Value::List(vec![Value::Integer(1), Value::Bool(true)]))]))) },
    |x| { let _ = x; (upon::value! { a: [vec![1, 2]], b: [1, vec![1, 2], ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(2)])])), ("b", Value::List(vec![Value::Integer(1), Value::List(vec![Value::Integer(1), Value::Integer(2)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [Some(5)], b: [1, Some(5), ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(5)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(5)]))]))) },
    |x| { let _ = x; (upon::value! { a: [(1, "two")], b: [1, (1, "two"), ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), s("two")])])), ("b", Value::List(vec![Value::Integer(1), Value::List(vec![Value::Integer(1), s("two")])]))]))) },
    |x| { let _ = x; (upon::value! { a: [Some(&x.t)], b: [1, Some(&x.t), ] }, Value::Map(pairs(vec![("a", Value::List(vec![s(x.t.as_str())])), ("b", Value::List(vec![Value::Integer(1), s(x.t.as_str())]))]))) },
    |x| { let _ = x; (upon::value! { a: [u64::MAX / 2], b: [1, u64::MAX / 2, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer((u64::MAX / 2) as i64)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer((u64::MAX / 2) as i64)]))]))) },
    |x| { let _ = x; (upon::value! { a: [if x.l.is_empty() { 1 } else { 2 }], b: [1, if x.l.is_empty() { 1 } else { 2 }, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(if x.l.is_empty() { 1 } else { 2 })])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(if x.l.is_empty() { 1 } else { 2 })]))]))) },
    |x| { let _ = x; (upon::value! { a: [match x.o { Some(_) => "some", _ => "none" }], b: [1, match x.o { Some(_) => "some", _ => "none" }, ] }, Value::Map(pairs(vec![("a", Value::List(vec![s(match x.o { Some(_) => "some", _ => "none" })])), ("b", Value::List(vec![Value::Integer(1), s(match x.o { Some(_) => "some", _ => "none" })]))]))) },
    |x| { let _ = x; (upon::value! { a: [upon::value! { q: [x.i] }], b: [1, upon::value! { q: [x.i] }, ] }, Value::Map(pairs(vec![("a", Value::List(vec![map([("q", Value::List(vec![Value::Integer(x.i)]))])])), ("b", Value::List(vec![Value::Integer(1), map([("q", Value::List(vec![Value::Integer(x.i)]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [f32::MAX], b: [1, f32::MAX, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Float(f32::MAX as f64)])), ("b", Value::List(vec![Value::Integer(1), Value::Float(f32::MAX as f64)]))]))) },
    |x| { let _ = x; (upon::value! { a: [std::borrow::Cow::Borrowed("cow")], b: [1, std::borrow::Cow::Borrowed("cow"), ] }, Value::Map(pairs(vec![("a", Value::List(vec![s("cow")])), ("b", Value::List(vec![Value::Integer(1), s("cow")]))]))) },
    |x| { let _ = x; (upon::value! { a: [&&x.i], b: [1, &&x.i, ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.l.iter().map(|b| *b as i64).sum::<i64>()], b: [1, x.l.iter().map(|b| *b as i64).sum::<i64>(), ] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())]))]))) },
    |x| { let _ = x; (upon::value! { a: None }, Value::Map(pairs(vec![("a", Value::None)]))) },
    |x| { let _ = x; (upon::value! { a: [None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: None} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::None)])))]))) },
    |x| { let _ = x; (upon::value! { a: [[None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: None}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::None)])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: None}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::None)]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [None]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::None]))])))]))) },
    |x| { let _ = x; (upon::value! { a: None, b: None, }, Value::Map(pairs(vec![("a", Value::None), ("b", Value::None)]))) },
    |x| { let _ = x; (upon::value! { a: [] }, Value::Map(pairs(vec![("a", Value::List(vec![]))]))) },
    |x| { let _ = x; (upon::value! { a: [[]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, []] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[], []] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: []} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: []}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: []}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [], b: [], }, Value::Map(pairs(vec![("a", Value::List(vec![])), ("b", Value::List(vec![]))]))) },
    |x| { let _ = x; (upon::value! { a: {} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![])))]))) },
    |x| { let _ = x; (upon::value! { a: [{}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, {}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, {}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: {}}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: {}, b: {}, }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![]))), ("b", Value::Map(pairs(vec![])))]))) },
    |x| { let _ = x; (upon::value! { a: 1 }, Value::Map(pairs(vec![("a", Value::Integer(1))]))) },
    |x| { let _ = x; (upon::value! { a: [1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [1, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, 1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [1, 1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: 1} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Integer(1))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: 1}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Integer(1))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: 1}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(1))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [1]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: 1, b: 1, }, Value::Map(pairs(vec![("a", Value::Integer(1)), ("b", Value::Integer(1))]))) },
    |x| { let _ = x; (upon::value! { a: x.i }, Value::Map(pairs(vec![("a", Value::Integer(x.i))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: x.i} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Integer(x.i))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: x.i}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Integer(x.i))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: x.i}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(x.i))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [x.i]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: x.i, b: x.i, }, Value::Map(pairs(vec![("a", Value::Integer(x.i)), ("b", Value::Integer(x.i))]))) },
    |x| { let _ = x; (upon::value! { a: [None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None], [None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None]), Value::List(vec![Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [None]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::None]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[None]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::None])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [None]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::None]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [None]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::None]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[None]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::None])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [None], b: [None], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None])), ("b", Value::List(vec![Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [[]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[]], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![])]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [[]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[]], [[]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![])]), Value::List(vec![Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[[]]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::List(vec![])])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [[]]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![])]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [[]]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![])]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[[]]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::List(vec![])])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[]], b: [[]], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![])])), ("b", Value::List(vec![Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [{}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![]))]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [{}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}], [{}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![]))]), Value::List(vec![Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[{}]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Map(pairs(vec![]))])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [{}]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![]))]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [{}]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![]))]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[{}]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![]))])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{}], b: [{}], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![]))])), ("b", Value::List(vec![Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1], [1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1)]), Value::List(vec![Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [1]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[1]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(1)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [1]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [1]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[1]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(1)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [1], b: [1], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1)])), ("b", Value::List(vec![Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i], [x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i)]), Value::List(vec![Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [x.i]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[x.i]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(x.i)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [x.i]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [x.i]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[x.i]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(x.i)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i], b: [x.i], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i)])), ("b", Value::List(vec![Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, None], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::None]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [None, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::None, Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, None], [None, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::None]), Value::List(vec![Value::None, Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [None, None]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::None]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[None, None]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::None, Value::None])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [None, None]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::None]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [None, None]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::None]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[None, None]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::None, Value::None])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [None, None], b: [None, None], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::None])), ("b", Value::List(vec![Value::None, Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, []] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, []], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::List(vec![])]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [None, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::None, Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, []], [None, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::List(vec![])]), Value::List(vec![Value::None, Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [None, []]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::List(vec![])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[None, []]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::None, Value::List(vec![])])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [None, []]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::List(vec![])]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [None, []]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::List(vec![])]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[None, []]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::None, Value::List(vec![])])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [None, []], b: [None, []], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![])])), ("b", Value::List(vec![Value::None, Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, {}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, {}], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Map(pairs(vec![]))]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [None, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::None, Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, {}], [None, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Map(pairs(vec![]))]), Value::List(vec![Value::None, Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [None, {}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Map(pairs(vec![]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[None, {}]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::None, Value::Map(pairs(vec![]))])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [None, {}]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Map(pairs(vec![]))]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [None, {}]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Map(pairs(vec![]))]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[None, {}]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::None, Value::Map(pairs(vec![]))])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [None, {}], b: [None, {}], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Map(pairs(vec![]))])), ("b", Value::List(vec![Value::None, Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, 1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, 1], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Integer(1)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [None, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::None, Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, 1], [None, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Integer(1)]), Value::List(vec![Value::None, Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [None, 1]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Integer(1)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[None, 1]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::None, Value::Integer(1)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [None, 1]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Integer(1)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [None, 1]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Integer(1)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[None, 1]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::None, Value::Integer(1)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [None, 1], b: [None, 1], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Integer(1)])), ("b", Value::List(vec![Value::None, Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, x.i], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Integer(x.i)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [None, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::None, Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[None, x.i], [None, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::None, Value::Integer(x.i)]), Value::List(vec![Value::None, Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [None, x.i]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Integer(x.i)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[None, x.i]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::None, Value::Integer(x.i)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [None, x.i]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Integer(x.i)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [None, x.i]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::None, Value::Integer(x.i)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[None, x.i]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::None, Value::Integer(x.i)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [None, x.i], b: [None, x.i], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Integer(x.i)])), ("b", Value::List(vec![Value::None, Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], None], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::None]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [[], None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::List(vec![]), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], None], [[], None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::None]), Value::List(vec![Value::List(vec![]), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[], None]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::None]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[[], None]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::List(vec![]), Value::None])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [[], None]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::None]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [[], None]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::None]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[[], None]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::None])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[], None], b: [[], None], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::None])), ("b", Value::List(vec![Value::List(vec![]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [[], []] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], []], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::List(vec![])]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [[], []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::List(vec![]), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], []], [[], []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::List(vec![])]), Value::List(vec![Value::List(vec![]), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[], []]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::List(vec![])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[[], []]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::List(vec![]), Value::List(vec![])])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [[], []]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::List(vec![])]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [[], []]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::List(vec![])]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[[], []]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::List(vec![])])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[], []], b: [[], []], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::List(vec![])])), ("b", Value::List(vec![Value::List(vec![]), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[], {}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], {}], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [[], {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], {}], [[], {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))]), Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[], {}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[[], {}]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [[], {}]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [[], {}]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[[], {}]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[], {}], b: [[], {}], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))])), ("b", Value::List(vec![Value::List(vec![]), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [[], 1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], 1], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(1)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [[], 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::List(vec![]), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], 1], [[], 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(1)]), Value::List(vec![Value::List(vec![]), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[], 1]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Integer(1)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[[], 1]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(1)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [[], 1]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Integer(1)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [[], 1]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Integer(1)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[[], 1]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(1)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[], 1], b: [[], 1], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::Integer(1)])), ("b", Value::List(vec![Value::List(vec![]), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[], x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], x.i], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(x.i)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [[], x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::List(vec![]), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[[], x.i], [[], x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(x.i)]), Value::List(vec![Value::List(vec![]), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[], x.i]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Integer(x.i)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[[], x.i]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(x.i)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [[], x.i]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Integer(x.i)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [[], x.i]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![]), Value::Integer(x.i)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[[], x.i]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::List(vec![]), Value::Integer(x.i)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[], x.i], b: [[], x.i], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![]), Value::Integer(x.i)])), ("b", Value::List(vec![Value::List(vec![]), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, None], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::None]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [{}, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Map(pairs(vec![])), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, None], [{}, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::None]), Value::List(vec![Value::Map(pairs(vec![])), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{}, None]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::None]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[{}, None]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::None])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [{}, None]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::None]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [{}, None]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::None]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[{}, None]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::None])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, None], b: [{}, None], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::None])), ("b", Value::List(vec![Value::Map(pairs(vec![])), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, []] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, []], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [{}, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, []], [{}, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])]), Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{}, []]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[{}, []]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [{}, []]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [{}, []]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[{}, []]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, []], b: [{}, []], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])])), ("b", Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, {}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, {}], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [{}, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, {}], [{}, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))]), Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{}, {}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[{}, {}]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [{}, {}]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [{}, {}]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[{}, {}]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, {}], b: [{}, {}], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))])), ("b", Value::List(vec![Value::Map(pairs(vec![])), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, 1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, 1], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [{}, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, 1], [{}, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)]), Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{}, 1]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[{}, 1]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [{}, 1]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [{}, 1]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[{}, 1]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, 1], b: [{}, 1], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)])), ("b", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, x.i], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [{}, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[{}, x.i], [{}, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)]), Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{}, x.i]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[{}, x.i]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [{}, x.i]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [{}, x.i]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[{}, x.i]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{}, x.i], b: [{}, x.i], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)])), ("b", Value::List(vec![Value::Map(pairs(vec![])), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [1, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, None], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::None]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [1, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(1), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, None], [1, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::None]), Value::List(vec![Value::Integer(1), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [1, None]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::None]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[1, None]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(1), Value::None])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [1, None]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::None]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [1, None]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::None]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[1, None]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(1), Value::None])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [1, None], b: [1, None], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::None])), ("b", Value::List(vec![Value::Integer(1), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [1, []] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, []], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::List(vec![])]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [1, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(1), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, []], [1, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::List(vec![])]), Value::List(vec![Value::Integer(1), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [1, []]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::List(vec![])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[1, []]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(1), Value::List(vec![])])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [1, []]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::List(vec![])]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [1, []]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::List(vec![])]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[1, []]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(1), Value::List(vec![])])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [1, []], b: [1, []], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::List(vec![])])), ("b", Value::List(vec![Value::Integer(1), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [1, {}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, {}], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [1, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, {}], [1, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))]), Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [1, {}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[1, {}]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [1, {}]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [1, {}]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[1, {}]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [1, {}], b: [1, {}], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))])), ("b", Value::List(vec![Value::Integer(1), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [1, 1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, 1], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(1)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [1, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(1), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, 1], [1, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(1)]), Value::List(vec![Value::Integer(1), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [1, 1]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Integer(1)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[1, 1]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(1)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [1, 1]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Integer(1)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [1, 1]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Integer(1)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[1, 1]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(1)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [1, 1], b: [1, 1], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Integer(1)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [1, x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, x.i], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(x.i)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [1, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(1), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[1, x.i], [1, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(x.i)]), Value::List(vec![Value::Integer(1), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [1, x.i]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Integer(x.i)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[1, x.i]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(x.i)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [1, x.i]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Integer(x.i)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [1, x.i]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(1), Value::Integer(x.i)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[1, x.i]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(1), Value::Integer(x.i)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [1, x.i], b: [1, x.i], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Integer(x.i)])), ("b", Value::List(vec![Value::Integer(1), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, None], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::None]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [x.i, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(x.i), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, None], [x.i, None]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::None]), Value::List(vec![Value::Integer(x.i), Value::None])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [x.i, None]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::None]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[x.i, None]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::None])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [x.i, None]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::None]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [x.i, None]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::None]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[x.i, None]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::None])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, None], b: [x.i, None], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::None])), ("b", Value::List(vec![Value::Integer(x.i), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, []] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, []], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::List(vec![])]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [x.i, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(x.i), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, []], [x.i, []]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::List(vec![])]), Value::List(vec![Value::Integer(x.i), Value::List(vec![])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [x.i, []]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::List(vec![])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[x.i, []]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::List(vec![])])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [x.i, []]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::List(vec![])]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [x.i, []]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::List(vec![])]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[x.i, []]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::List(vec![])])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, []], b: [x.i, []], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::List(vec![])])), ("b", Value::List(vec![Value::Integer(x.i), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, {}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, {}], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [x.i, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, {}], [x.i, {}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))]), Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [x.i, {}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[x.i, {}]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [x.i, {}]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [x.i, {}]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[x.i, {}]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, {}], b: [x.i, {}], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))])), ("b", Value::List(vec![Value::Integer(x.i), Value::Map(pairs(vec![]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, 1] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, 1], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(1)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [x.i, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(x.i), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, 1], [x.i, 1]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(1)]), Value::List(vec![Value::Integer(x.i), Value::Integer(1)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [x.i, 1]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Integer(1)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[x.i, 1]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(1)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [x.i, 1]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Integer(1)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [x.i, 1]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Integer(1)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[x.i, 1]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(1)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, 1], b: [x.i, 1], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::Integer(1)])), ("b", Value::List(vec![Value::Integer(x.i), Value::Integer(1)]))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, x.i] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, x.i], None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)]), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, [x.i, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: [[x.i, x.i], [x.i, x.i]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)]), Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [x.i, x.i]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[[x.i, x.i]]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)])])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: [x.i, x.i]}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: [x.i, x.i]}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [[x.i, x.i]]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)])]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [x.i, x.i], b: [x.i, x.i], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)])), ("b", Value::List(vec![Value::Integer(x.i), Value::Integer(x.i)]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: None} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::None)])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: None}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::None)]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: None}, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::None)])), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, {k: None}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Map(pairs(vec![("k", Value::None)]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: None}, {k: None}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::None)])), Value::Map(pairs(vec![("k", Value::None)]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: None}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::None)])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[{k: None}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("k", Value::None)]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: {k: None}}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::None)])))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {k: None}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::None)])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{k: None}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![("k", Value::None)]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: None}, b: {k: None}, }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::None)]))), ("b", Value::Map(pairs(vec![("k", Value::None)])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: []} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![]))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: []}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: []}, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![]))])), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, {k: []}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Map(pairs(vec![("k", Value::List(vec![]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: []}, {k: []}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![]))])), Value::Map(pairs(vec![("k", Value::List(vec![]))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: []}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![]))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[{k: []}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![]))]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: {k: []}}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![]))])))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {k: []}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::List(vec![]))])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{k: []}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![("k", Value::List(vec![]))]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: []}, b: {k: []}, }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![]))]))), ("b", Value::Map(pairs(vec![("k", Value::List(vec![]))])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {}}, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, {k: {}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {}}, {k: {}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])), Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: {}}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[{k: {}}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: {k: {}}}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {k: {}}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{k: {}}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {}}, b: {k: {}}, }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))]))), ("b", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![])))])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: 1} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Integer(1))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: 1}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(1))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: 1}, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(1))])), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, {k: 1}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Map(pairs(vec![("k", Value::Integer(1))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: 1}, {k: 1}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(1))])), Value::Map(pairs(vec![("k", Value::Integer(1))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: 1}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Integer(1))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[{k: 1}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(1))]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: {k: 1}}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Integer(1))])))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {k: 1}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Integer(1))])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{k: 1}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(1))]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: 1}, b: {k: 1}, }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Integer(1))]))), ("b", Value::Map(pairs(vec![("k", Value::Integer(1))])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: x.i} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Integer(x.i))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: x.i}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(x.i))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: x.i}, None] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(x.i))])), Value::None]))]))) },
    |x| { let _ = x; (upon::value! { a: [None, {k: x.i}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::None, Value::Map(pairs(vec![("k", Value::Integer(x.i))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: x.i}, {k: x.i}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(x.i))])), Value::Map(pairs(vec![("k", Value::Integer(x.i))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: x.i}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Integer(x.i))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[{k: x.i}]] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(x.i))]))])]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: {k: {k: x.i}}} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Integer(x.i))])))])))])))]))) },
    |x| { let _ = x; (upon::value! { a: [{k: {k: x.i}}] }, Value::Map(pairs(vec![("a", Value::List(vec![Value::Map(pairs(vec![("k", Value::Map(pairs(vec![("k", Value::Integer(x.i))])))]))]))]))) },
    |x| { let _ = x; (upon::value! { a: {k: [{k: x.i}]} }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::List(vec![Value::Map(pairs(vec![("k", Value::Integer(x.i))]))]))])))]))) },
    |x| { let _ = x; (upon::value! { a: {k: x.i}, b: {k: x.i}, }, Value::Map(pairs(vec![("a", Value::Map(pairs(vec![("k", Value::Integer(x.i))]))), ("b", Value::Map(pairs(vec![("k", Value::Integer(x.i))])))]))) },
    |x| { let _ = x; (upon::value! { b: x.v.clone(), None_: &x.l, type: Some(&x.t), None_: {_p: &&x.i, Key: i64::MIN, a: true,}, été: x.i }, Value::Map(pairs(vec![("b", x.v.clone()), ("None_", bytes(&x.l)), ("type", s(x.t.as_str())), ("None_", Value::Map(pairs(vec![("_p", Value::Integer(x.i)), ("Key", Value::Integer(i64::MIN)), ("a", Value::Bool(true))]))), ("été", Value::Integer(x.i))]))) },
    |x| { let _ = x; (upon::value! { b: Some(&x.t), if: upon::value! { q: [x.i] }, match: [u64::MAX / 2, &x.v, [[&x.t, &x.t,], x.i == x.i, x.i == x.i, {loop: None,}, [],], if x.l.is_empty() { 1 } else { 2 }, {été: {été: x.t.as_str(), Key: &&x.i, true_: &&x.i, Key: 'c'}, fn: u64::MAX / 2, self_: x.t.as_str(), type: {type: 0}},], name: [{x1: [-0.0, x.l.len() as u16], été: true, été: i64::MIN, _p: []}, "text"], if: f32::MAX }, Value::Map(pairs(vec![("b", s(x.t.as_str())), ("if", map([("q", Value::List(vec![Value::Integer(x.i)]))])), ("match", Value::List(vec![Value::Integer((u64::MAX / 2) as i64), x.v.clone(), Value::List(vec![Value::List(vec![s(x.t.as_str()), s(x.t.as_str())]), Value::Bool(true), Value::Bool(true), Value::Map(pairs(vec![("loop", Value::None)])), Value::List(vec![])]), Value::Integer(if x.l.is_empty() { 1 } else { 2 }), Value::Map(pairs(vec![("été", Value::Map(pairs(vec![("été", s(x.t.as_str())), ("Key", Value::Integer(x.i)), ("true_", Value::Integer(x.i)), ("Key", s("c"))]))), ("fn", Value::Integer((u64::MAX / 2) as i64)), ("self_", s(x.t.as_str())), ("type", Value::Map(pairs(vec![("type", Value::Integer(0))])))]))])), ("name", Value::List(vec![Value::Map(pairs(vec![("x1", Value::List(vec![Value::Float(-0.0), Value::Integer(x.l.len() as i64)])), ("été", Value::Bool(true)), ("été", Value::Integer(i64::MIN)), ("_p", Value::List(vec![]))])), s("text")])), ("if", Value::Float(f32::MAX as f64))]))) },
    |x| { let _ = x; (upon::value! { type: {}, }, Value::Map(pairs(vec![("type", Value::Map(pairs(vec![])))]))) },
    |x| { let _ = x; (upon::value! { fn: {None_: if x.l.is_empty() { 1 } else { 2 },}, }, Value::Map(pairs(vec![("fn", Value::Map(pairs(vec![("None_", Value::Integer(if x.l.is_empty() { 1 } else { 2 }))])))]))) },
    |x| { let _ = x; (upon::value! { loop: i64::MIN }, Value::Map(pairs(vec![("loop", Value::Integer(i64::MIN))]))) },
    |x| { let _ = x; (upon::value! { type: vec![1, 2], _p: upon::value! { q: [x.i] }, a: x.f }, Value::Map(pairs(vec![("type", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("_p", map([("q", Value::List(vec![Value::Integer(x.i)]))])), ("a", Value::Float(x.f))]))) },
    |x| { let _ = x; (upon::value! { None_: x.o, }, Value::Map(pairs(vec![("None_", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))]))) },
    |x| { let _ = x; (upon::value! { Key: {x1: {None_: x.t.as_str(), fn: if x.l.is_empty() { 1 } else { 2 }}, loop: [], match: x.o, self_: x.v.clone(),}, x1: [], match: Some(5), }, Value::Map(pairs(vec![("Key", Value::Map(pairs(vec![("x1", Value::Map(pairs(vec![("None_", s(x.t.as_str())), ("fn", Value::Integer(if x.l.is_empty() { 1 } else { 2 }))]))), ("loop", Value::List(vec![])), ("match", x.o.map_or(Value::None, |o| Value::Integer(o as i64))), ("self_", x.v.clone())]))), ("x1", Value::List(vec![])), ("match", Value::Integer(5))]))) },
    |x| { let _ = x; (upon::value! { match: {None_: -0.0} }, Value::Map(pairs(vec![("match", Value::Map(pairs(vec![("None_", Value::Float(-0.0))])))]))) },
    |x| { let _ = x; (upon::value! { None_: [[u64::MAX / 2, -7, i64::MIN, "", (1, "two"),],], }, Value::Map(pairs(vec![("None_", Value::List(vec![Value::List(vec![Value::Integer((u64::MAX / 2) as i64), Value::Integer(-7), Value::Integer(i64::MIN), s(""), Value::List(vec![Value::Integer(1), s("two")])])]))]))) },
    |x| { let _ = x; (upon::value! { true_: std::borrow::Cow::Borrowed("cow"), type: [None, if x.l.is_empty() { 1 } else { 2 }, ["",],], self_: f32::MAX, x1: 0, _p: "", }, Value::Map(pairs(vec![("true_", s("cow")), ("type", Value::List(vec![Value::None, Value::Integer(if x.l.is_empty() { 1 } else { 2 }), Value::List(vec![s("")])])), ("self_", Value::Float(f32::MAX as f64)), ("x1", Value::Integer(0)), ("_p", s(""))]))) },
    |x| { let _ = x; (upon::value! { None_: ['c', {true_: u64::MAX / 2, self_: -7}, [[1 + 2]], -7, f32::MAX,], }, Value::Map(pairs(vec![("None_", Value::List(vec![s("c"), Value::Map(pairs(vec![("true_", Value::Integer((u64::MAX / 2) as i64)), ("self_", Value::Integer(-7))])), Value::List(vec![Value::List(vec![Value::Integer(3)])]), Value::Integer(-7), Value::Float(f32::MAX as f64)]))]))) },
    |x| { let _ = x; (upon::value! { _p: -7 }, Value::Map(pairs(vec![("_p", Value::Integer(-7))]))) },
    |x| { let _ = x; (upon::value! { true_: &&x.i, match: [{x1: false, été: x.l.len() as u16,}, u64::MAX / 2, "", true, {Key: vec![1, 2], a: if x.l.is_empty() { 1 } else { 2 }, None_: Some(5), if: true},], None_: x.l.iter().map(|b| *b as i64).sum::<i64>(), None_: x.v.clone(), type: [match x.o { Some(_) => "some", _ => "none" }, &x.t, []], }, Value::Map(pairs(vec![("true_", Value::Integer(x.i)), ("match", Value::List(vec![Value::Map(pairs(vec![("x1", Value::Bool(false)), ("été", Value::Integer(x.l.len() as i64))])), Value::Integer((u64::MAX / 2) as i64), s(""), Value::Bool(true), Value::Map(pairs(vec![("Key", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("a", Value::Integer(if x.l.is_empty() { 1 } else { 2 })), ("None_", Value::Integer(5)), ("if", Value::Bool(true))]))])), ("None_", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("None_", x.v.clone()), ("type", Value::List(vec![s(match x.o { Some(_) => "some", _ => "none" }), s(x.t.as_str()), Value::List(vec![])]))]))) },
    |x| { let _ = x; (upon::value! { a: f32::MAX, }, Value::Map(pairs(vec![("a", Value::Float(f32::MAX as f64))]))) },
    |x| { let _ = x; (upon::value! { été: ["", [i64::MIN,]] }, Value::Map(pairs(vec![("été", Value::List(vec![s(""), Value::List(vec![Value::Integer(i64::MIN)])]))]))) },
    |x| { let _ = x; (upon::value! { None_: [], fn: (1, "two"), name: {}, loop: {b: [{}], loop: [std::borrow::Cow::Borrowed("cow")], true_: (), été: None,}, fn: {} }, Value::Map(pairs(vec![("None_", Value::List(vec![])), ("fn", Value::List(vec![Value::Integer(1), s("two")])), ("name", Value::Map(pairs(vec![]))), ("loop", Value::Map(pairs(vec![("b", Value::List(vec![Value::Map(pairs(vec![]))])), ("loop", Value::List(vec![s("cow")])), ("true_", Value::None), ("été", Value::None)]))), ("fn", Value::Map(pairs(vec![])))]))) },
    |x| { let _ = x; (upon::value! { _p: Some(5), Key: match x.o { Some(_) => "some", _ => "none" }, b: None, }, Value::Map(pairs(vec![("_p", Value::Integer(5)), ("Key", s(match x.o { Some(_) => "some", _ => "none" })), ("b", Value::None)]))) },
    |x| { let _ = x; (upon::value! { type: if x.l.is_empty() { 1 } else { 2 }, match: {}, name: {None_: &&x.i,}, None_: u64::MAX / 2, a: None }, Value::Map(pairs(vec![("type", Value::Integer(if x.l.is_empty() { 1 } else { 2 })), ("match", Value::Map(pairs(vec![]))), ("name", Value::Map(pairs(vec![("None_", Value::Integer(x.i))]))), ("None_", Value::Integer((u64::MAX / 2) as i64)), ("a", Value::None)]))) },
    |x| { let _ = x; (upon::value! { None_: vec![1, 2], a: [x.t.as_str()], été: x.o, }, Value::Map(pairs(vec![("None_", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("a", Value::List(vec![s(x.t.as_str())])), ("été", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))]))) },
    |x| { let _ = x; (upon::value! { type: match x.o { Some(_) => "some", _ => "none" } }, Value::Map(pairs(vec![("type", s(match x.o { Some(_) => "some", _ => "none" }))]))) },
    |x| { let _ = x; (upon::value! { name: [{_p: (), b: x.o,}], }, Value::Map(pairs(vec![("name", Value::List(vec![Value::Map(pairs(vec![("_p", Value::None), ("b", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))]))]))]))) },
    |x| { let _ = x; (upon::value! { None_: -0.0, x1: x.o }, Value::Map(pairs(vec![("None_", Value::Float(-0.0)), ("x1", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))]))) },
    |x| { let _ = x; (upon::value! { if: x.t.as_str(), été: vec![1, 2], type: {été: u64::MAX / 2}, match: x.l.len() as u16, true_: f32::MAX, }, Value::Map(pairs(vec![("if", s(x.t.as_str())), ("été", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("type", Value::Map(pairs(vec![("été", Value::Integer((u64::MAX / 2) as i64))]))), ("match", Value::Integer(x.l.len() as i64)), ("true_", Value::Float(f32::MAX as f64))]))) },
    |x| { let _ = x; (upon::value! { match: i64::MIN, x1: {match: [{fn: (), fn: -0.0,}], match: 1.5, a: {fn: [upon::value! { q: [x.i] }], self_: [x.l.iter().map(|b| *b as i64).sum::<i64>(), x.l.iter().map(|b| *b as i64).sum::<i64>(), x.f]},} }, Value::Map(pairs(vec![("match", Value::Integer(i64::MIN)), ("x1", Value::Map(pairs(vec![("match", Value::List(vec![Value::Map(pairs(vec![("fn", Value::None), ("fn", Value::Float(-0.0))]))])), ("match", Value::Float(1.5)), ("a", Value::Map(pairs(vec![("fn", Value::List(vec![map([("q", Value::List(vec![Value::Integer(x.i)]))])])), ("self_", Value::List(vec![Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()), Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()), Value::Float(x.f)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { if: [u64::MAX / 2, if x.l.is_empty() { 1 } else { 2 }, !false, x.l.iter().map(|b| *b as i64).sum::<i64>(), 1.5], _p: 1.5, }, Value::Map(pairs(vec![("if", Value::List(vec![Value::Integer((u64::MAX / 2) as i64), Value::Integer(if x.l.is_empty() { 1 } else { 2 }), Value::Bool(true), Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()), Value::Float(1.5)])), ("_p", Value::Float(1.5))]))) },
    |x| { let _ = x; (upon::value! { _p: &x.v, x1: true, true_: Some(5), }, Value::Map(pairs(vec![("_p", x.v.clone()), ("x1", Value::Bool(true)), ("true_", Value::Integer(5))]))) },
    |x| { let _ = x; (upon::value! { None_: [true,], été: {a: vec![1, 2],}, }, Value::Map(pairs(vec![("None_", Value::List(vec![Value::Bool(true)])), ("été", Value::Map(pairs(vec![("a", Value::List(vec![Value::Integer(1), Value::Integer(2)]))])))]))) },
    |x| { let _ = x; (upon::value! { true_: x.f, _p: i64::MIN, }, Value::Map(pairs(vec![("true_", Value::Float(x.f)), ("_p", Value::Integer(i64::MIN))]))) },
    |x| { let _ = x; (upon::value! { _p: [[{type: -7, self_: -7}, {}, (), "text", ['c', match x.o { Some(_) => "some", _ => "none" }, 'c'],], [std::borrow::Cow::Borrowed("cow")], {}, {match: [upon::value! { q: [x.i] }, if x.l.is_empty() { 1 } else { 2 }, &&x.i], if: -0.0,}, [{if: (),},],] }, Value::Map(pairs(vec![("_p", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("type", Value::Integer(-7)), ("self_", Value::Integer(-7))])), Value::Map(pairs(vec![])), Value::None, s("text"), Value::List(vec![s("c"), s(match x.o { Some(_) => "some", _ => "none" }), s("c")])]), Value::List(vec![s("cow")]), Value::Map(pairs(vec![])), Value::Map(pairs(vec![("match", Value::List(vec![map([("q", Value::List(vec![Value::Integer(x.i)]))]), Value::Integer(if x.l.is_empty() { 1 } else { 2 }), Value::Integer(x.i)])), ("if", Value::Float(-0.0))])), Value::List(vec![Value::Map(pairs(vec![("if", Value::None)]))])]))]))) },
    |x| { let _ = x; (upon::value! { x1: [[{name: false, été: Some(5), fn: x.t.as_str()}]], fn: std::borrow::Cow::Borrowed("cow") }, Value::Map(pairs(vec![("x1", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("name", Value::Bool(false)), ("été", Value::Integer(5)), ("fn", s(x.t.as_str()))]))])])), ("fn", s("cow"))]))) },
    |x| { let _ = x; (upon::value! { Key: [[x.t.as_str(),], {été: &x.t, if: {},}, f32::MAX], if: {été: u64::MAX / 2,}, a: x.t.as_str(), Key: [{}, [],], if: None, }, Value::Map(pairs(vec![("Key", Value::List(vec![Value::List(vec![s(x.t.as_str())]), Value::Map(pairs(vec![("été", s(x.t.as_str())), ("if", Value::Map(pairs(vec![])))])), Value::Float(f32::MAX as f64)])), ("if", Value::Map(pairs(vec![("été", Value::Integer((u64::MAX / 2) as i64))]))), ("a", s(x.t.as_str())), ("Key", Value::List(vec![Value::Map(pairs(vec![])), Value::List(vec![])])), ("if", Value::None)]))) },
    |x| { let _ = x; (upon::value! { None_: x.f, }, Value::Map(pairs(vec![("None_", Value::Float(x.f))]))) },
    |x| { let _ = x; (upon::value! { fn: [x.f], if: {x1: {self_: x.o,},}, _p: x.l.iter().map(|b| *b as i64).sum::<i64>(), self_: {type: upon::value! { q: [x.i] }}, name: {b: x.i == x.i, true_: -0.0, a: [{}, (), [{a: false, été: true, match: 1.5}, [match x.o { Some(_) => "some", _ => "none" }, Some(&x.t), Some(5),], "text"], "text", {},]}, }, Value::Map(pairs(vec![("fn", Value::List(vec![Value::Float(x.f)])), ("if", Value::Map(pairs(vec![("x1", Value::Map(pairs(vec![("self_", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))])))]))), ("_p", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("self_", Value::Map(pairs(vec![("type", map([("q", Value::List(vec![Value::Integer(x.i)]))]))]))), ("name", Value::Map(pairs(vec![("b", Value::Bool(true)), ("true_", Value::Float(-0.0)), ("a", Value::List(vec![Value::Map(pairs(vec![])), Value::None, Value::List(vec![Value::Map(pairs(vec![("a", Value::Bool(false)), ("été", Value::Bool(true)), ("match", Value::Float(1.5))])), Value::List(vec![s(match x.o { Some(_) => "some", _ => "none" }), s(x.t.as_str()), Value::Integer(5)]), s("text")]), s("text"), Value::Map(pairs(vec![]))]))])))]))) },
    |x| { let _ = x; (upon::value! { _p: {}, b: !false, self_: [{self_: [], self_: [[x.l.iter().map(|b| *b as i64).sum::<i64>(),]], if: {été: None, name: [-7, 0], fn: [x.f, !false, &x.v,], loop: {if: x.i, fn: match x.o { Some(_) => "some", _ => "none" },},},}, x.t.as_str(),], a: x.l.iter().map(|b| *b as i64).sum::<i64>(), fn: &x.l }, Value::Map(pairs(vec![("_p", Value::Map(pairs(vec![]))), ("b", Value::Bool(true)), ("self_", Value::List(vec![Value::Map(pairs(vec![("self_", Value::List(vec![])), ("self_", Value::List(vec![Value::List(vec![Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())])])), ("if", Value::Map(pairs(vec![("été", Value::None), ("name", Value::List(vec![Value::Integer(-7), Value::Integer(0)])), ("fn", Value::List(vec![Value::Float(x.f), Value::Bool(true), x.v.clone()])), ("loop", Value::Map(pairs(vec![("if", Value::Integer(x.i)), ("fn", s(match x.o { Some(_) => "some", _ => "none" }))])))])))])), s(x.t.as_str())])), ("a", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("fn", bytes(&x.l))]))) },
    |x| { let _ = x; (upon::value! { fn: {match: false, a: {}, Key: "", x1: 1.5}, fn: x.f, }, Value::Map(pairs(vec![("fn", Value::Map(pairs(vec![("match", Value::Bool(false)), ("a", Value::Map(pairs(vec![]))), ("Key", s("")), ("x1", Value::Float(1.5))]))), ("fn", Value::Float(x.f))]))) },
    |x| { let _ = x; (upon::value! { b: None, b: x.l.iter().map(|b| *b as i64).sum::<i64>(), }, Value::Map(pairs(vec![("b", Value::None), ("b", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()))]))) },
    |x| { let _ = x; (upon::value! { été: &x.t, a: None, }, Value::Map(pairs(vec![("été", s(x.t.as_str())), ("a", Value::None)]))) },
    |x| { let _ = x; (upon::value! { a: if x.l.is_empty() { 1 } else { 2 }, a: &x.t, }, Value::Map(pairs(vec![("a", Value::Integer(if x.l.is_empty() { 1 } else { 2 })), ("a", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { b: [x.v.clone(), &x.t, {loop: f32::MAX}], fn: -7, _p: [x.l.iter().map(|b| *b as i64).sum::<i64>(), {name: [-0.0, x.v.clone(), true], _p: -7, None_: x.i}, 'c',], match: 1.5, fn: {type: !false, if: [[!false, if x.l.is_empty() { 1 } else { 2 }, 1.5, 1 + 2, false], {x1: None, loop: &x.l, Key: std::borrow::Cow::Borrowed("cow"),}, [i64::MIN, None, !false],], loop: 0, self_: u64::MAX / 2,}, }, Value::Map(pairs(vec![("b", Value::List(vec![x.v.clone(), s(x.t.as_str()), Value::Map(pairs(vec![("loop", Value::Float(f32::MAX as f64))]))])), ("fn", Value::Integer(-7)), ("_p", Value::List(vec![Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()), Value::Map(pairs(vec![("name", Value::List(vec![Value::Float(-0.0), x.v.clone(), Value::Bool(true)])), ("_p", Value::Integer(-7)), ("None_", Value::Integer(x.i))])), s("c")])), ("match", Value::Float(1.5)), ("fn", Value::Map(pairs(vec![("type", Value::Bool(true)), ("if", Value::List(vec![Value::List(vec![Value::Bool(true), Value::Integer(if x.l.is_empty() { 1 } else { 2 }), Value::Float(1.5), Value::Integer(3), Value::Bool(false)]), Value::Map(pairs(vec![("x1", Value::None), ("loop", bytes(&x.l)), ("Key", s("cow"))])), Value::List(vec![Value::Integer(i64::MIN), Value::None, Value::Bool(true)])])), ("loop", Value::Integer(0)), ("self_", Value::Integer((u64::MAX / 2) as i64))])))]))) },
    |x| { let _ = x; (upon::value! { true_: None, name: 0, }, Value::Map(pairs(vec![("true_", Value::None), ("name", Value::Integer(0))]))) },
    |x| { let _ = x; (upon::value! { x1: if x.l.is_empty() { 1 } else { 2 }, self_: [std::borrow::Cow::Borrowed("cow")], fn: {_p: upon::value! { q: [x.i] }} }, Value::Map(pairs(vec![("x1", Value::Integer(if x.l.is_empty() { 1 } else { 2 })), ("self_", Value::List(vec![s("cow")])), ("fn", Value::Map(pairs(vec![("_p", map([("q", Value::List(vec![Value::Integer(x.i)]))]))])))]))) },
    |x| { let _ = x; (upon::value! { None_: &x.t, }, Value::Map(pairs(vec![("None_", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { name: 'c', true_: {fn: x.t.as_str(), name: "text", true_: match x.o { Some(_) => "some", _ => "none" }, Key: {_p: [true, &&x.i,], b: &x.t,},}, }, Value::Map(pairs(vec![("name", s("c")), ("true_", Value::Map(pairs(vec![("fn", s(x.t.as_str())), ("name", s("text")), ("true_", s(match x.o { Some(_) => "some", _ => "none" })), ("Key", Value::Map(pairs(vec![("_p", Value::List(vec![Value::Bool(true), Value::Integer(x.i)])), ("b", s(x.t.as_str()))])))])))]))) },
    |x| { let _ = x; (upon::value! { b: x.i, name: {Key: x.i, None_: None, fn: match x.o { Some(_) => "some", _ => "none" },}, loop: {loop: std::borrow::Cow::Borrowed("cow"), name: x.l.len() as u16, true_: None,} }, Value::Map(pairs(vec![("b", Value::Integer(x.i)), ("name", Value::Map(pairs(vec![("Key", Value::Integer(x.i)), ("None_", Value::None), ("fn", s(match x.o { Some(_) => "some", _ => "none" }))]))), ("loop", Value::Map(pairs(vec![("loop", s("cow")), ("name", Value::Integer(x.l.len() as i64)), ("true_", Value::None)])))]))) },
    |x| { let _ = x; (upon::value! { fn: Some(&x.t), a: Some(&x.t), }, Value::Map(pairs(vec![("fn", s(x.t.as_str())), ("a", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { name: vec![1, 2], self_: Some(5), }, Value::Map(pairs(vec![("name", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("self_", Value::Integer(5))]))) },
    |x| { let _ = x; (upon::value! { a: x.v.clone(), }, Value::Map(pairs(vec![("a", x.v.clone())]))) },
    |x| { let _ = x; (upon::value! { b: {}, b: x.v.clone(), }, Value::Map(pairs(vec![("b", Value::Map(pairs(vec![]))), ("b", x.v.clone())]))) },
    |x| { let _ = x; (upon::value! { b: x.i == x.i }, Value::Map(pairs(vec![("b", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { true_: -7, true_: x.f, true_: {}, _p: {loop: [x.l.len() as u16, &&x.i,], true_: 'c'}, loop: [{match: &x.v, _p: -0.0},] }, Value::Map(pairs(vec![("true_", Value::Integer(-7)), ("true_", Value::Float(x.f)), ("true_", Value::Map(pairs(vec![]))), ("_p", Value::Map(pairs(vec![("loop", Value::List(vec![Value::Integer(x.l.len() as i64), Value::Integer(x.i)])), ("true_", s("c"))]))), ("loop", Value::List(vec![Value::Map(pairs(vec![("match", x.v.clone()), ("_p", Value::Float(-0.0))]))]))]))) },
    |x| { let _ = x; (upon::value! { None_: "", self_: {type: &&x.i}, }, Value::Map(pairs(vec![("None_", s("")), ("self_", Value::Map(pairs(vec![("type", Value::Integer(x.i))])))]))) },
    |x| { let _ = x; (upon::value! { b: {fn: vec![1, 2], été: None}, Key: None, fn: {}, true_: {Key: match x.o { Some(_) => "some", _ => "none" },}, if: {fn: x.o} }, Value::Map(pairs(vec![("b", Value::Map(pairs(vec![("fn", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("été", Value::None)]))), ("Key", Value::None), ("fn", Value::Map(pairs(vec![]))), ("true_", Value::Map(pairs(vec![("Key", s(match x.o { Some(_) => "some", _ => "none" }))]))), ("if", Value::Map(pairs(vec![("fn", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))])))]))) },
    |x| { let _ = x; (upon::value! { match: [1.5,], }, Value::Map(pairs(vec![("match", Value::List(vec![Value::Float(1.5)]))]))) },
    |x| { let _ = x; (upon::value! { b: [], }, Value::Map(pairs(vec![("b", Value::List(vec![]))]))) },
    |x| { let _ = x; (upon::value! { loop: x.o, x1: None, été: i64::MIN, }, Value::Map(pairs(vec![("loop", x.o.map_or(Value::None, |o| Value::Integer(o as i64))), ("x1", Value::None), ("été", Value::Integer(i64::MIN))]))) },
    |x| { let _ = x; (upon::value! { b: {if: &x.l}, a: 1 + 2, Key: x.l.len() as u16, _p: if x.l.is_empty() { 1 } else { 2 }, _p: [&x.l, x.v.clone(), f32::MAX,], }, Value::Map(pairs(vec![("b", Value::Map(pairs(vec![("if", bytes(&x.l))]))), ("a", Value::Integer(3)), ("Key", Value::Integer(x.l.len() as i64)), ("_p", Value::Integer(if x.l.is_empty() { 1 } else { 2 })), ("_p", Value::List(vec![bytes(&x.l), x.v.clone(), Value::Float(f32::MAX as f64)]))]))) },
    |x| { let _ = x; (upon::value! { name: u64::MAX / 2, if: [], match: {None_: 1.5}, }, Value::Map(pairs(vec![("name", Value::Integer((u64::MAX / 2) as i64)), ("if", Value::List(vec![])), ("match", Value::Map(pairs(vec![("None_", Value::Float(1.5))])))]))) },
    |x| { let _ = x; (upon::value! { self_: [i64::MIN], loop: u64::MAX / 2, loop: 1 + 2, }, Value::Map(pairs(vec![("self_", Value::List(vec![Value::Integer(i64::MIN)])), ("loop", Value::Integer((u64::MAX / 2) as i64)), ("loop", Value::Integer(3))]))) },
    |x| { let _ = x; (upon::value! { x1: {loop: i64::MIN, self_: u64::MAX / 2, loop: "",}, x1: x.v.clone(), fn: [[{x1: [(1, "two")], b: {name: 'c',},}, {fn: [std::borrow::Cow::Borrowed("cow"), Some(&x.t),], self_: x.l.iter().map(|b| *b as i64).sum::<i64>(), None_: [(1, "two"), u64::MAX / 2]},],] }, Value::Map(pairs(vec![("x1", Value::Map(pairs(vec![("loop", Value::Integer(i64::MIN)), ("self_", Value::Integer((u64::MAX / 2) as i64)), ("loop", s(""))]))), ("x1", x.v.clone()), ("fn", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("x1", Value::List(vec![Value::List(vec![Value::Integer(1), s("two")])])), ("b", Value::Map(pairs(vec![("name", s("c"))])))])), Value::Map(pairs(vec![("fn", Value::List(vec![s("cow"), s(x.t.as_str())])), ("self_", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("None_", Value::List(vec![Value::List(vec![Value::Integer(1), s("two")]), Value::Integer((u64::MAX / 2) as i64)]))]))])]))]))) },
    |x| { let _ = x; (upon::value! { name: x.v.clone(), x1: [[{self_: match x.o { Some(_) => "some", _ => "none" },}, None, i64::MIN], match x.o { Some(_) => "some", _ => "none" }, 0], x1: {match: [],}, if: {_p: [&x.l], None_: -0.0, self_: &x.v,}, loop: upon::value! { q: [x.i] } }, Value::Map(pairs(vec![("name", x.v.clone()), ("x1", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("self_", s(match x.o { Some(_) => "some", _ => "none" }))])), Value::None, Value::Integer(i64::MIN)]), s(match x.o { Some(_) => "some", _ => "none" }), Value::Integer(0)])), ("x1", Value::Map(pairs(vec![("match", Value::List(vec![]))]))), ("if", Value::Map(pairs(vec![("_p", Value::List(vec![bytes(&x.l)])), ("None_", Value::Float(-0.0)), ("self_", x.v.clone())]))), ("loop", map([("q", Value::List(vec![Value::Integer(x.i)]))]))]))) },
    |x| { let _ = x; (upon::value! { true_: {_p: None, type: x.l.len() as u16, type: [1 + 2, Some(&x.t)]} }, Value::Map(pairs(vec![("true_", Value::Map(pairs(vec![("_p", Value::None), ("type", Value::Integer(x.l.len() as i64)), ("type", Value::List(vec![Value::Integer(3), s(x.t.as_str())]))])))]))) },
    |x| { let _ = x; (upon::value! { name: &x.l, }, Value::Map(pairs(vec![("name", bytes(&x.l))]))) },
    |x| { let _ = x; (upon::value! { loop: {loop: [if x.l.is_empty() { 1 } else { 2 }, vec![1, 2], None, "text", &x.v,], self_: x.t.as_str(), b: f32::MAX, if: [None,],}, Key: &x.l, x1: [std::borrow::Cow::Borrowed("cow"), {a: Some(&x.t)}, (), [!false, &x.v], x.l.iter().map(|b| *b as i64).sum::<i64>()], }, Value::Map(pairs(vec![("loop", Value::Map(pairs(vec![("loop", Value::List(vec![Value::Integer(if x.l.is_empty() { 1 } else { 2 }), Value::List(vec![Value::Integer(1), Value::Integer(2)]), Value::None, s("text"), x.v.clone()])), ("self_", s(x.t.as_str())), ("b", Value::Float(f32::MAX as f64)), ("if", Value::List(vec![Value::None]))]))), ("Key", bytes(&x.l)), ("x1", Value::List(vec![s("cow"), Value::Map(pairs(vec![("a", s(x.t.as_str()))])), Value::None, Value::List(vec![Value::Bool(true), x.v.clone()]), Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())]))]))) },
    |x| { let _ = x; (upon::value! { loop: {x1: f32::MAX, a: (1, "two")} }, Value::Map(pairs(vec![("loop", Value::Map(pairs(vec![("x1", Value::Float(f32::MAX as f64)), ("a", Value::List(vec![Value::Integer(1), s("two")]))])))]))) },
    |x| { let _ = x; (upon::value! { None_: None, été: [&&x.i, !false, !false, x.t.as_str(), {name: "",},], _p: x.l.len() as u16 }, Value::Map(pairs(vec![("None_", Value::None), ("été", Value::List(vec![Value::Integer(x.i), Value::Bool(true), Value::Bool(true), s(x.t.as_str()), Value::Map(pairs(vec![("name", s(""))]))])), ("_p", Value::Integer(x.l.len() as i64))]))) },
    |x| { let _ = x; (upon::value! { name: {x1: 1.5, true_: x.o, x1: x.t.as_str(),}, }, Value::Map(pairs(vec![("name", Value::Map(pairs(vec![("x1", Value::Float(1.5)), ("true_", x.o.map_or(Value::None, |o| Value::Integer(o as i64))), ("x1", s(x.t.as_str()))])))]))) },
    |x| { let _ = x; (upon::value! { été: 1.5 }, Value::Map(pairs(vec![("été", Value::Float(1.5))]))) },
    |x| { let _ = x; (upon::value! { x1: 'c', été: {None_: (1, "two"), match: ["", [!false,], {name: upon::value! { q: [x.i] }, x1: {if: 'c', été: Some(5), b: (), true_: upon::value! { q: [x.i] },}, self_: ['c', &x.l, upon::value! { q: [x.i] }, None, -0.0,], loop: [&x.v]}], été: u64::MAX / 2, if: x.i}, self_: None }, Value::Map(pairs(vec![("x1", s("c")), ("été", Value::Map(pairs(vec![("None_", Value::List(vec![Value::Integer(1), s("two")])), ("match", Value::List(vec![s(""), Value::List(vec![Value::Bool(true)]), Value::Map(pairs(vec![("name", map([("q", Value::List(vec![Value::Integer(x.i)]))])), ("x1", Value::Map(pairs(vec![("if", s("c")), ("été", Value::Integer(5)), ("b", Value::None), ("true_", map([("q", Value::List(vec![Value::Integer(x.i)]))]))]))), ("self_", Value::List(vec![s("c"), bytes(&x.l), map([("q", Value::List(vec![Value::Integer(x.i)]))]), Value::None, Value::Float(-0.0)])), ("loop", Value::List(vec![x.v.clone()]))]))])), ("été", Value::Integer((u64::MAX / 2) as i64)), ("if", Value::Integer(x.i))]))), ("self_", Value::None)]))) },
    |x| { let _ = x; (upon::value! { _p: -7, }, Value::Map(pairs(vec![("_p", Value::Integer(-7))]))) },
    |x| { let _ = x; (upon::value! { _p: [(1, "two"), (1, "two"), -7, x.i, -7], _p: [u64::MAX / 2, match x.o { Some(_) => "some", _ => "none" }, false,], x1: Some(&x.t), }, Value::Map(pairs(vec![("_p", Value::List(vec![Value::List(vec![Value::Integer(1), s("two")]), Value::List(vec![Value::Integer(1), s("two")]), Value::Integer(-7), Value::Integer(x.i), Value::Integer(-7)])), ("_p", Value::List(vec![Value::Integer((u64::MAX / 2) as i64), s(match x.o { Some(_) => "some", _ => "none" }), Value::Bool(false)])), ("x1", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { name: [x.o, [Some(&x.t), x.i, x.t.as_str(), -0.0, None,],], type: x.l.iter().map(|b| *b as i64).sum::<i64>(), true_: "text", loop: {match: Some(&x.t), if: x.l.iter().map(|b| *b as i64).sum::<i64>(), été: {x1: true, true_: x.f, self_: &x.t, None_: true}, été: (1, "two"),}, été: [], }, Value::Map(pairs(vec![("name", Value::List(vec![x.o.map_or(Value::None, |o| Value::Integer(o as i64)), Value::List(vec![s(x.t.as_str()), Value::Integer(x.i), s(x.t.as_str()), Value::Float(-0.0), Value::None])])), ("type", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("true_", s("text")), ("loop", Value::Map(pairs(vec![("match", s(x.t.as_str())), ("if", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("été", Value::Map(pairs(vec![("x1", Value::Bool(true)), ("true_", Value::Float(x.f)), ("self_", s(x.t.as_str())), ("None_", Value::Bool(true))]))), ("été", Value::List(vec![Value::Integer(1), s("two")]))]))), ("été", Value::List(vec![]))]))) },
    |x| { let _ = x; (upon::value! { été: "", true_: {Key: [0, x.i == x.i]}, a: -7, _p: i64::MIN, fn: true, }, Value::Map(pairs(vec![("été", s("")), ("true_", Value::Map(pairs(vec![("Key", Value::List(vec![Value::Integer(0), Value::Bool(true)]))]))), ("a", Value::Integer(-7)), ("_p", Value::Integer(i64::MIN)), ("fn", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { self_: "text", Key: [{name: u64::MAX / 2,},], Key: x.i == x.i, x1: &x.t, loop: {} }, Value::Map(pairs(vec![("self_", s("text")), ("Key", Value::List(vec![Value::Map(pairs(vec![("name", Value::Integer((u64::MAX / 2) as i64))]))])), ("Key", Value::Bool(true)), ("x1", s(x.t.as_str())), ("loop", Value::Map(pairs(vec![])))]))) },
    |x| { let _ = x; (upon::value! { Key: {if: std::borrow::Cow::Borrowed("cow"), if: {true_: false,}, _p: match x.o { Some(_) => "some", _ => "none" }, a: {match: i64::MIN, a: u64::MAX / 2,},}, fn: upon::value! { q: [x.i] }, loop: [[-0.0, u64::MAX / 2, (), u64::MAX / 2, &x.v], 1 + 2, [x.l.len() as u16,], true, match x.o { Some(_) => "some", _ => "none" }], x1: {x1: i64::MIN}, if: [{type: None}, {b: vec![1, 2], _p: x.o,}, [x.f, x.o],], }, Value::Map(pairs(vec![("Key", Value::Map(pairs(vec![("if", s("cow")), ("if", Value::Map(pairs(vec![("true_", Value::Bool(false))]))), ("_p", s(match x.o { Some(_) => "some", _ => "none" })), ("a", Value::Map(pairs(vec![("match", Value::Integer(i64::MIN)), ("a", Value::Integer((u64::MAX / 2) as i64))])))]))), ("fn", map([("q", Value::List(vec![Value::Integer(x.i)]))])), ("loop", Value::List(vec![Value::List(vec![Value::Float(-0.0), Value::Integer((u64::MAX / 2) as i64), Value::None, Value::Integer((u64::MAX / 2) as i64), x.v.clone()]), Value::Integer(3), Value::List(vec![Value::Integer(x.l.len() as i64)]), Value::Bool(true), s(match x.o { Some(_) => "some", _ => "none" })])), ("x1", Value::Map(pairs(vec![("x1", Value::Integer(i64::MIN))]))), ("if", Value::List(vec![Value::Map(pairs(vec![("type", Value::None)])), Value::Map(pairs(vec![("b", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("_p", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))])), Value::List(vec![Value::Float(x.f), x.o.map_or(Value::None, |o| Value::Integer(o as i64))])]))]))) },
    |x| { let _ = x; (upon::value! { match: [] }, Value::Map(pairs(vec![("match", Value::List(vec![]))]))) },
    |x| { let _ = x; (upon::value! { b: Some(5), }, Value::Map(pairs(vec![("b", Value::Integer(5))]))) },
    |x| { let _ = x; (upon::value! { Key: {b: 0}, None_: {}, type: [Some(&x.t)], été: None, type: {b: false, a: &x.v, type: {_p: {self_: x.v.clone(),}}} }, Value::Map(pairs(vec![("Key", Value::Map(pairs(vec![("b", Value::Integer(0))]))), ("None_", Value::Map(pairs(vec![]))), ("type", Value::List(vec![s(x.t.as_str())])), ("été", Value::None), ("type", Value::Map(pairs(vec![("b", Value::Bool(false)), ("a", x.v.clone()), ("type", Value::Map(pairs(vec![("_p", Value::Map(pairs(vec![("self_", x.v.clone())])))])))])))]))) },
    |x| { let _ = x; (upon::value! { true_: x.i, fn: i64::MIN, true_: (), }, Value::Map(pairs(vec![("true_", Value::Integer(x.i)), ("fn", Value::Integer(i64::MIN)), ("true_", Value::None)]))) },
    |x| { let _ = x; (upon::value! { loop: &&x.i }, Value::Map(pairs(vec![("loop", Value::Integer(x.i))]))) },
    |x| { let _ = x; (upon::value! { type: {x1: x.i == x.i, None_: Some(5), name: x.o}, }, Value::Map(pairs(vec![("type", Value::Map(pairs(vec![("x1", Value::Bool(true)), ("None_", Value::Integer(5)), ("name", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))])))]))) },
    |x| { let _ = x; (upon::value! { a: [Some(&x.t)], }, Value::Map(pairs(vec![("a", Value::List(vec![s(x.t.as_str())]))]))) },
    |x| { let _ = x; (upon::value! { _p: x.v.clone(), match: {match: {},}, name: 'c', été: {match: &x.l, name: {type: x.o, Key: None, a: {b: -0.0, loop: ['c', "", x.i == x.i, std::borrow::Cow::Borrowed("cow"), &&x.i], _p: 'c',}, type: x.l.len() as u16}, true_: {match: x.v.clone()}}, été: i64::MIN, }, Value::Map(pairs(vec![("_p", x.v.clone()), ("match", Value::Map(pairs(vec![("match", Value::Map(pairs(vec![])))]))), ("name", s("c")), ("été", Value::Map(pairs(vec![("match", bytes(&x.l)), ("name", Value::Map(pairs(vec![("type", x.o.map_or(Value::None, |o| Value::Integer(o as i64))), ("Key", Value::None), ("a", Value::Map(pairs(vec![("b", Value::Float(-0.0)), ("loop", Value::List(vec![s("c"), s(""), Value::Bool(true), s("cow"), Value::Integer(x.i)])), ("_p", s("c"))]))), ("type", Value::Integer(x.l.len() as i64))]))), ("true_", Value::Map(pairs(vec![("match", x.v.clone())])))]))), ("été", Value::Integer(i64::MIN))]))) },
    |x| { let _ = x; (upon::value! { b: true, _p: &x.t, }, Value::Map(pairs(vec![("b", Value::Bool(true)), ("_p", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { fn: {a: 0}, x1: [None], match: [], match: 0, self_: [i64::MIN, [Some(5), upon::value! { q: [x.i] }, match x.o { Some(_) => "some", _ => "none" },], {}, (1, "two"), [1.5, x.o]] }, Value::Map(pairs(vec![("fn", Value::Map(pairs(vec![("a", Value::Integer(0))]))), ("x1", Value::List(vec![Value::None])), ("match", Value::List(vec![])), ("match", Value::Integer(0)), ("self_", Value::List(vec![Value::Integer(i64::MIN), Value::List(vec![Value::Integer(5), map([("q", Value::List(vec![Value::Integer(x.i)]))]), s(match x.o { Some(_) => "some", _ => "none" })]), Value::Map(pairs(vec![])), Value::List(vec![Value::Integer(1), s("two")]), Value::List(vec![Value::Float(1.5), x.o.map_or(Value::None, |o| Value::Integer(o as i64))])]))]))) },
    |x| { let _ = x; (upon::value! { fn: x.l.iter().map(|b| *b as i64).sum::<i64>(), None_: std::borrow::Cow::Borrowed("cow"), Key: false }, Value::Map(pairs(vec![("fn", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("None_", s("cow")), ("Key", Value::Bool(false))]))) },
    |x| { let _ = x; (upon::value! { true_: i64::MIN, loop: [x.l.iter().map(|b| *b as i64).sum::<i64>(), 'c', -0.0, x.t.as_str(), !false] }, Value::Map(pairs(vec![("true_", Value::Integer(i64::MIN)), ("loop", Value::List(vec![Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()), s("c"), Value::Float(-0.0), s(x.t.as_str()), Value::Bool(true)]))]))) },
    |x| { let _ = x; (upon::value! { x1: "", name: match x.o { Some(_) => "some", _ => "none" }, a: 'c', name: x.i == x.i, loop: vec![1, 2], }, Value::Map(pairs(vec![("x1", s("")), ("name", s(match x.o { Some(_) => "some", _ => "none" })), ("a", s("c")), ("name", Value::Bool(true)), ("loop", Value::List(vec![Value::Integer(1), Value::Integer(2)]))]))) },
    |x| { let _ = x; (upon::value! { name: {self_: upon::value! { q: [x.i] }, type: [x.v.clone(), &&x.i], x1: {self_: i64::MIN, été: x.o, a: !false, été: !false,}} }, Value::Map(pairs(vec![("name", Value::Map(pairs(vec![("self_", map([("q", Value::List(vec![Value::Integer(x.i)]))])), ("type", Value::List(vec![x.v.clone(), Value::Integer(x.i)])), ("x1", Value::Map(pairs(vec![("self_", Value::Integer(i64::MIN)), ("été", x.o.map_or(Value::None, |o| Value::Integer(o as i64))), ("a", Value::Bool(true)), ("été", Value::Bool(true))])))])))]))) },
    |x| { let _ = x; (upon::value! { x1: x.f, fn: Some(&x.t), if: "", type: if x.l.is_empty() { 1 } else { 2 }, self_: {name: [&x.t,], name: x.l.iter().map(|b| *b as i64).sum::<i64>(), match: {true_: x.v.clone(), été: [f32::MAX], if: {}, été: [x.o, {}, {self_: &x.t,}]}, name: [[{x1: x.t.as_str(), type: if x.l.is_empty() { 1 } else { 2 }, if: x.v.clone(), Key: Some(&x.t)}, [&x.l, match x.o { Some(_) => "some", _ => "none" }, Some(5), false, -7]],]} }, Value::Map(pairs(vec![("x1", Value::Float(x.f)), ("fn", s(x.t.as_str())), ("if", s("")), ("type", Value::Integer(if x.l.is_empty() { 1 } else { 2 })), ("self_", Value::Map(pairs(vec![("name", Value::List(vec![s(x.t.as_str())])), ("name", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("match", Value::Map(pairs(vec![("true_", x.v.clone()), ("été", Value::List(vec![Value::Float(f32::MAX as f64)])), ("if", Value::Map(pairs(vec![]))), ("été", Value::List(vec![x.o.map_or(Value::None, |o| Value::Integer(o as i64)), Value::Map(pairs(vec![])), Value::Map(pairs(vec![("self_", s(x.t.as_str()))]))]))]))), ("name", Value::List(vec![Value::List(vec![Value::Map(pairs(vec![("x1", s(x.t.as_str())), ("type", Value::Integer(if x.l.is_empty() { 1 } else { 2 })), ("if", x.v.clone()), ("Key", s(x.t.as_str()))])), Value::List(vec![bytes(&x.l), s(match x.o { Some(_) => "some", _ => "none" }), Value::Integer(5), Value::Bool(false), Value::Integer(-7)])])]))])))]))) },
    |x| { let _ = x; (upon::value! { Key: {true_: {Key: "text", if: [[],], loop: {x1: [x.t.as_str(), (1, "two"), Some(5)], x1: None, true_: x.t.as_str(),}}, name: vec![1, 2], loop: 'c',}, fn: x.f }, Value::Map(pairs(vec![("Key", Value::Map(pairs(vec![("true_", Value::Map(pairs(vec![("Key", s("text")), ("if", Value::List(vec![Value::List(vec![])])), ("loop", Value::Map(pairs(vec![("x1", Value::List(vec![s(x.t.as_str()), Value::List(vec![Value::Integer(1), s("two")]), Value::Integer(5)])), ("x1", Value::None), ("true_", s(x.t.as_str()))])))]))), ("name", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("loop", s("c"))]))), ("fn", Value::Float(x.f))]))) },
    |x| { let _ = x; (upon::value! { x1: if x.l.is_empty() { 1 } else { 2 }, type: [Some(&x.t), false,], true_: {Key: 1 + 2, self_: &x.v, _p: 0}, été: x.l.iter().map(|b| *b as i64).sum::<i64>(), fn: 0 }, Value::Map(pairs(vec![("x1", Value::Integer(if x.l.is_empty() { 1 } else { 2 })), ("type", Value::List(vec![s(x.t.as_str()), Value::Bool(false)])), ("true_", Value::Map(pairs(vec![("Key", Value::Integer(3)), ("self_", x.v.clone()), ("_p", Value::Integer(0))]))), ("été", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("fn", Value::Integer(0))]))) },
    |x| { let _ = x; (upon::value! { été: [], self_: Some(&x.t) }, Value::Map(pairs(vec![("été", Value::List(vec![])), ("self_", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { b: [u64::MAX / 2, Some(5), [[1 + 2, x.l.iter().map(|b| *b as i64).sum::<i64>(), 0, match x.o { Some(_) => "some", _ => "none" }, i64::MIN,]], {x1: [u64::MAX / 2, f32::MAX], x1: x.l.len() as u16, été: "text"}, Some(&x.t),], match: &x.l, }, Value::Map(pairs(vec![("b", Value::List(vec![Value::Integer((u64::MAX / 2) as i64), Value::Integer(5), Value::List(vec![Value::List(vec![Value::Integer(3), Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()), Value::Integer(0), s(match x.o { Some(_) => "some", _ => "none" }), Value::Integer(i64::MIN)])]), Value::Map(pairs(vec![("x1", Value::List(vec![Value::Integer((u64::MAX / 2) as i64), Value::Float(f32::MAX as f64)])), ("x1", Value::Integer(x.l.len() as i64)), ("été", s("text"))])), s(x.t.as_str())])), ("match", bytes(&x.l))]))) },
    |x| { let _ = x; (upon::value! { type: {été: {}, fn: [[[x.t.as_str()], x.v.clone(),], &x.t,],} }, Value::Map(pairs(vec![("type", Value::Map(pairs(vec![("été", Value::Map(pairs(vec![]))), ("fn", Value::List(vec![Value::List(vec![Value::List(vec![s(x.t.as_str())]), x.v.clone()]), s(x.t.as_str())]))])))]))) },
    |x| { let _ = x; (upon::value! { x1: &x.t, None_: {été: {match: 'c', a: !false}, true_: {}, Key: [Some(5),], None_: ""} }, Value::Map(pairs(vec![("x1", s(x.t.as_str())), ("None_", Value::Map(pairs(vec![("été", Value::Map(pairs(vec![("match", s("c")), ("a", Value::Bool(true))]))), ("true_", Value::Map(pairs(vec![]))), ("Key", Value::List(vec![Value::Integer(5)])), ("None_", s(""))])))]))) },
    |x| { let _ = x; (upon::value! { a: [[(1, "two"), if x.l.is_empty() { 1 } else { 2 }, &x.t,], ["text"], [u64::MAX / 2, 0, -7, std::borrow::Cow::Borrowed("cow"), std::borrow::Cow::Borrowed("cow"),], 1.5, [&&x.i,]], type: {}, _p: [match x.o { Some(_) => "some", _ => "none" },], }, Value::Map(pairs(vec![("a", Value::List(vec![Value::List(vec![Value::List(vec![Value::Integer(1), s("two")]), Value::Integer(if x.l.is_empty() { 1 } else { 2 }), s(x.t.as_str())]), Value::List(vec![s("text")]), Value::List(vec![Value::Integer((u64::MAX / 2) as i64), Value::Integer(0), Value::Integer(-7), s("cow"), s("cow")]), Value::Float(1.5), Value::List(vec![Value::Integer(x.i)])])), ("type", Value::Map(pairs(vec![]))), ("_p", Value::List(vec![s(match x.o { Some(_) => "some", _ => "none" })]))]))) },
    |x| { let _ = x; (upon::value! { fn: {}, _p: std::borrow::Cow::Borrowed("cow"), true_: [&x.v, &x.t], type: [], name: [x.f] }, Value::Map(pairs(vec![("fn", Value::Map(pairs(vec![]))), ("_p", s("cow")), ("true_", Value::List(vec![x.v.clone(), s(x.t.as_str())])), ("type", Value::List(vec![])), ("name", Value::List(vec![Value::Float(x.f)]))]))) },
    |x| { let _ = x; (upon::value! { None_: upon::value! { q: [x.i] }, Key: x.i == x.i, }, Value::Map(pairs(vec![("None_", map([("q", Value::List(vec![Value::Integer(x.i)]))])), ("Key", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { été: {_p: Some(5)}, loop: true }, Value::Map(pairs(vec![("été", Value::Map(pairs(vec![("_p", Value::Integer(5))]))), ("loop", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { None_: f32::MAX, x1: &x.v, self_: &x.v, fn: !false, if: None }, Value::Map(pairs(vec![("None_", Value::Float(f32::MAX as f64)), ("x1", x.v.clone()), ("self_", x.v.clone()), ("fn", Value::Bool(true)), ("if", Value::None)]))) },
    |x| { let _ = x; (upon::value! { x1: {match: {if: [true,],}}, name: {fn: match x.o { Some(_) => "some", _ => "none" },}, }, Value::Map(pairs(vec![("x1", Value::Map(pairs(vec![("match", Value::Map(pairs(vec![("if", Value::List(vec![Value::Bool(true)]))])))]))), ("name", Value::Map(pairs(vec![("fn", s(match x.o { Some(_) => "some", _ => "none" }))])))]))) },
    |x| { let _ = x; (upon::value! { a: &x.t, _p: ['c'], _p: {None_: {self_: i64::MIN, name: [0]},}, }, Value::Map(pairs(vec![("a", s(x.t.as_str())), ("_p", Value::List(vec![s("c")])), ("_p", Value::Map(pairs(vec![("None_", Value::Map(pairs(vec![("self_", Value::Integer(i64::MIN)), ("name", Value::List(vec![Value::Integer(0)]))])))])))]))) },
    |x| { let _ = x; (upon::value! { match: [], true_: {Key: true, Key: [['c'], Some(&x.t), f32::MAX, (1, "two"), [],], x1: &&x.i,}, }, Value::Map(pairs(vec![("match", Value::List(vec![])), ("true_", Value::Map(pairs(vec![("Key", Value::Bool(true)), ("Key", Value::List(vec![Value::List(vec![s("c")]), s(x.t.as_str()), Value::Float(f32::MAX as f64), Value::List(vec![Value::Integer(1), s("two")]), Value::List(vec![])])), ("x1", Value::Integer(x.i))])))]))) },
    |x| { let _ = x; (upon::value! { b: {name: {match: !false, None_: [Some(&x.t), None,],}}, été: {type: [{b: &x.t, _p: x.t.as_str(), self_: Some(&x.t), _p: -0.0,},], match: Some(&x.t)}, Key: [{if: upon::value! { q: [x.i] },},], Key: 1.5, été: {b: [[], Some(5), [],], None_: 0, if: [match x.o { Some(_) => "some", _ => "none" }, ['c', x.l.iter().map(|b| *b as i64).sum::<i64>(), i64::MIN, -0.0, f32::MAX],]} }, Value::Map(pairs(vec![("b", Value::Map(pairs(vec![("name", Value::Map(pairs(vec![("match", Value::Bool(true)), ("None_", Value::List(vec![s(x.t.as_str()), Value::None]))])))]))), ("été", Value::Map(pairs(vec![("type", Value::List(vec![Value::Map(pairs(vec![("b", s(x.t.as_str())), ("_p", s(x.t.as_str())), ("self_", s(x.t.as_str())), ("_p", Value::Float(-0.0))]))])), ("match", s(x.t.as_str()))]))), ("Key", Value::List(vec![Value::Map(pairs(vec![("if", map([("q", Value::List(vec![Value::Integer(x.i)]))]))]))])), ("Key", Value::Float(1.5)), ("été", Value::Map(pairs(vec![("b", Value::List(vec![Value::List(vec![]), Value::Integer(5), Value::List(vec![])])), ("None_", Value::Integer(0)), ("if", Value::List(vec![s(match x.o { Some(_) => "some", _ => "none" }), Value::List(vec![s("c"), Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()), Value::Integer(i64::MIN), Value::Float(-0.0), Value::Float(f32::MAX as f64)])]))])))]))) },
    |x| { let _ = x; (upon::value! { été: 1 + 2 }, Value::Map(pairs(vec![("été", Value::Integer(3))]))) },
    |x| { let _ = x; (upon::value! { type: "", loop: x.l.iter().map(|b| *b as i64).sum::<i64>(), Key: {if: {type: 1.5, x1: (1, "two"), type: (), match: x.t.as_str()}, name: {self_: upon::value! { q: [x.i] }, Key: x.o}, name: true} }, Value::Map(pairs(vec![("type", s("")), ("loop", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("Key", Value::Map(pairs(vec![("if", Value::Map(pairs(vec![("type", Value::Float(1.5)), ("x1", Value::List(vec![Value::Integer(1), s("two")])), ("type", Value::None), ("match", s(x.t.as_str()))]))), ("name", Value::Map(pairs(vec![("self_", map([("q", Value::List(vec![Value::Integer(x.i)]))])), ("Key", x.o.map_or(Value::None, |o| Value::Integer(o as i64)))]))), ("name", Value::Bool(true))])))]))) },
    |x| { let _ = x; (upon::value! { None_: -0.0, loop: !false, }, Value::Map(pairs(vec![("None_", Value::Float(-0.0)), ("loop", Value::Bool(true))]))) },
    |x| { let _ = x; (upon::value! { fn: (1, "two"), true_: None, }, Value::Map(pairs(vec![("fn", Value::List(vec![Value::Integer(1), s("two")])), ("true_", Value::None)]))) },
    |x| { let _ = x; (upon::value! { Key: 0, fn: {_p: Some(5), self_: None, fn: vec![1, 2],}, None_: x.i, None_: x.l.iter().map(|b| *b as i64).sum::<i64>(), name: "", }, Value::Map(pairs(vec![("Key", Value::Integer(0)), ("fn", Value::Map(pairs(vec![("_p", Value::Integer(5)), ("self_", Value::None), ("fn", Value::List(vec![Value::Integer(1), Value::Integer(2)]))]))), ("None_", Value::Integer(x.i)), ("None_", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("name", s(""))]))) },
    |x| { let _ = x; (upon::value! { x1: (), type: {match: x.l.iter().map(|b| *b as i64).sum::<i64>(),}, type: {if: ["text", {None_: -7, match: false},], true_: match x.o { Some(_) => "some", _ => "none" }, match: vec![1, 2], loop: {type: [&x.l, i64::MIN, ""], _p: true},}, None_: -0.0, loop: [-7,] }, Value::Map(pairs(vec![("x1", Value::None), ("type", Value::Map(pairs(vec![("match", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>()))]))), ("type", Value::Map(pairs(vec![("if", Value::List(vec![s("text"), Value::Map(pairs(vec![("None_", Value::Integer(-7)), ("match", Value::Bool(false))]))])), ("true_", s(match x.o { Some(_) => "some", _ => "none" })), ("match", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("loop", Value::Map(pairs(vec![("type", Value::List(vec![bytes(&x.l), Value::Integer(i64::MIN), s("")])), ("_p", Value::Bool(true))])))]))), ("None_", Value::Float(-0.0)), ("loop", Value::List(vec![Value::Integer(-7)]))]))) },
    |x| { let _ = x; (upon::value! { fn: {fn: {a: match x.o { Some(_) => "some", _ => "none" }, a: x.i == x.i}, type: {Key: false, type: false}, x1: [None], match: {Key: x.f, été: "", x1: false,}}, None_: {self_: 'c'}, été: 1.5, }, Value::Map(pairs(vec![("fn", Value::Map(pairs(vec![("fn", Value::Map(pairs(vec![("a", s(match x.o { Some(_) => "some", _ => "none" })), ("a", Value::Bool(true))]))), ("type", Value::Map(pairs(vec![("Key", Value::Bool(false)), ("type", Value::Bool(false))]))), ("x1", Value::List(vec![Value::None])), ("match", Value::Map(pairs(vec![("Key", Value::Float(x.f)), ("été", s("")), ("x1", Value::Bool(false))])))]))), ("None_", Value::Map(pairs(vec![("self_", s("c"))]))), ("été", Value::Float(1.5))]))) },
    |x| { let _ = x; (upon::value! { type: &x.t }, Value::Map(pairs(vec![("type", s(x.t.as_str()))]))) },
    |x| { let _ = x; (upon::value! { match: [], if: {None_: [[None, true, {x1: "", loop: match x.o { Some(_) => "some", _ => "none" },}, [Some(&x.t),], f32::MAX,], &x.l, (1, "two"), match x.o { Some(_) => "some", _ => "none" }, [x.i == x.i, {Key: &x.v, _p: vec![1, 2], name: upon::value! { q: [x.i] }, match: x.t.as_str(),}, x.v.clone(), {a: None, None_: x.o, fn: x.l.len() as u16,}, None],], fn: i64::MIN, b: {x1: [[x.l.len() as u16,], {a: -7, été: x.t.as_str(),},], None_: {Key: "", self_: x.l.iter().map(|b| *b as i64).sum::<i64>(), self_: &x.t, a: [None, f32::MAX, -7, vec![1, 2], &x.t,]}, b: x.l.len() as u16,}}, été: [true, [{type: i64::MIN, b: &x.v,}, {true_: f32::MAX,}, x.o, true, {b: [None, None, x.v.clone(), true, 0,], type: ['c', None, &&x.i, x.o, x.i], self_: (), type: match x.o { Some(_) => "some", _ => "none" }},], -0.0, {a: "",}, x.l.len() as u16,], type: x.v.clone(), if: None, }, Value::Map(pairs(vec![("match", Value::List(vec![])), ("if", Value::Map(pairs(vec![("None_", Value::List(vec![Value::List(vec![Value::None, Value::Bool(true), Value::Map(pairs(vec![("x1", s("")), ("loop", s(match x.o { Some(_) => "some", _ => "none" }))])), Value::List(vec![s(x.t.as_str())]), Value::Float(f32::MAX as f64)]), bytes(&x.l), Value::List(vec![Value::Integer(1), s("two")]), s(match x.o { Some(_) => "some", _ => "none" }), Value::List(vec![Value::Bool(true), Value::Map(pairs(vec![("Key", x.v.clone()), ("_p", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("name", map([("q", Value::List(vec![Value::Integer(x.i)]))])), ("match", s(x.t.as_str()))])), x.v.clone(), Value::Map(pairs(vec![("a", Value::None), ("None_", x.o.map_or(Value::None, |o| Value::Integer(o as i64))), ("fn", Value::Integer(x.l.len() as i64))])), Value::None])])), ("fn", Value::Integer(i64::MIN)), ("b", Value::Map(pairs(vec![("x1", Value::List(vec![Value::List(vec![Value::Integer(x.l.len() as i64)]), Value::Map(pairs(vec![("a", Value::Integer(-7)), ("été", s(x.t.as_str()))]))])), ("None_", Value::Map(pairs(vec![("Key", s("")), ("self_", Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())), ("self_", s(x.t.as_str())), ("a", Value::List(vec![Value::None, Value::Float(f32::MAX as f64), Value::Integer(-7), Value::List(vec![Value::Integer(1), Value::Integer(2)]), s(x.t.as_str())]))]))), ("b", Value::Integer(x.l.len() as i64))])))]))), ("été", Value::List(vec![Value::Bool(true), Value::List(vec![Value::Map(pairs(vec![("type", Value::Integer(i64::MIN)), ("b", x.v.clone())])), Value::Map(pairs(vec![("true_", Value::Float(f32::MAX as f64))])), x.o.map_or(Value::None, |o| Value::Integer(o as i64)), Value::Bool(true), Value::Map(pairs(vec![("b", Value::List(vec![Value::None, Value::None, x.v.clone(), Value::Bool(true), Value::Integer(0)])), ("type", Value::List(vec![s("c"), Value::None, Value::Integer(x.i), x.o.map_or(Value::None, |o| Value::Integer(o as i64)), Value::Integer(x.i)])), ("self_", Value::None), ("type", s(match x.o { Some(_) => "some", _ => "none" }))]))]), Value::Float(-0.0), Value::Map(pairs(vec![("a", s(""))])), Value::Integer(x.l.len() as i64)])), ("type", x.v.clone()), ("if", Value::None)]))) },
    |x| { let _ = x; (upon::value! { fn: 'c', }, Value::Map(pairs(vec![("fn", s("c"))]))) },
    |x| { let _ = x; (upon::value! { _p: {match: match x.o { Some(_) => "some", _ => "none" },}, name: [1.5, &x.t, Some(5),], }, Value::Map(pairs(vec![("_p", Value::Map(pairs(vec![("match", s(match x.o { Some(_) => "some", _ => "none" }))]))), ("name", Value::List(vec![Value::Float(1.5), s(x.t.as_str()), Value::Integer(5)]))]))) },
    |x| { let _ = x; (upon::value! { loop: 'c' }, Value::Map(pairs(vec![("loop", s("c"))]))) },
    |x| { let _ = x; (upon::value! { _p: [{self_: Some(5), type: [None, {loop: Some(&x.t),}, 0, {}, {type: 0, été: x.i == x.i, été: true, true_: x.f},]}, if x.l.is_empty() { 1 } else { 2 }, &x.v,], }, Value::Map(pairs(vec![("_p", Value::List(vec![Value::Map(pairs(vec![("self_", Value::Integer(5)), ("type", Value::List(vec![Value::None, Value::Map(pairs(vec![("loop", s(x.t.as_str()))])), Value::Integer(0), Value::Map(pairs(vec![])), Value::Map(pairs(vec![("type", Value::Integer(0)), ("été", Value::Bool(true)), ("été", Value::Bool(true)), ("true_", Value::Float(x.f))]))]))])), Value::Integer(if x.l.is_empty() { 1 } else { 2 }), x.v.clone()]))]))) },
    |x| { let _ = x; (upon::value! { x1: 1.5, }, Value::Map(pairs(vec![("x1", Value::Float(1.5))]))) },
    |x| { let _ = x; (upon::value! { if: [x.i == x.i], name: 1 + 2, }, Value::Map(pairs(vec![("if", Value::List(vec![Value::Bool(true)])), ("name", Value::Integer(3))]))) },
];
