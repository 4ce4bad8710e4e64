#!/usr/bin/env python3
"""Writes harness/src/props/macros.rs: forms of upon::value! next to the value written down by hand."""
import os, random
R = random.Random(20240607)
KEYS = ["a", "b", "name", "type", "if", "loop", "x1", "_p", "self_", "None_", "true_", "match", "été", "Key", "fn"]
LEAVES = [
    ("None", "Value::None"), ("None", "Value::None"), ("true", "Value::Bool(true)"), ("false", "Value::Bool(false)"),
    ("0", "Value::Integer(0)"), ("-7", "Value::Integer(-7)"), ("i64::MIN", "Value::Integer(i64::MIN)"), ("1.5", "Value::Float(1.5)"),
    ("-0.0", "Value::Float(-0.0)"), ('"text"', 's("text")'), ('""', 's("")'), ("'c'", 's("c")'), ("()", "Value::None"),
    ("x.i", "Value::Integer(x.i)"), ("x.f", "Value::Float(x.f)"), ("&x.t", "s(x.t.as_str())"), ("x.t.as_str()", "s(x.t.as_str())"),
    ("x.o", "x.o.map_or(Value::None, |o| Value::Integer(o as i64))"), ("&x.l", "bytes(&x.l)"), ("x.l.len() as u16", "Value::Integer(x.l.len() as i64)"),
    ("&x.v", "x.v.clone()"), ("x.v.clone()", "x.v.clone()"), ("1 + 2", "Value::Integer(3)"), ("!false", "Value::Bool(true)"),
    ("x.i == x.i", "Value::Bool(true)"), ("vec![1, 2]", "Value::List(vec![Value::Integer(1), Value::Integer(2)])"),
    ("Some(5)", "Value::Integer(5)"), ("(1, \"two\")", 'Value::List(vec![Value::Integer(1), s("two")])'), ("Some(&x.t)", "s(x.t.as_str())"),
    ("u64::MAX / 2", "Value::Integer((u64::MAX / 2) as i64)"), ("{ let y = x.i; y }", None), ("if x.l.is_empty() { 1 } else { 2 }", "Value::Integer(if x.l.is_empty() { 1 } else { 2 })"),
    ("match x.o { Some(_) => \"some\", _ => \"none\" }", 's(match x.o { Some(_) => "some", _ => "none" })'), ("upon::value! { q: [x.i] }", 'map([("q", Value::List(vec![Value::Integer(x.i)]))])'),
    ("f32::MAX", "Value::Float(f32::MAX as f64)"), ("std::borrow::Cow::Borrowed(\"cow\")", 's("cow")'), ("&&x.i", "Value::Integer(x.i)"),
    ("x.l.iter().map(|b| *b as i64).sum::<i64>()", "Value::Integer(x.l.iter().map(|b| *b as i64).sum::<i64>())"),
]
LEAVES = [l for l in LEAVES if l[1]]

def item(d):
    k = R.random()
    if d == 0 or k < .5:
        return R.choice(LEAVES)
    return lst(d - 1) if k < .75 else mp(d - 1)

def lst(d):
    n = R.choice([0, 1, 1, 2, 3, 5])
    xs = [item(d) for _ in range(n)]
    t = "," if xs and R.random() < .5 else ""
    return "[" + ", ".join(x[0] for x in xs) + t + "]", "Value::List(vec![" + ", ".join(x[1] for x in xs) + "])"

def entries(d, n):
    ks = [R.choice(KEYS) for _ in range(n)]
    xs = [item(d) for _ in range(n)]
    t = "," if xs and R.random() < .5 else ""
    src = ", ".join(f"{k}: {x[0]}" for k, x in zip(ks, xs)) + t
    val = "Value::Map(pairs(vec![" + ", ".join(f'("{k}", {x[1]})' for k, x in zip(ks, xs)) + "]))"
    return src, val

def mp(d):
    src, val = entries(d, R.choice([0, 1, 1, 2, 3, 4]))
    return "{" + src + "}", val

forms = [("", "Value::Map(pairs(vec![]))")]
forms += [(f"a: {l}", f'Value::Map(pairs(vec![("a", {v})]))') for l, v in LEAVES]
forms += [(f"a: {l},", f'Value::Map(pairs(vec![("a", {v})]))') for l, v in LEAVES[:8]]
forms += [(f"a: [{l}], b: [1, {l}, ]", f'Value::Map(pairs(vec![("a", Value::List(vec![{v}])), ("b", Value::List(vec![Value::Integer(1), {v}]))]))') for l, v in LEAVES]
# Every small nesting.
E = [("None", "Value::None"), ("[]", "Value::List(vec![])"), ("{}", "Value::Map(pairs(vec![]))"), ("1", "Value::Integer(1)"), ("x.i", "Value::Integer(x.i)")]
L = lambda *xs: ("[" + ", ".join(x[0] for x in xs) + "]", "Value::List(vec![" + ", ".join(x[1] for x in xs) + "])")
M = lambda x: ("{k: " + x[0] + "}", 'Value::Map(pairs(vec![("k", ' + x[1] + ")]))")
inner = E + [L(a) for a in E] + [L(a, b) for a in E for b in E] + [M(a) for a in E]
for i in inner:
    for o in [i, L(i), L(i, E[0]), L(E[0], i), L(i, i), M(i), L(L(i)), M(M(i)), L(M(i)), M(L(i))]:
        forms.append((f"a: {o[0]}", f'Value::Map(pairs(vec![("a", {o[1]})]))'))
    forms.append((f"a: {i[0]}, b: {i[0]},", f'Value::Map(pairs(vec![("a", {i[1]}), ("b", {i[1]})]))'))
for _ in range(120):
    forms.append(entries(R.choice([1, 2, 3, 4]), R.choice([1, 2, 3, 5])))
out = ["// Written by tools/genmacros.py.", "#![allow(clippy::all)]", "use super::data::Leaves;", "use crate::val::{map, s, Map, Value};", "",
       "fn pairs(l: Vec<(&str, Value)>) -> Map {", "    let mut m = Map::new();", "    for (k, v) in l {", "        m.insert(k.to_string(), v);", "    }", "    m", "}", "",
       "fn bytes(l: &[u8]) -> Value {", "    Value::List(l.iter().map(|b| Value::Integer(*b as i64)).collect())", "}", "", "#[rustfmt::skip]", "pub const FORMS: &[fn(&Leaves) -> (Value, Value)] = &["]
for src, val in forms:
    out.append(f"    |x| {{ let _ = x; (upon::value! {{ {src} }}, {val}) }},")
out.append("];")
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "props", "macros.rs")
open(path, "w").write("\n".join(out) + "\n")
print(len(forms))
