#!/usr/bin/env python3
"""Writes harness/src/shapes.rs: one recording function per supported filter shape."""
import itertools, os
P = [("Value", "o"), ("&str", "s"), ("&[Value]", "l"), ("&Map", "m"), ("&Value", "v")]
RET = ["Value", "Result<Value, String>", "Option<Value>", "Result<Option<Value>, String>", "Vec<Value>"]
out = ["// Written by tools/genshapes.py.",
       "use super::functions::{shape, Shape};",
       "use crate::val::{Map, Value};",
       "#[rustfmt::skip]", "pub const SHAPES: &[Shape] = &["]
regs = []
i = 0
for p, pc in P:
    for n in range(5):
        for mask in itertools.product("os", repeat=n):
            code = pc + "".join(mask)
            ret = RET[i % len(RET)]
            kind = ["P", "R", "O", "RO", "V"][i % len(RET)]
            names = "abcd"[:n]
            params = ", ".join(["v: " + p] + [f"{a}: " + ("Value" if m == "o" else "&str") for a, m in zip(names, mask)])
            vals = ", ".join(["v.to_v()"] + [f"{a}.to_v()" for a in names])
            body = {"P": "x", "R": "Ok(x)", "O": "Some(x)", "RO": "Ok(Some(x))", "V": "vec![x]"}[kind]
            out.append(f'    Shape {{ code: "{code}", ret: "{kind}" }},')
            call = f"shape({i}, vec![{vals}])"
            if kind in ("R", "RO"):
                expr = f"{call}.map(|x| {'x' if kind == 'R' else 'Some(x)'})"
            else:
                expr = "{ let x = %s.unwrap_or_else(Value::String); %s }" % (call, body)
            regs.append(f'    e.add_filter("s{i}", |{params}| -> {ret} {{ {expr} }});')
            i += 1
assert i == 155
out.append("];")
out.append("#[rustfmt::skip]")
out.append("pub fn register(e: &mut upon::Engine<'_>) {")
out.append("    use crate::funcs::ToV;")
out += regs
out.append("}")
# Parameter types in every position.
T = [("Unit", "()"), ("Bool", "bool")] + [(t.capitalize(), t) for t in "i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64".split()]
T += [("Str", "String"), ("StrRef", "&str"), ("List", "Vec<Value>"), ("ListRef", "&[Value]"), ("Map", "Map"), ("MapRef", "&Map"), ("Val", "Value"), ("ValRef", "&Value")]
out.append("/// Functions for every parameter type in every position: type, position (0 is piped), arity.")
out.append("#[rustfmt::skip]")
out.append("pub fn register_types(e: &mut upon::Engine<'_>) {")
out.append("    use crate::funcs::ToV;")
out.append("    use super::functions::typed;")
n = 0
for name, t in T:
    for arity in range(5):
        for pos in range(arity + 1):
            if pos > 0 and name in ("ListRef", "MapRef", "ValRef"):
                continue
            params = ", ".join(f"{'vabcd'[k]}: " + (t if k == pos else "Value") for k in range(arity + 1))
            vals = ", ".join(f"{'vabcd'[k]}.to_v()" for k in range(arity + 1))
            out.append(f'    e.add_filter("t_{name}_{pos}_{arity}", |{params}| -> Result<Value, String> {{ typed(vec![{vals}]) }});')
            n += 1
out.append("}")
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "props", "shapes.rs")
open(path, "w").write("\n".join(out) + "\n")
print(i, n)
