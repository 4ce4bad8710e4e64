//! C16, C17: what registered functions receive.

use crate::check::{Ctx, Prop};
use crate::funcs::{self, Cb, Ty};
use crate::gen;
use crate::model::eval::{convert, CtxMode, Kind};
use crate::obs::{self, check_loc, RenderHow, Res, RootRef};
use crate::rng::Rng;
use crate::val::{dump, map, s, Map, Value};
use std::collections::BTreeMap;

pub struct Shape {
    /// Piped parameter, then the arguments: `o`wned, `s`tring, `l`ist, `m`ap, `v`alue reference.
    pub code: &'static str,
    /// Plain, result, option, result of an option, vector.
    pub ret: &'static str,
}

/// Called by every shape.
pub fn shape(i: usize, args: Vec<Value>) -> Result<Value, String> {
    match funcs::enter_real(event(&format!("s{i}"), &args)) {
        Some(msg) => Err(msg),
        None => Ok(Value::List(args)),
    }
}

/// Called by every typed function.
pub fn typed(args: Vec<Value>) -> Result<Value, String> {
    match funcs::enter_real(event("t", &args)) {
        Some(msg) => Err(msg),
        None => Ok(Value::List(args)),
    }
}

fn event(name: &str, args: &[Value]) -> String {
    funcs::filter_event(name, args)
}

// ---------------------------------------------------------------------------
// Reaching a value from a template
// ---------------------------------------------------------------------------

/// A template under construction, with what is known about it.
struct Site<'a> {
    r: &'a mut Rng,
    data: Map,
    open: String,
    close: Vec<&'static str>,
    n: usize,
    events: Vec<String>,
    mode: CtxMode,
}

/// An expression that has a value. `computed`: not reachable by reference.
struct At {
    text: String,
    computed: bool,
    literal: bool,
    /// Events of evaluating it, at the place where it is used.
    late: Vec<String>,
    how: &'static str,
}

impl Site<'_> {
    fn seen(&self, path: &str) -> Option<String> {
        (self.mode == CtxMode::Fn).then(|| format!("V {path}"))
    }

    /// Makes the value reachable; blocks are opened before the site.
    fn put(&mut self, v: &Value, only_ref: bool) -> At {
        self.n += 1;
        let n = self.n;
        let var = format!("x{n}");
        let lit = gen::literal(self.r, v);
        loop {
            let at = |text: String, computed, late: Vec<String>, how| At { text, computed, literal: false, late, how };
            let byfn = self.mode == CtxMode::Fn;
            match self.r.below(11) {
                0 | 1 => {
                    if let Some(l) = lit {
                        return At { text: l, computed: false, literal: true, late: vec![], how: "literal" };
                    }
                    continue;
                }
                2 | 3 => {
                    if only_ref && byfn {
                        continue;
                    }
                    self.data.insert(var.clone(), v.clone());
                    let late = self.seen(&var).into_iter().collect();
                    return at(var, byfn, late, "variable");
                }
                4 => {
                    if only_ref && byfn {
                        continue;
                    }
                    self.data.insert(var.clone(), map([("k", Value::List(vec![Value::None, v.clone()]))]));
                    let text = format!("{var}.k.1");
                    let late = self.seen(&format!("{var}.k.#1")).into_iter().collect();
                    return at(text, byfn, late, "path");
                }
                5 => {
                    if only_ref && byfn {
                        continue;
                    }
                    // Element of a list.
                    self.data.insert(var.clone(), Value::List(vec![v.clone()]));
                    let e = self.seen(&var);
                    self.events.extend(e);
                    self.open.push_str(&format!("{{% for y{n} in {var} %}}"));
                    self.close.push("{% endfor %}");
                    return at(format!("y{n}"), byfn, vec![], "loop variable");
                }
                6 => {
                    if only_ref && byfn {
                        continue;
                    }
                    // Bound.
                    self.data.insert(var.clone(), v.clone());
                    let e = self.seen(&var);
                    self.events.extend(e);
                    self.open.push_str(&format!("{{% with {var} as y{n} %}}"));
                    self.close.push("{% endwith %}");
                    return at(format!("y{n}"), byfn, vec![], "bound variable");
                }
                7 if !only_ref => {
                    // Bound result of a filter.
                    self.data.insert(var.clone(), v.clone());
                    let e = self.seen(&var);
                    self.events.extend(e);
                    self.events.push(event("id", &[v.clone()]));
                    self.open.push_str(&format!("{{% with {var} | id as y{n} %}}"));
                    self.close.push("{% endwith %}");
                    return at(format!("y{n}"), true, vec![], "bound result");
                }
                8 if !only_ref => {
                    // Element of a computed list.
                    self.data.insert(var.clone(), Value::List(vec![v.clone()]));
                    let e = self.seen(&var);
                    self.events.extend(e);
                    self.events.push(event("id", &[Value::List(vec![v.clone()])]));
                    self.open.push_str(&format!("{{% for y{n} in {var} | id %}}"));
                    self.close.push("{% endfor %}");
                    return at(format!("y{n}"), true, vec![], "loop variable over a result");
                }
                9 if !only_ref => {
                    if let Value::String(k) = v {
                        // Key of a map.
                        let m = Value::Map(Map::from([(k.clone(), Value::None)]));
                        self.data.insert(var.clone(), m);
                        let e = self.seen(&var);
                        self.events.extend(e);
                        self.open.push_str(&format!("{{% for y{n}, z{n} in {var} %}}"));
                        self.close.push("{% endfor %}");
                        return at(format!("y{n}"), true, vec![], "map key");
                    }
                    continue;
                }
                10 => {
                    if only_ref && byfn {
                        continue;
                    }
                    // Value of a map.
                    self.data.insert(var.clone(), Value::Map(Map::from([("k".to_string(), v.clone())])));
                    let e = self.seen(&var);
                    self.events.extend(e);
                    self.open.push_str(&format!("{{% for z{n}, y{n} in {var} %}}"));
                    self.close.push("{% endfor %}");
                    return at(format!("y{n}"), byfn, vec![], "map value");
                }
                _ => continue,
            }
        }
    }
}

struct Engines {
    shapes: upon::Engine<'static>,
    types: upon::Engine<'static>,
}

thread_local! {
    static ENGINES: Engines = engines();
}

#[cfg(feature = "shapes")]
fn engines() -> Engines {
    let mk = || {
        let mut e = upon::Engine::new();
        for (n, f) in funcs::library() {
            funcs::register(&mut e, &n, f);
        }
        e
    };
    let (mut shapes, mut types) = (mk(), mk());
    super::shapes::register(&mut shapes);
    super::shapes::register_types(&mut types);
    Engines { shapes, types }
}

#[cfg(not(feature = "shapes"))]
fn engines() -> Engines {
    panic!("built without the feature `shapes`")
}

#[cfg(feature = "shapes")]
use super::shapes::SHAPES;
#[cfg(not(feature = "shapes"))]
const SHAPES: &[Shape] = &[];

fn render(e: &upon::Engine<'static>, mode: CtxMode, src: &str, data: &Value, cb: Cb) -> Result<(Res, Option<String>, Cb), String> {
    let (r, t) = obs::res(obs::guard(|| e.compile(src.to_string())));
    let Some(t) = t else { return Err(format!("does not compile: {}\n  source: {src:?}", r.brief())) };
    let how = RenderHow { mode, resolver: false, writer: false, depth: None };
    Ok(obs::render_with(e, &BTreeMap::new(), RootRef::Tpl(&t), how, cb, data))
}

const MODES: &[CtxMode] = &[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn];

fn of_kind(r: &mut Rng, c: char) -> Value {
    match c {
        's' => s(gen::string(r)),
        'l' => Value::List((0..r.below(4)).map(|_| gen::value(r, 1)).collect()),
        'm' => Value::Map((0..r.below(4)).map(|_| (gen::key(r), gen::value(r, 1))).collect()),
        _ => gen::value(r, 2),
    }
}

fn gap(r: &mut Rng) -> &'static str {
    r.pick(&["", "", "", " ", "  ", "\t"])
}

fn spaced(r: &mut Rng) -> &'static str {
    r.pick(&[" ", " ", " ", "  ", "\t"])
}

// ---------------------------------------------------------------------------
// C16
// ---------------------------------------------------------------------------

fn c16(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let i = ctx.idx as usize % SHAPES.len();
    let sh = &SHAPES[i];
    let mode = *rng.pick(MODES);
    let mut site = Site { r: &mut rng, data: Map::new(), open: String::new(), close: vec![], n: 0, events: vec![], mode };
    let mut codes = sh.code.chars();
    let pc = codes.next().unwrap();
    let codes: Vec<char> = codes.collect();
    // The piped value.
    let v = of_kind(site.r, pc);
    let p = site.put(&v, false);
    let piped_literal = p.literal;
    let mut late = p.late.clone();
    let mut text = p.text.clone();
    if site.r.pct(25) {
        let f = *site.r.pick(&["id", "idr"]);
        text.push_str(&format!(" | {f}"));
        late.push(event(f, &[v.clone()]));
    }
    let mut vals = vec![v.clone()];
    let mut args = vec![];
    let mut hows = vec![p.how];
    let mut again: Vec<(String, Value)> = if p.literal { vec![] } else { vec![(p.text.clone(), v.clone())] };
    for c in &codes {
        let a = if site.r.one_in(8) && !again.is_empty() && *c == 'o' {
            // The same variable in two places.
            let (t, v) = site.r.pick(&again).clone();
            let late_a: Vec<String> = if mode == CtxMode::Fn && t.starts_with('x') {
                vec![format!("V {}", t.replace(".1", ".#1"))]
            } else {
                vec![]
            };
            late.extend(late_a);
            args.push(t);
            vals.push(v);
            hows.push("variable used before");
            continue;
        } else {
            let v = of_kind(site.r, *c);
            let a = site.put(&v, *c == 's');
            vals.push(v);
            a
        };
        late.extend(a.late);
        hows.push(a.how);
        if !a.literal {
            again.push((a.text.clone(), vals.last().unwrap().clone()));
        }
        args.push(a.text);
    }
    let mut call = format!("{text}{}|{}s{i}", spaced(site.r), gap(site.r));
    if !args.is_empty() {
        call.push_str(gap(site.r));
        call.push(':');
        for (k, a) in args.iter().enumerate() {
            if k > 0 {
                call.push_str(gap(site.r));
                call.push(',');
            }
            call.push_str(gap(site.r));
            call.push_str(a);
        }
    }
    let list = Value::List(vals.clone());
    let result = if sh.ret == "V" { Value::List(vec![list]) } else { list };
    // What is done with the result.
    let mut body = String::new();
    let mut events = site.events.clone();
    events.extend(late);
    events.push(event(&format!("s{i}"), &vals));
    let before = events.len() - 1;
    let mut out = String::new();
    let used = site.r.below(5);
    match used {
        0 => {
            body.push_str(&format!("{{{{ {call} | dump }}}}"));
            events.push(format!("M dump {}", dump(&result)));
            out.push_str(&dump(&result));
        }
        1 => {
            body.push_str(&format!("{{{{ {call} | id | dump }}}}"));
            events.push(event("id", &[result.clone()]));
            events.push(format!("M dump {}", dump(&result)));
            out.push_str(&dump(&result));
        }
        2 => {
            body.push_str(&format!("{{% with {call} as w %}}{{{{ w | dump }}}}{{% endwith %}}"));
            events.push(format!("M dump {}", dump(&result)));
            out.push_str(&dump(&result));
        }
        3 => {
            body.push_str(&format!("{{% for w in {call} %}}{{{{ w | dump }}}}{{% endfor %}}"));
            let Value::List(l) = &result else { unreachable!() };
            for x in l {
                events.push(format!("M dump {}", dump(x)));
                out.push_str(&dump(x));
            }
        }
        _ => {
            body.push_str(&format!("{{% if {call} %}}yes{{% else %}}no{{% endif %}}"));
            out.push_str("yes");
        }
    }
    // The originals are as they were.
    for (t, v) in &again {
        body.push_str(&format!("{{{{ {t} | dump }}}}"));
        if mode == CtxMode::Fn && t.starts_with('x') {
            events.push(format!("V {}", t.replace(".1", ".#1")));
        }
        events.push(format!("M dump {}", dump(v)));
        out.push_str(&dump(v));
    }
    let close: String = site.close.iter().rev().copied().collect();
    let src = format!("{}{body}{close}", site.open);
    let data = Value::Map(site.data.clone());
    let desc = || format!("  shape {:?} returning {}\n  source: {src:?}\n  data:   {}\n  mode:   {mode:?}", sh.code, sh.ret, dump(&data));
    if ctx.verbose {
        println!("{}", desc());
    }
    let (res, got, cb) = ENGINES.with(|e| render(&e.shapes, mode, &src, &data, Cb::default())).map_err(|m| format!("{m}\n{}", desc()))?;
    if !res.ok() {
        return Err(format!("failed: {}\n{}", res.brief(), desc()));
    }
    if cb.trace != events {
        let k = cb.trace.iter().zip(&events).take_while(|(a, b)| a == b).count();
        return Err(format!("calls differ at event {k}: expected {:?}, observed {:?}\n{}", events.get(k), cb.trace.get(k), desc()));
    }
    if got.as_deref() != Some(&out) {
        return Err(format!("{}\n{}", obs::diff(&out, got.as_deref().unwrap_or("")), desc()));
    }
    if !crate::val::same(&data, &Value::Map(site.data.clone())) {
        return Err(format!("the data changed\n{}", desc()));
    }
    ctx.count("calls compared");
    ctx.count(&format!("shape {}", sh.code));
    for h in hows {
        ctx.count(&format!("value from a {h}"));
    }
    // A fallible function that fails.
    if sh.ret.starts_with('R') && ctx.rng.pct(30) {
        // Its position among all callbacks.
        let (res, got, cb) = ENGINES.with(|e| render(&e.shapes, mode, &src, &data, Cb { fail_at: Some(before), ..Default::default() }))?;
        let want = funcs::injected(&events[before], before);
        match &res {
            Res::Err(e) if e.kind == Some(Kind::Filter) && e.reason.as_deref() == Some(&want) => {}
            r => return Err(format!("the function failed with {want:?}, observed {} {got:?}\n{}", r.brief(), desc())),
        }
        if cb.trace != events[..=before] {
            return Err(format!("callbacks around a failing function: {:?}, expected {:?}\n{}", cb.trace, &events[..=before], desc()));
        }
        ctx.count("failing functions");
    }
    ctx.case(&format!("{i}{src}{}", dump(&data)), true);
    if piped_literal {
        ctx.count("literal piped");
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C17
// ---------------------------------------------------------------------------

const TYPES: &[(&str, Ty)] = &[
    ("Unit", Ty::Unit),
    ("Bool", Ty::Bool),
    ("I8", Ty::I8),
    ("I16", Ty::I16),
    ("I32", Ty::I32),
    ("I64", Ty::I64),
    ("I128", Ty::I128),
    ("Isize", Ty::Isize),
    ("U8", Ty::U8),
    ("U16", Ty::U16),
    ("U32", Ty::U32),
    ("U64", Ty::U64),
    ("U128", Ty::U128),
    ("Usize", Ty::Usize),
    ("F32", Ty::F32),
    ("F64", Ty::F64),
    ("Str", Ty::Str),
    ("StrRef", Ty::StrRef),
    ("List", Ty::List),
    ("ListRef", Ty::ListRef),
    ("Map", Ty::Map),
    ("MapRef", Ty::MapRef),
    ("Val", Ty::Val),
    ("ValRef", Ty::ValRef),
];

fn edge(r: &mut Rng) -> i64 {
    let p = *r.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 0]);
    let base: i128 = 1i128 << p;
    let x = base * *r.pick(&[1, 1, -1]) + *r.pick(&[0, -1, 1, -2, 2]);
    x.clamp(i64::MIN as i128, i64::MAX as i128) as i64
}

fn candidate(r: &mut Rng, ty: Ty) -> Value {
    // Mostly the kind the type wants.
    let kind = match ty {
        Ty::Unit => 0,
        Ty::Bool => 1,
        Ty::F32 | Ty::F64 => 3,
        Ty::Str | Ty::StrRef => 4,
        Ty::List | Ty::ListRef => 5,
        Ty::Map | Ty::MapRef => 6,
        Ty::Val | Ty::ValRef => r.below(7),
        _ => 2,
    };
    match if r.pct(70) { kind } else { r.below(7) } {
        0 => Value::None,
        1 => Value::Bool(r.bool()),
        2 => Value::Integer(match r.below(4) {
            0 => gen::int(r),
            1 => r.range(0, 255) as i64 * *r.pick(&[1, -1]),
            _ => edge(r),
        }),
        3 => Value::Float(if r.bool() { edge(r) as f64 } else { gen::float(r) }),
        4 => match r.below(4) {
            0 => s(edge(r).to_string()),
            1 => s(*r.pick(&["true", "", "1.0", "()", "none"])),
            _ => s(gen::string(r)),
        },
        5 => of_kind(r, 'l'),
        _ => of_kind(r, 'm'),
    }
}

fn c17(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let (name, ty) = TYPES[ctx.idx as usize % TYPES.len()];
    let arity = rng.below(5);
    let pos = match ty {
        Ty::ListRef | Ty::MapRef | Ty::ValRef => 0,
        _ => rng.below(arity + 1),
    };
    let mode = *rng.pick(MODES);
    let given = match rng.below(8) {
        0 => (arity + rng.range(1, 4)).min(8),
        1 if arity > 0 => rng.below(arity),
        _ => arity,
    };
    let mut site = Site { r: &mut rng, data: Map::new(), open: String::new(), close: vec![], n: 0, events: vec![], mode };
    let mut vals = vec![];
    let mut ats = vec![];
    for k in 0..=given {
        let v = if k == pos { candidate(site.r, ty) } else { gen::value(site.r, 1) };
        ats.push(site.put(&v, false));
        vals.push(v);
    }
    // Other text around, so that places differ.
    let lead = *site.r.pick(&["", "text ", "é\n", "\u{1F600}\n\n  "]);
    let mut call = format!("{{{{{}", spaced(site.r));
    let mut spans = vec![];
    let head = format!("{lead}{}", site.open);
    let off = head.len();
    call.push_str(&ats[0].text);
    spans.push((0, 0));
    let mut late = ats[0].late.clone();
    let mut chained = false;
    if site.r.pct(25) {
        call.push_str(" | id");
        late.push(event("id", &[vals[0].clone()]));
        chained = true;
    }
    call.push_str(&format!(" |{}", spaced(site.r)));
    let fname = format!("t_{name}_{pos}_{arity}");
    let fspan = (off + call.len(), off + call.len() + fname.len());
    call.push_str(&fname);
    for k in 1..=given {
        call.push_str(gap(site.r));
        call.push(if k == 1 { ':' } else { ',' });
        call.push_str(gap(site.r));
        let a = off + call.len();
        call.push_str(&ats[k].text);
        spans.push((a, off + call.len()));
    }
    call.push_str(" | dump }}");
    let close: String = site.close.iter().rev().copied().collect();
    let src = format!("{head}{call}{close} tail");
    let data = Value::Map(site.data.clone());
    let desc = || format!("  parameter {ty:?} at {pos} of {arity}, given {given}\n  source: {src:?}\n  data:   {}\n  mode:   {mode:?}", dump(&data));
    if ctx.verbose {
        println!("{}", desc());
    }
    // What must happen.
    enum Want {
        Call(Vec<Value>),
        Fail((usize, usize), Vec<String>),
        Either(Vec<Value>, (usize, usize)),
    }
    let want = if given != arity {
        Want::Fail(fspan, vec![arity.to_string()])
    } else {
        let (v, at) = (&vals[pos], &ats[pos]);
        match convert(ty, v, None) {
            Err(h) => Want::Fail(if pos == 0 { fspan } else { spans[pos] }, h),
            Ok(x) => {
                let mut a = vals.clone();
                a[pos] = x;
                // Whether a computed string can be passed by reference is not specified.
                if pos > 0 && ty == Ty::StrRef && at.computed {
                    Want::Either(a, spans[pos])
                } else {
                    Want::Call(a)
                }
            }
        }
    };
    let (res, got, cb) = ENGINES.with(|e| render(&e.types, mode, &src, &data, Cb::default())).map_err(|m| format!("{m}\n{}", desc()))?;
    let calls: Vec<&String> = cb.trace.iter().filter(|t| t.starts_with("F t ")).collect();
    let called = |a: &[Value]| -> Result<(), String> {
        let e = event("t", a);
        if calls.len() != 1 || *calls[0] != e {
            return Err(format!("expected the call {e:?}, observed {calls:?}\n{}", desc()));
        }
        if !res.ok() {
            return Err(format!("failed: {}\n{}", res.brief(), desc()));
        }
        let out = format!("{lead}{} tail", dump(&Value::List(a.to_vec())));
        if got.as_deref() != Some(&out) {
            return Err(format!("{}\n{}", obs::diff(&out, got.as_deref().unwrap_or("")), desc()));
        }
        Ok(())
    };
    let failed = |span: (usize, usize), hints: &[String]| -> Result<(), String> {
        let Res::Err(e) = &res else {
            return Err(format!("must fail, observed {} {got:?} with calls {calls:?}\n{}", res.brief(), desc()));
        };
        if !calls.is_empty() {
            return Err(format!("failed but the function was called: {calls:?}\n{}", desc()));
        }
        if e.kind != Some(Kind::Render) {
            return Err(format!("must be a render error: {:?}\n{}", e.plain, desc()));
        }
        for h in hints {
            if !e.reason.as_deref().unwrap_or("").contains(h.as_str()) {
                return Err(format!("the reason {:?} does not mention {h:?}\n{}", e.reason, desc()));
            }
        }
        check_loc(e, &src, span, None).map_err(|m| format!("{m}\n{}", desc()))
    };
    match &want {
        Want::Call(a) => {
            called(a)?;
            ctx.count("calls compared");
            ctx.count(&format!("call: {name}"));
        }
        Want::Fail(span, hints) => {
            failed(*span, hints)?;
            ctx.count(if given != arity { "wrong count refused" } else { "conversion refused" });
            ctx.count(&format!("refused: {name}"));
        }
        Want::Either(a, span) => {
            if res.ok() {
                called(a)?
            } else {
                failed(*span, &[])?
            }
            ctx.count("computed string for a reference (either is allowed)");
        }
    }
    if chained {
        ctx.count("piped result of a filter");
    }
    ctx.count(&format!("from a {}", ats[pos.min(given)].how));
    ctx.case(&format!("{src}{}", dump(&data)), true);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            level: "exploration",
            rule: "each of the 155 supported function shapes (five kinds of piped parameter, zero to four arguments, each owned or string reference) in turn, with values of every kind reached as literals, variables, paths, loop variables, map keys and values, bound values and filter results, context by reference, serialized and from a value function; the arguments recorded by the function, its result used in five ways, and the values afterwards compared with those put in; distinct by shape, source and data",
            quick: 155 * 4_000,
            thorough: 155 * 60_000,
            run: c16,
            mins: &[("calls compared", 155 * 3_700), ("failing functions", 40_000), ("value from a map key", 2_000), ("value from a bound result", 5_000)],
            assumptions: &["the shapes are the ones written into harness/src/props/shapes.rs by tools/genshapes.py: every combination the documentation lists; other parameter types in those positions are the subject of C17"],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "each of the 24 parameter types, in every position of functions with zero to four arguments, given values of every kind and at the limits of every integer type, reached in nine ways, with right and wrong numbers of arguments; whether the function ran, with what, and the kind and place of the error compared with an explicit conversion table; distinct by source and data",
            quick: 1_000_000,
            thorough: 10_000_000,
            run: c17,
            mins: &[("calls compared", 400_000), ("conversion refused", 130_000), ("wrong count refused", 80_000)],
            assumptions: &["whether a computed string may be passed to a string reference argument is documented as unsupported; both outcomes are accepted"],
        },
    ]
}
