//! C02, C10, C14, C19, C20, C24, C26, C30, C31: what rendering means, beyond the plain
//! comparison with the reference semantics.

use super::common::{self, key_of, note, program, run_case, Opt};
use super::io::{self, How};
use super::scale::{turn, G};
use crate::check::{Ctx, Prop};
use crate::funcs::{self, Cb, Fmt};
use crate::gen::{self, Gen, Profile, Twist};
use crate::model::eval::{CtxMode, Kind};
use crate::model::parse::{self, Opts};
use crate::model::syn::Syn;
use crate::obs::{self, compare_render, diff, differ, guard, res, run_model, run_real, Boom, Case, Got, Judge, OErr, RenderHow, Rendered, Res, Root, RootRef, Ser};
use crate::rng::Rng;
use crate::val::{dump, map, s, same, Map, Value};

const ALL_MODES: &[CtxMode] = &[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn];

// ---------------------------------------------------------------------------
// C02
// ---------------------------------------------------------------------------

fn hostile_root(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => gen::scalar(r),
        1 => gen::value(r, 4),
        2 => Value::List((0..r.below(5)).map(|_| gen::value(r, 2)).collect()),
        3 => Value::Map(Map::new()),
        _ => gen::context(r),
    }
}

fn c02(ctx: &mut Ctx) -> Result<(), String> {
    let large = [(G::Far, 140_000), (G::Out, 140_000), (G::Far, 70_000), (G::Token, 140_000), (G::Huge, 1), (G::Deep, 1000), (G::Path, 1000), (G::Loop, 30_000), (G::Repeat, 30_000), (G::Chain, 2000), (G::Args, 2000)];
    if let Some(x) = turn(ctx, 1000, &large, Judge { outcome: true, ..Default::default() }) {
        return x;
    }
    let r = &mut ctx.rng;
    let mut case = if r.pct(60) {
        let o = Opt {
            profile: Profile {
                err: *r.pick(&[2, 15, 40]),
                bad_fn: *r.pick(&[2, 15]),
                recur: *r.pick(&[0, 5]),
                opt: 20,
                trim: 12,
                ..Default::default()
            },
            modes: ALL_MODES,
            resolver: 25,
            writer: 50,
            fmt: 40,
            fail: 35,
            syn: 10,
            stretch: 5,
            faulty: true,
            ..Default::default()
        };
        let (mut c, feats) = program(r, &o);
        if run_model(&c).over() {
            return Ok(());
        }
        if r.one_in(4) {
            c.data = hostile_root(r);
            // Recursion that the data was to bound may not be bounded any more.
            if feats.contains(&"recursive include") {
                c.depth_render = Some(r.range(0, 4));
            }
        }
        c
    } else {
        let syn = match r.below(4) {
            0 => gen::odd_syntax(r),
            1 => gen::clean_syntax(r),
            _ => Syn::default(),
        };
        let mut src = |r: &mut Rng| match r.below(5) {
            0 => gen::soup(r, &syn),
            1 => gen::block_soup(r, &syn),
            2 => {
                let data = gen::context(r);
                let mut g = Gen::new(r, Profile { err: 20, include: 2, recur: 0, ..Default::default() }, syn.clone(), &data);
                let t = g.template();
                gen::mutate(r, &t, &syn)
            }
            _ => gen::tag_soup(r, &syn),
        };
        let root = src(r);
        let mut c = Case::simple(root, hostile_root(r));
        if let Value::Map(m) = &mut c.data {
            for k in ["a", "b", "user", "list"] {
                if r.bool() {
                    m.insert(k.into(), gen::value(r, 2));
                }
            }
        }
        let t = src(r);
        c.templates.push(("t".into(), t));
        c.depth_engine = Some(r.range(0, 6));
        c.syn = syn;
        c.mode = *r.pick(ALL_MODES);
        c.resolver = r.pct(20);
        c.writer = r.bool();
        c.default_fmt = gen::any_fmt(r);
        c
    };
    if r.one_in(12) {
        case.depth_render = Some(r.below(6));
    }
    if ctx.verbose {
        println!("{}", case.describe());
    }
    let got = run_real(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
    for a in got.adds.iter().chain([&got.root]) {
        if let Res::Boom(b) = a {
            return Err(format!("compiling panicked: {b:?}\n{}", case.describe()));
        }
    }
    let Some(rd) = &got.render else {
        ctx.count("did not compile");
        return Ok(());
    };
    match &rd.res {
        Res::Boom(b) => return Err(format!("rendering panicked: {b:?}\n{}", case.describe())),
        Res::Ok => ctx.count("renders ok"),
        Res::Err(e) => {
            ctx.count("renders failed");
            ctx.count(&format!("failed with {:?}", e.kind));
            if e.kind.is_none() {
                return Err(format!("unknown kind of error: {}\n{}", e.plain, case.describe()));
            }
        }
    }
    if !matches!(case.data, Value::Map(_)) {
        ctx.count("renders of something else than a map");
    }
    ctx.add("callbacks", rd.trace.len() as u64);
    ctx.case(&key_of(&case), true);
    Ok(())
}

// ---------------------------------------------------------------------------
// C10
// ---------------------------------------------------------------------------

/// Values and whether they are truthy, written down one by one.
fn truth(r: &mut Rng) -> (Value, bool) {
    match r.below(30) {
        0 => (Value::None, false),
        1 => (Value::Bool(false), false),
        2 => (Value::Integer(0), false),
        3 => (Value::Float(0.0), false),
        4 => (Value::Float(-0.0), false),
        5 => (s(""), false),
        6 => (Value::List(vec![]), false),
        7 => (Value::Map(Map::new()), false),
        8 => (Value::Bool(true), true),
        9 => (Value::Integer(*r.pick(&[1, -1, 2, 256, 65536, 1 << 32, i64::MIN, i64::MAX])), true),
        10 => (Value::Float(f64::NAN), true),
        11 => (Value::Float(f64::INFINITY), true),
        12 => (Value::Float(f64::NEG_INFINITY), true),
        13 => (Value::Float(5e-324), true),
        14 => (Value::Float(-5e-324), true),
        15 => (Value::Float(*r.pick(&[0.1, 0.5, -0.9, 1e-300, 1.0, f64::EPSILON, f64::MIN_POSITIVE])), true),
        16 => (s(*r.pick(&["0", "false", " ", "\0", "none", "\n", "\u{200b}", "\u{feff}"])), true),
        17 => (Value::List(vec![Value::None]), true),
        18 => (Value::List(vec![Value::List(vec![])]), true),
        19 => (Value::List(vec![Value::Bool(false), Value::Integer(0)]), true),
        20 => (map([("", Value::None)]), true),
        21 => (map([("false", Value::Bool(false))]), true),
        22 => {
            let i = gen::int(r);
            (Value::Integer(i), i != 0)
        }
        23 => {
            let f = gen::float(r);
            (Value::Float(f), !(f.to_bits() == 0 || f.to_bits() == 1 << 63))
        }
        24 | 25 => {
            let t = gen::string(r);
            let b = !t.is_empty();
            (Value::String(t), b)
        }
        26 => (Value::List((0..r.range(1, 5)).map(|_| gen::scalar(r)).collect()), true),
        _ => (Value::Bool(true), true),
    }
}

struct Cond<'a> {
    r: &'a mut Rng,
    data: Map,
    trace: Vec<String>,
    mode: CtxMode,
    n: usize,
    inc: Vec<(String, String)>,
}

impl Cond<'_> {
    /// An expression that has this value; appends the calls it makes when evaluated.
    fn expr(&mut self, v: &Value, trace: &mut Vec<String>) -> String {
        let lit = gen::literal(self.r, v);
        self.n += 1;
        let name = format!("v{}", self.n);
        let mut t = match (self.r.below(4), lit) {
            (0 | 1, Some(l)) => l,
            (2, _) => {
                let k = self.r.below(3);
                let mut l: Vec<Value> = (0..k).map(|_| gen::scalar(self.r)).collect();
                l.push(v.clone());
                self.data.insert(name.clone(), Value::List(l));
                if self.mode == CtxMode::Fn {
                    trace.push(format!("V {name}.#{k}"));
                }
                format!("{name}.{k}")
            }
            _ => {
                self.data.insert(name.clone(), v.clone());
                if self.mode == CtxMode::Fn {
                    trace.push(format!("V {name}"));
                }
                name
            }
        };
        for _ in 0..*self.r.pick(&[0, 0, 1, 1, 2]) {
            let f = *self.r.pick(&["id", "idr"]);
            t.push_str(&format!(" | {f}"));
            trace.push(format!("F {f} {}", dump(v)));
        }
        t
    }

    /// A conditional, its output, and the calls made.
    fn chain(&mut self, depth: usize) -> (String, String, Vec<String>) {
        let arms = match self.r.below(10) {
            0..=3 => 1,
            4..=6 => 2,
            7 | 8 => self.r.range(3, 6),
            _ => self.r.range(1, 30),
        };
        let mut src = String::new();
        let mut out = String::new();
        let mut trace = vec![];
        let mut chosen = false;
        // Let many cases reach the later arms.
        let bias = self.r.pct(50);
        let trim = |r: &mut Rng| if r.one_in(10) { "-" } else { "" };
        for i in 0..arms {
            let (mut v, mut t) = truth(self.r);
            let not = self.r.pct(35);
            if bias && i + 1 < arms {
                for _ in 0..10 {
                    if t == not {
                        break;
                    }
                    (v, t) = truth(self.r);
                }
            }
            let mut calls = vec![];
            let e = self.expr(&v, &mut calls);
            let (a, b) = (trim(self.r), trim(self.r));
            src.push_str(&format!(
                "{{%{a} {}{}{e} {b}%}}",
                if i == 0 { "if " } else { "else if " },
                if not { "not " } else { "" }
            ));
            if !chosen {
                trace.extend(calls);
            }
            let (bs, bo, bt) = self.body(depth, &format!("<{i}>"));
            src.push_str(&bs);
            if !chosen && t != not {
                chosen = true;
                out = bo;
                trace.extend(bt);
            }
        }
        if self.r.pct(60) {
            src.push_str("{% else %}");
            let (bs, bo, bt) = self.body(depth, "<else>");
            src.push_str(&bs);
            if !chosen {
                out = bo;
                trace.extend(bt);
            }
        }
        src.push_str("{% endif %}");
        (src, out, trace)
    }

    fn body(&mut self, depth: usize, label: &str) -> (String, String, Vec<String>) {
        let mut src = label.to_string();
        let mut out = label.to_string();
        let mut trace = vec![];
        match self.r.below(8) {
            0 => {
                src.clear();
                out.clear();
            }
            1 | 2 => {
                let v = Value::Integer(self.r.below(100) as i64);
                let e = self.expr(&v, &mut trace);
                src.push_str(&format!("{{{{ {e} }}}}"));
                out.push_str(&funcs::plain_text(&v).unwrap());
            }
            3 | 4 if depth > 0 => {
                let (s, o, t) = self.chain(depth - 1);
                src.push_str(&s);
                out.push_str(&o);
                trace = t;
                if self.r.bool() {
                    src.push_str("<after>");
                    out.push_str("<after>");
                }
            }
            5 if depth > 0 => {
                let (s, o, t) = self.chain(depth - 1);
                src.push_str(&format!("{{% with 1 as w %}}{s}{{% endwith %}}"));
                out.push_str(&o);
                trace = t;
            }
            6 if depth > 0 => {
                let (s, o, t) = self.chain(depth - 1);
                let n = format!("inc{}", self.inc.len());
                src.push_str(&format!("{{% include \"{n}\" %}}"));
                self.inc.push((n, s));
                out.push_str(&o);
                trace = t;
            }
            _ => {}
        }
        (src, out, trace)
    }
}

fn c10(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Arms, 1_000), (G::Body, 70_000), (G::Deep, 300)], Judge::result()) {
        return x;
    }
    if ctx.rng.pct(35) {
        let o = Opt {
            profile: Profile { if_: 45, emit: 25, for_: 8, with: 6, include: 4, raw: 14, depth: 6, filters: 25, err: 1, nodes: (1, 4), ..Default::default() },
            modes: ALL_MODES,
            stretch: 4,
            ..Default::default()
        };
        common::run(ctx, &o, Judge { trace: true, ..Judge::result() })?;
        return Ok(());
    }
    let r = &mut ctx.rng;
    let mode = *r.pick(ALL_MODES);
    let mut c = Cond { r, data: Map::new(), trace: vec![], mode, n: 0, inc: vec![] };
    let (src, out, trace) = c.chain(3);
    c.trace = trace;
    // Surrounding text must stay.
    let (src, out) = (format!("a{src}z"), format!("a{out}z"));
    let (data, trace, inc) = (c.data, c.trace, c.inc);
    // Every branch of a loop-free conditional behaves the same inside a loop.
    let times = if ctx.rng.one_in(5) { 3 } else { 1 };
    let mut data = data;
    let src = if times == 3 {
        data.insert("three".into(), Value::List(vec![s("x"); 3]));
        format!("{{% for q in three %}}{src}{{% endfor %}}")
    } else {
        src
    };
    let mut want: Vec<String> = (0..times).flat_map(|_| trace.clone()).collect();
    if times == 3 && mode == CtxMode::Fn {
        want.insert(0, "V three".into());
    }
    let case = Case { mode, templates: inc, writer: ctx.rng.bool(), ..Case::simple(src, Value::Map(data)) };
    if ctx.verbose {
        println!("{}\nwant {out:?} {want:?}", case.describe());
    }
    let got = run_real(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
    let Some(g) = &got.render else { return Err(format!("did not compile: {}\n{}", got.root.brief(), case.describe())) };
    if !g.res.ok() {
        return Err(format!("failed: {}\n{}", g.res.brief(), case.describe()));
    }
    let out = out.repeat(times);
    if g.out.as_deref() != Some(&out) {
        return Err(format!("{}\n{}", diff(&out, g.out.as_deref().unwrap_or("")), case.describe()));
    }
    if g.trace != want {
        return Err(format!("evaluated {:?}, expected {want:?}\n{}", g.trace, case.describe()));
    }
    ctx.count("constructed conditionals");
    ctx.add("condition and body events compared", want.len() as u64);
    ctx.case(&key_of(&case), true);
    Ok(())
}

// ---------------------------------------------------------------------------
// C14
// ---------------------------------------------------------------------------

/// Templates that include each other to a chosen depth.
fn tower(r: &mut Rng) -> Case {
    let mut t: Vec<(String, String)> = vec![];
    let mut data = Map::new();
    let root;
    match r.below(5) {
        0 => {
            // A chain of distinct templates.
            let n = if r.one_in(3) { *r.pick(&[62, 63, 64, 65, 100, 127, 128, 255, 256, 300, 511, 513]) } else { r.range(0, 12) };
            for i in 0..n {
                let inner = if i + 1 < n { format!("{{% include \"c{}\" %}}", i + 1) } else { "end".into() };
                t.push((format!("c{i}"), format!("({i}{inner})")));
            }
            root = if n > 0 { "{% include \"c0\" %}.".to_string() } else { "flat".into() };
        }
        1 => {
            // Counts down by itself.
            let n = if r.one_in(3) { r.range(60, 70) } else if r.one_in(20) { r.range(250, 600) } else { r.range(0, 15) };
            data.insert("n".into(), Value::Integer(n as i64));
            let inc = if r.bool() {
                "{% with n | add: -1 as n %}{% include \"self\" %}{% endwith %}"
            } else {
                "{% with n | add: -1 as m %}{% with m as n %}{% include \"self\" %}{% endwith %}{% endwith %}"
            };
            t.push(("self".into(), format!("{{{{ n }}}},{{% if n %}}{inc}{{% endif %}}")));
            root = "{% include \"self\" %}".into();
        }
        2 => {
            // Walks a tree.
            fn tree(r: &mut Rng, d: usize) -> Value {
                let n = if d == 0 { 0 } else { r.below(3) };
                map([("v", Value::Integer(r.below(9) as i64)), ("kids", Value::List((0..n).map(|_| tree(r, d - 1)).collect()))])
            }
            let d = r.range(0, 6);
            data.insert("tree".into(), tree(r, d));
            t.push(("node".into(), "{{ v }}({% for c in kids %}{% include \"node\" with c %}{% endfor %})".into()));
            root = "{% include \"node\" with tree %}".into();
        }
        3 => {
            // Mutual, endless.
            t.push(("p".into(), "p{% include \"q\" %}".into()));
            t.push(("q".into(), if r.bool() { "q{% include \"p\" %}".into() } else { "q{% include \"q\" with 1 %}".into() }));
            root = "{% include \"p\" %}".into();
        }
        _ => {
            // Many siblings, none nested deeper than a few.
            let d = r.range(1, 4);
            for i in 0..d {
                let inner = if i + 1 < d { format!("{{% include \"s{}\" %}}", i + 1).repeat(r.range(1, 3)) } else { "x".into() };
                t.push((format!("s{i}"), inner));
            }
            let n = if r.one_in(4) { r.range(60, 140) } else { r.range(1, 8) };
            data.insert("l".into(), Value::List(vec![Value::None; n]));
            root = if r.bool() { "{% include \"s0\" %}".repeat(n) } else { "{% for q in l %}{% include \"s0\" %}{% endfor %}".into() };
        }
    }
    let root = if r.bool() {
        t.push(("the root".into(), root));
        Root::Named("the root".into())
    } else {
        Root::Anon(root)
    };
    let resolver = r.one_in(4);
    Case { templates: t, root, resolver, ..Case::simple("", Value::Map(data)) }
}

fn c14(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut case = if r.pct(60) {
        tower(r)
    } else {
        let o = Opt {
            profile: Profile { include: 50, emit: 20, with: 10, for_: 14, if_: 6, depth: 6, recur: 6, err: 0, bad_fn: 0, filters: 8, nodes: (1, 4), ..Default::default() },
            resolver: 25,
            stretch: 0,
            ..Default::default()
        };
        program(r, &o).0
    };
    case.mode = *r.pick(&[CtxMode::Ref, CtxMode::Ref, CtxMode::Serde, CtxMode::Fn]);
    case.writer = r.bool();
    // How deep does it go without a limit?
    case.depth_engine = Some(if r.one_in(8) { 700 } else { 80 });
    let free = run_model(&case);
    let Some(w) = &free.render else { return Ok(()) };
    if w.over_budget {
        return Ok(());
    }
    let d = w.max_active;
    let ends = w.res.is_ok();
    // Around that depth, in every place a limit can be set.
    let lim = |r: &mut Rng| match r.below(8) {
        0..=4 => Some((d + r.below(5)).saturating_sub(2)),
        5 => Some(*r.pick(&[0, 1, 2, 63, 64, 65, 80])),
        // No limit to speak of, for renders known to end.
        6 if ends => Some(*r.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 32, u32::MAX as usize, 1 << 31, 1 << 16, (1 << 16) + 1, 255, 256, 257, 512])),
        _ => None,
    };
    (case.depth_engine, case.depth_render) = (lim(r), lim(r));
    if r.one_in(4) {
        // The default.
        (case.depth_engine, case.depth_render) = (None, None);
    }
    if ctx.verbose {
        println!("{}", case.describe());
    }
    let j = Judge { hints: true, kind: true, partial: true, ..Judge::result() };
    let mut again = case.clone();
    again.depth_render = None;
    let want = run_model(&case);
    let w2 = run_model(&again);
    if want.over() || w2.over() {
        return Ok(());
    }
    let mut b = obs::build(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
    let Some(w) = &want.render else { return Ok(()) };
    let once = |b: &obs::Built, c: &Case| -> Result<Rendered, String> {
        let (res, out, cb) = obs::render(c, b, Cb::default(), &c.data).ok_or_else(|| format!("does not compile\n{}", c.describe()))?;
        Ok(Rendered { res, out, trace: cb.trace })
    };
    let g = once(&b, &case)?;
    compare_render(w, &g, j).map_err(|m| format!("{m}\n{}", case.describe()))?;
    // The renderer's own limit is for that render only.
    let g2 = once(&b, &again)?;
    compare_render(w2.render.as_ref().unwrap(), &g2, j).map_err(|m| format!("rendering again without a limit of its own: {m}\n{}", again.describe()))?;
    // The engine's limit is the one it has when rendering starts, whatever it was before.
    let mut third = case.clone();
    for _ in 0..2 {
        let l = (d + r.below(5)).saturating_sub(2);
        third.depth_engine = Some(l);
        if r.pct(70) {
            third.depth_render = None;
        }
        let w3 = run_model(&third);
        if w3.over() {
            break;
        }
        b.engine.set_max_include_depth(l);
        let g3 = once(&b, &third)?;
        compare_render(w3.render.as_ref().unwrap(), &g3, j).map_err(|m| format!("with another limit of the engine: {m}\n{}", third.describe()))?;
        ctx.count("renders after the engine's limit was changed");
    }
    let l = case.depth_render.or(case.depth_engine).unwrap_or(64);
    ctx.count(match (w.res.is_ok(), d as i128 - l as i128) {
        (true, 0) => "succeeded exactly at the limit",
        (true, _) => "succeeded below the limit",
        (false, 1) => "failed one above the limit",
        (false, _) => "failed further above",
    });
    ctx.max("deepest", d as u64);
    ctx.case(&format!("{}{:?}{:?}", key_of(&case), case.depth_engine, case.depth_render), d > 1);
    Ok(())
}

// ---------------------------------------------------------------------------
// C19
// ---------------------------------------------------------------------------

const ODD_NAMES: &[&str] = &["page", "a:b:1", "dir/ü.html", "日本", "", "x --> y", "| 1", "名:3:4"];

fn c19(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 500, &[(G::Far, 140_000), (G::Far, 30_000)], Judge { loc: true, kind: true, ..Judge::result() }) {
        return x;
    }
    let r = &mut ctx.rng;
    let j = Judge { loc: true, ..Default::default() };
    if r.pct(45) {
        // Syntax errors: damaged programs, at any place, in any text.
        let syn = if r.pct(80) { Syn::default() } else { gen::clean_syntax(r) };
        let data = gen::context(r);
        let p = Profile { wild: 60, space: 25, trim: 10, err: 5, ..Default::default() };
        let mut g = Gen::new(r, p, syn.clone(), &data);
        let t = g.template();
        let mut src = match r.below(6) {
            0..=2 => gen::mutate(r, &t, &syn),
            3 => format!("{t}{}", gen::tag_soup(r, &syn)),
            4 => format!("{t}{}", gen::block_soup(r, &syn)),
            _ => gen::soup(r, &syn),
        };
        if r.one_in(3) {
            src = format!("{}{src}", (0..r.range(1, 4)).map(|_| r.pick(gen::SPACES).to_string() + *r.pick(gen::WORDS)).collect::<String>());
        }
        if r.one_in(4) {
            src.push_str(r.pick(&["\n", "\r\n", "\n\n", " ", "é"]));
        }
        let mut case = Case { syn, ..Case::simple("", data) };
        if r.bool() {
            let n = r.pick(ODD_NAMES).to_string();
            case.templates.push((n, src));
        } else {
            case.root = Root::Anon(src);
        }
        if ctx.verbose {
            println!("{}", case.describe());
        }
        let want = run_model(&case);
        let got = run_real(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
        let only = obs::Expect { render: None, ..want };
        obs::compare(&case, &only, &got, j).map_err(|m| format!("{m}\n{}", case.describe()))?;
        if only.root.is_err() || only.adds.iter().any(|a| a.is_err()) {
            let what = only.root.as_ref().err().or(only.adds.iter().find_map(|a| a.as_ref().err())).unwrap().what.clone();
            ctx.count("syntax error locations compared");
            ctx.count(&format!("syntax error: {what}"));
        }
        ctx.case(&key_of(&case), true);
        return Ok(());
    }
    let o = Opt {
        profile: Profile { err: *r.pick(&[4, 10, 25]), bad_fn: 10, wild: 60, raw: 30, include: 12, filters: 35, fmt: 25, space: 20, ..Default::default() },
        modes: ALL_MODES,
        resolver: 25,
        fmt: 30,
        fail: 25,
        writer: 20,
        faulty: true,
        stretch: 3,
        ..Default::default()
    };
    let (mut case, feats) = program(r, &o);
    // Put other text in front.
    if r.bool() {
        let pre: String = (0..r.range(1, 5)).map(|_| r.pick(gen::SPACES).to_string() + *r.pick(gen::WORDS)).collect();
        let pre = pre.replace(['{', '}'], "");
        for t in case.templates.iter_mut() {
            t.1.insert_str(0, &pre);
        }
        if let Root::Anon(t) = &mut case.root {
            t.insert_str(0, &pre);
        }
    }
    // Names that look like locations.
    if r.one_in(3) {
        if let Root::Named(n) = &case.root {
            let new = r.pick(ODD_NAMES).to_string();
            if !case.templates.iter().any(|t| t.0 == new) {
                for t in case.templates.iter_mut() {
                    if t.0 == *n {
                        t.0 = new.clone();
                    }
                }
                case.root = Root::Named(new);
            }
        }
    }
    if let Some((_, w, _)) = run_case(ctx, case, &feats, j)? {
        if let Some(Err(e)) = w.render.map(|r| r.res) {
            if e.has_reason && e.at.is_some() {
                ctx.count("render error locations compared");
                if e.template.is_some() {
                    ctx.count("locations in a named template");
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C20
// ---------------------------------------------------------------------------

/// Serializes like the value but fails at the n-th node.
struct Failing<'a> {
    v: &'a Value,
    left: &'a std::cell::Cell<i64>,
    msg: &'a str,
}

impl serde::Serialize for Failing<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeMap, SerializeSeq};
        let n = self.left.get();
        self.left.set(n - 1);
        if n == 0 {
            return Err(S::Error::custom(self.msg));
        }
        let sub = |v| Failing { v, left: self.left, msg: self.msg };
        match self.v {
            Value::List(l) => {
                let mut q = s.serialize_seq(None)?;
                for x in l {
                    q.serialize_element(&sub(x))?;
                }
                q.end()
            }
            Value::Map(m) => {
                let mut q = s.serialize_map(None)?;
                for (k, x) in m {
                    q.serialize_entry(k, &sub(x))?;
                }
                q.end()
            }
            v => Ser(v).serialize(s),
        }
    }
}

fn nodes_of(v: &Value) -> i64 {
    1 + match v {
        Value::List(l) => l.iter().map(nodes_of).sum(),
        Value::Map(m) => m.values().map(nodes_of).sum(),
        _ => 0,
    }
}

/// A writer that fails after some bytes.
struct Limited {
    left: usize,
    got: Vec<u8>,
    how: How,
}

impl std::io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            return self.how.fail();
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const MESSAGES: &[&str] = &["plain", "", "two\nlines", "{} {0} %s \\n", "io error: nested", "render error", "format error", "serialize error", "io error", "filter error", "日本 \u{1F600}", " spaced ", "a: b: c"];

fn c20(ctx: &mut Ctx) -> Result<(), String> {
    let r = &mut ctx.rng;
    let what = r.below(10);
    if what < 6 {
        let o = Opt {
            profile: Profile { err: *r.pick(&[1, 5, 20]), bad_fn: *r.pick(&[5, 30]), filters: 40, fmt: 35, include: 10, ..Default::default() },
            modes: ALL_MODES,
            resolver: 40,
            fmt: 45,
            fail: 50,
            writer: 50,
            faulty: true,
            stretch: 0,
            ..Default::default()
        };
        common::run(ctx, &o, Judge { kind: true, user: true, outcome: true, ..Default::default() })?;
        return Ok(());
    }
    if what == 6 {
        // Syntax errors, through compile and add_template.
        let syn = Syn::default();
        let src = if r.bool() { gen::tag_soup(r, &syn) } else { gen::block_soup(r, &syn) };
        let case = Case { templates: vec![("t".into(), src.clone())], ..Case::simple(src, Value::None) };
        let (want, got) = differ(&case, Judge { kind: true, ..Default::default() })?;
        for r in got.adds.iter().chain([&got.root]) {
            if let Res::Err(e) = r {
                if e.reason.is_none() {
                    return Err(format!("a syntax error without a reason: {}\n{}", e.plain, case.describe()));
                }
                ctx.count("syntax errors");
            }
        }
        note(ctx, &case, &want, &got);
        return Ok(());
    }
    if what <= 7 {
        // Serialization fails: nothing is rendered, nothing is called.
        let data = gen::context(r);
        let left = std::cell::Cell::new(r.below(nodes_of(&data) as usize) as i64);
        let msg = if r.bool() { r.pick(MESSAGES).to_string() } else { gen::string(r) };
        let src = "a{{ nope }}{{ 1 | id | dump }}b";
        let case = Case::simple(src, data.clone());
        let b = obs::build(&case).map_err(|b| format!("panic {b:?}"))?;
        let ser = Failing { v: &data, left: &left, msg: &msg };
        funcs::install(Cb::default());
        let how = r.below(3);
        let mut sink: Vec<u8> = vec![];
        let (got, _) = res(guard(|| match how {
            0 => upon::to_value(&ser).map(|_| ()),
            1 => b.root.as_ref().unwrap().render(&b.engine, &ser).to_string().map(|_| ()),
            _ => b.root.as_ref().unwrap().render(&b.engine, &ser).to_writer(&mut sink),
        }));
        let cb = funcs::take();
        let ok = match &got {
            Res::Err(e) => e.kind == Some(Kind::Serialize) && e.reason.as_deref() == Some(&msg) && e.source.is_none(),
            _ => false,
        };
        if !ok || !sink.is_empty() || !cb.trace.is_empty() {
            return Err(format!(
                "a serializer failed with {msg:?}: observed {} (output {:?}, callbacks {:?})\n{}",
                got.brief(),
                String::from_utf8_lossy(&sink),
                cb.trace,
                case.describe()
            ));
        }
        ctx.count("serialize errors");
        ctx.case(&format!("ser {msg:?} {how} {}", dump(&data)), true);
        return Ok(());
    }
    // The writer fails after some bytes; perhaps rendering fails too: the first failure counts.
    let o = Opt {
        profile: Profile { err: 3, bad_fn: 10, fmt: 35, ..Default::default() },
        modes: ALL_MODES,
        fmt: 40,
        fail: 40,
        faulty: true,
        stretch: 0,
        ..Default::default()
    };
    let (mut case, _) = program(r, &o);
    case.resolver = false;
    case.writer = true;
    let want = run_model(&case);
    let Some(w) = want.render else { return Ok(()) };
    if w.over_budget || w.out.is_empty() {
        return Ok(());
    }
    let total = w.out.len();
    let cut = match r.below(4) {
        0 => total,
        1 => total + r.below(5),
        _ => r.below(total),
    };
    let mut how = io::any_how(r);
    while how == How::Panic {
        how = io::any_how(r);
    }
    let b = obs::build(&case).map_err(|b| format!("panic {b:?}"))?;
    let mut lim = Limited { left: cut, got: vec![], how };
    funcs::install(Cb { fail_at: case.fail_at, ..Default::default() });
    let mut raw: Option<upon::Error> = None;
    let g = guard(|| {
        let r = match (&case.root, case.mode) {
            (Root::Named(n), CtxMode::Ref) => b.engine.template(n).render_from(&case.data).to_writer(&mut lim),
            (Root::Named(n), CtxMode::Serde) => b.engine.template(n).render(Ser(&case.data)).to_writer(&mut lim),
            (Root::Named(n), CtxMode::Fn) => b.engine.template(n).render_from_fn(|p| obs::value_fn(&case.data, p)).to_writer(&mut lim),
            (_, CtxMode::Ref) => b.root.as_ref().unwrap().render_from(&b.engine, &case.data).to_writer(&mut lim),
            (_, CtxMode::Serde) => b.root.as_ref().unwrap().render(&b.engine, Ser(&case.data)).to_writer(&mut lim),
            (_, CtxMode::Fn) => b.root.as_ref().unwrap().render_from_fn(&b.engine, |p| obs::value_fn(&case.data, p)).to_writer(&mut lim),
        };
        raw = r.err();
    });
    funcs::take();
    let desc = || format!("writer fails after {cut} of {total} bytes with {how:?}\n{}", case.describe());
    if let Err(b) = g {
        return Err(format!("panic {b:?}; {}", desc()));
    }
    let seen: Option<OErr> = raw.as_ref().map(obs::observe);
    if cut < total {
        let Some(e) = &seen else { return Err(format!("an io failure was not reported; {}", desc())) };
        let src = raw.as_ref().and_then(|e| std::error::Error::source(e)).and_then(|s| s.downcast_ref::<std::io::Error>());
        if e.kind != Some(Kind::Io) || !src.is_some_and(|e| io::identity(how, e)) {
            return Err(format!("expected the writer's error as source of an io error, observed {:?} with source {:?}; {}", e.plain, e.source, desc()));
        }
        ctx.count("io errors");
        if w.res.is_err() {
            ctx.count("io error before another failure");
        }
    } else {
        let g = Rendered { res: seen.map_or(Res::Ok, Res::Err), out: None, trace: vec![] };
        compare_render(&w_for(&w), &g, Judge { kind: true, user: true, outcome: true, ..Default::default() }).map_err(|m| format!("{m}; {}", desc()))?;
        ctx.count("failures before the writer's limit");
    }
    ctx.case(&format!("{}{cut}", key_of(&case)), true);
    Ok(())
}

fn w_for(w: &obs::ERendered) -> obs::ERendered {
    obs::ERendered { res: w.res.clone(), out: w.out.clone(), trace: vec![], marks: vec![], over_budget: false, steps: 0, max_active: 0 }
}

// ---------------------------------------------------------------------------
// C24
// ---------------------------------------------------------------------------

/// What was observed, without the template's name.
fn anonymous(r: &Res) -> String {
    match r {
        Res::Ok => "ok".into(),
        Res::Boom(b) => format!("{b:?}"),
        Res::Err(e) => format!("{:?} {:?} {:?}", e.kind, e.reason, e.loc.as_ref().map(|l| (l.line, l.col, &l.text, l.mark_at, l.mark_len))),
    }
}

fn c24(ctx: &mut Ctx) -> Result<(), String> {
    let r = &mut ctx.rng;
    let refs = r.pct(30);
    let o = Opt {
        profile: Profile {
            err: *r.pick(&[0, 2, 8]),
            opt: 20,
            include: 10,
            // Without filters that tell borrowed from computed.
            only: if refs { vec![] } else { funcs::FILTERS.iter().map(|f| f.name()).filter(|n| !["cat", "join4"].contains(n)).collect() },
            ..Default::default()
        },
        modes: &[CtxMode::Ref],
        fmt: 20,
        writer: 25,
        faulty: true,
        stretch: 3,
        ..Default::default()
    };
    let (mut case, feats) = program(r, &o);
    case.resolver = false;
    // Limits of the engine and of the renderer, whichever is larger.
    let lim = |r: &mut Rng| r.one_in(3).then(|| *r.pick(&[0, 1, 2, 3, 4, 6, 20, 64, 65, 100]));
    (case.depth_engine, case.depth_render) = (lim(r), lim(r));
    let src = match &case.root {
        Root::Named(n) => case.templates.iter().find(|t| t.0 == *n).unwrap().1.clone(),
        Root::Anon(s) => s.clone(),
    };
    // The same source in every place: in the engine, standalone, borrowed.
    case.templates.retain(|t| !matches!(&case.root, Root::Named(n) if *n == t.0));
    case.templates.push(("the root".into(), src.clone()));
    case.root = Root::Anon(src.clone());
    if run_model(&case).over() {
        return Ok(());
    }
    if ctx.verbose {
        println!("{}", case.describe());
    }
    let b = obs::build(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
    if b.root.is_none() || b.adds.iter().any(|a| !a.ok()) {
        ctx.count("did not compile (not judged)");
        return Ok(());
    }
    let root = b.root.as_ref().unwrap();
    let how = |mode| RenderHow { mode, resolver: false, writer: case.writer, depth: case.depth_render };
    let named = b.engine.get_template("the root");
    let Some(named) = named else { return Err(format!("not in the engine\n{}", case.describe())) };
    let mut seen: Vec<(String, Res, Option<String>, Vec<String>)> = vec![];
    for mode in [CtxMode::Ref, CtxMode::Serde] {
        for (place, rr) in [("standalone", RootRef::Tpl(root)), ("in the engine", RootRef::Ref(named))] {
            let (res, out, cb) = obs::render_with(&b.engine, &b.local, rr, how(mode), Cb::default(), &case.data);
            seen.push((format!("{mode:?} {place}"), res, out, cb.trace));
        }
    }
    // Other ways of giving the same data.
    let mut other = |label: &str, f: &dyn Fn(&mut Vec<u8>) -> Result<Option<String>, upon::Error>| {
        funcs::install(Cb::default());
        let mut sink = vec![];
        let (r, o) = res(guard(|| f(&mut sink)));
        let cb = funcs::take();
        let out = if case.writer { String::from_utf8(sink).ok() } else { o.flatten() };
        seen.push((label.to_string(), r, out, cb.trace));
    };
    let fin = |r: upon::Renderer<'_>, sink: &mut Vec<u8>| -> Result<Option<String>, upon::Error> {
        let r = match case.depth_render {
            Some(d) => r.with_max_include_depth(d),
            None => r,
        };
        if case.writer {
            r.to_writer(sink).map(|_| None)
        } else {
            r.to_string().map(Some)
        }
    };
    // The value itself is serializable.
    other("value serialized", &|s| fin(root.render(&b.engine, &case.data), s));
    other("converted first", &|s| {
        let v = upon::to_value(Ser(&case.data))?;
        fin(root.render_from(&b.engine, &v), s)
    });
    {
        // Borrowed source text.
        let text = src.clone();
        let (r, t) = res(guard(|| b.engine.compile(text.as_str())));
        let Some(t) = t else { return Err(format!("borrowed text: {}\n{}", r.brief(), case.describe())) };
        other("borrowed text", &|s| fin(t.render_from(&b.engine, &case.data), s));
    }
    let (l0, r0, o0, t0) = seen[0].clone();
    for (l, r, o, t) in &seen[1..] {
        let (x, y) = (anonymous(&r0), anonymous(r));
        if x != y || o0 != *o || t0 != *t {
            return Err(format!(
                "{l0} and {l} differ:\n  {x} {:?}\n  {y} {o:?}\n  callbacks {}\n{}",
                o0,
                if t0 == *t { "equal".to_string() } else { format!("{t0:?} {t:?}") },
                case.describe()
            ));
        }
    }
    ctx.add("renderings compared with each other", seen.len() as u64);
    // Through a value function: same output, and the paths are those of the template.
    let mut f = case.clone();
    f.mode = CtxMode::Fn;
    let want = run_model(&f);
    let w = want.render.unwrap();
    for (place, rr) in [("standalone", RootRef::Tpl(root)), ("in the engine", RootRef::Ref(named))] {
        let (res, out, cb) = obs::render_with(&b.engine, &b.local, rr, how(CtxMode::Fn), Cb::default(), &case.data);
        if !refs && r0.ok() && (!res.ok() || out != o0) {
            return Err(format!("a value function ({place}) gives {} {out:?}, the value gives {o0:?}\n{}", res.brief(), case.describe()));
        }
        if !refs && !r0.ok() && res.ok() {
            return Err(format!("a value function ({place}) succeeds, the value does not\n{}", case.describe()));
        }
        ctx.add("paths seen by value functions", cb.trace.iter().filter(|t| t.starts_with("V ")).count() as u64);
        let g = Rendered { res, out, trace: cb.trace };
        compare_render(&w, &g, Judge { trace: true, ..Judge::result() }).map_err(|m| format!("value function ({place}): {m}\n{}", f.describe()))?;
    }
    ctx.count(if r0.ok() { "renders ok" } else { "renders failed" });
    ctx.feats(&feats);
    ctx.case(&key_of(&case), true);
    Ok(())
}

// ---------------------------------------------------------------------------
// C26
// ---------------------------------------------------------------------------

/// The same programs on the same engines, tens of thousands of times.
fn soak(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut all = vec![];
    let many = if r.bool() { 1 } else { 3 };
    while all.len() < many {
        let o = Opt {
            profile: Profile { err: *r.pick(&[0, 4, 30]), recur: *r.pick(&[0, 0, 30]), filters: 30, fmt: 20, include: 20, nodes: (1, 3), depth: 2, ..Default::default() },
            modes: &[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn],
            resolver: 25,
            writer: 30,
            ..Default::default()
        };
        let (mut case, _) = program(r, &o);
        if r.bool() && case.syn == Default::default() && !case.resolver {
            // Includes up to the limit, or one too many.
            let limit = r.range(0, 6);
            case.depth_engine = Some(limit);
            case.depth_render = None;
            let n = limit + r.below(3);
            for i in 1..=n {
                let next = if i < n { format!("{{% include \"soak {}\" %}}", i + 1) } else { String::new() };
                case.templates.push((format!("soak {i}"), format!("<{next}>")));
            }
            let add = *r.pick(&["{% include \"soak 1\" %}", "{% for q in list %}{% include \"soak 1\" %}{% endfor %}", "{% include \"soak 1\" with 3 %}"]);
            match &mut case.root {
                Root::Anon(t) => t.push_str(add),
                Root::Named(m) => {
                    let m = m.clone();
                    case.templates.iter_mut().filter(|t| t.0 == m).for_each(|t| t.1.push_str(add))
                }
            }
        }
        let m = run_model(&case);
        let small = m.render.as_ref().is_some_and(|w| w.out.len() < 400 && w.trace.len() < 60);
        if m.over() || !small {
            continue;
        }
        let b = obs::build(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
        let Some(first) = obs::render(&case, &b, Cb::default(), &case.data) else { continue };
        all.push((case, b, first, 0u64));
    }
    let n = if r.one_in(3) { 140_000 } else { crate::props::scale::near(r, 70_000) };
    let together = r.bool();
    let mut slow = 0u32;
    for i in 0..n {
        // One after another, or interleaved.
        let k = if together { r.below(many) } else { i * many / n };
        let (case, b, first, count) = &mut all[k];
        *count += 1;
        let t = std::time::Instant::now();
        let got = if *count % 16 == 0 {
            // Compiled once more, too.
            let src = case.sources().next().unwrap_or("");
            let _ = guard(|| b.engine.compile(src.to_string()));
            obs::render(case, b, Cb::default(), &case.data).unwrap()
        } else {
            obs::render(case, b, Cb::default(), &case.data).unwrap()
        };
        if got.0 != first.0 || got.1 != first.1 || got.2.trace != first.2.trace {
            return Err(format!("render {count} differs from the first:\n  {} {:?}\n  {} {:?}\n{}", first.0.brief(), first.1, got.0.brief(), got.1, case.describe()));
        }
        ctx.count("renders of a soak compared");
        // A program that takes longer than most is repeated less often.
        if t.elapsed().as_micros() > 200 {
            slow += 1;
            if slow > 15_000 {
                break;
            }
        }
    }
    ctx.count("soaks");
    ctx.max("renders of one program on one engine", all.iter().map(|a| a.3).max().unwrap());
    Ok(())
}

fn c26(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.idx % 1600 == 7 {
        return soak(ctx);
    }
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let o = Opt {
        profile: Profile { err: *r.pick(&[0, 0, 4]), filters: 40, fmt: 25, include: 12, ..Default::default() },
        modes: ALL_MODES,
        resolver: 25,
        fmt: 30,
        writer: 30,
        fail: 10,
        faulty: true,
        stretch: 4,
        ..Default::default()
    };
    let (case, feats) = program(r, &o);
    let (other, _) = program(r, &o);
    if run_model(&case).over() || run_model(&other).over() {
        return Ok(());
    }
    if ctx.verbose {
        println!("{}\nand\n{}", case.describe(), other.describe());
    }
    let fresh = |c: &Case| obs::build(c).map_err(|b| format!("panic {b:?}\n{}", c.describe()));
    let b = fresh(&case)?;
    let base = Cb { fail_at: case.fail_at, ..Default::default() };
    let once = |b: &obs::Built| obs::render(&case, b, base.clone(), &case.data);
    let before = format!("{:?}", b.engine);
    let snapshot = case.data.clone();
    let sources: Vec<String> = case.templates.iter().map(|t| t.0.clone()).collect();
    let Some(first) = once(&b) else { return Ok(()) };
    if let Res::Boom(x) = &first.0 {
        return Err(format!("panic {x:?}\n{}", case.describe()));
    }
    let same_as_first = |what: &str, got: (Res, Option<String>, Cb)| -> Result<(), String> {
        if got.0 != first.0 || got.1 != first.1 || got.2.trace != first.2.trace {
            return Err(format!(
                "{what}: differs from the first render:\n  {} {:?}\n  {} {:?}\n  callbacks {}\n{}",
                first.0.brief(),
                first.1,
                got.0.brief(),
                got.1,
                if got.2.trace == first.2.trace { "equal".into() } else { format!("{:?} / {:?}", first.2.trace, got.2.trace) },
                case.describe()
            ));
        }
        Ok(())
    };
    let n = first.2.n;
    for _ in 0..r.range(1, 5) {
        // Something else on the same engine.
        match r.below(6) {
            0 => {}
            1 => {
                // A failing callback.
                let cb = Cb { fail_at: Some(r.below(n.max(1))), ..Default::default() };
                obs::render(&case, &b, cb, &case.data);
                ctx.count("interleaved failing renders");
            }
            2 if n > 0 => {
                // A panicking callback.
                let cb = Cb { panic_at: Some(r.below(n)), ..Default::default() };
                if let Some((Res::Boom(Boom::Own(m)), _, _)) = obs::render(&case, &b, cb, &case.data) {
                    return Err(format!("the crate panicked on its own: {m}\n{}", case.describe()));
                }
                ctx.count("interleaved panicking renders");
            }
            3 => {
                let d = gen::context(r);
                if run_model(&Case { data: d.clone(), ..case.clone() }).over() {
                    continue;
                }
                obs::render(&case, &b, base.clone(), &d);
                ctx.count("interleaved renders of other data");
            }
            4 => {
                // Another template compiled by this engine and rendered with it.
                let src = other.sources().last().unwrap_or("x").to_string();
                let _ = guard(|| {
                    if let Ok(t) = b.engine.compile(src) {
                        funcs::install(Cb::default());
                        let _ = t.render_from(&b.engine, &other.data).to_string();
                        funcs::take();
                    }
                });
                ctx.count("interleaved other templates");
            }
            _ => {
                // Abandoned renderers and failing writers.
                let c = Case { writer: true, ..case.clone() };
                if let (Root::Anon(_), Some(t)) = (&c.root, &b.root) {
                    let _ = guard(|| {
                        drop(t.render_from(&b.engine, &c.data));
                        funcs::install(Cb::default());
                        let _ = t.render_from(&b.engine, &c.data).to_writer(Limited {
                            left: r.below(20),
                            got: vec![],
                            how: How::Simple(std::io::ErrorKind::Other),
                        });
                        funcs::take();
                    });
                }
                ctx.count("interleaved io failures");
            }
        }
        same_as_first("rendering again", once(&b).unwrap())?;
        ctx.count("repetitions compared");
    }
    if !same(&snapshot, &case.data) || format!("{:?}", b.engine) != before {
        return Err(format!("rendering changed the data or the engine\n{}", case.describe()));
    }
    for n in &sources {
        if let Some(t) = b.engine.get_template(n) {
            let src = &case.templates.iter().rev().find(|t| t.0 == *n).unwrap().1;
            if !case.resolver && t.source() != src {
                return Err(format!("the source of {n:?} changed\n{}", case.describe()));
            }
        }
    }
    // Rebuilt the same way, in the same or another order.
    let again = fresh(&case)?;
    same_as_first("an engine rebuilt the same way", once(&again).unwrap())?;
    let mut shuffled = case.clone();
    r.shuffle(&mut shuffled.templates);
    r.shuffle(&mut shuffled.funcs);
    let b3 = fresh(&shuffled)?;
    same_as_first("an engine rebuilt in another order", obs::render(&shuffled, &b3, base.clone(), &case.data).unwrap())?;
    // And from another thread.
    if r.one_in(40) {
        let c = case.clone();
        let got = std::thread::spawn(move || {
            let b = obs::build(&c).unwrap_or_else(|b| panic!("{b:?}"));
            obs::render(&c, &b, Cb { fail_at: c.fail_at, ..Default::default() }, &c.data).unwrap()
        })
        .join();
        match got {
            Ok(g) => same_as_first("another thread", g)?,
            Err(_) => return Err(format!("building on another thread panicked\n{}", case.describe())),
        }
        ctx.count("repetitions on another thread");
    }
    ctx.count("engines rebuilt");
    ctx.count(if first.0.ok() { "renders ok" } else { "renders failed" });
    ctx.feats(&feats);
    ctx.case(&key_of(&case), true);
    Ok(())
}

// ---------------------------------------------------------------------------
// C30
// ---------------------------------------------------------------------------

fn no_ref_args() -> Vec<&'static str> {
    funcs::FILTERS.iter().map(|f| f.name()).filter(|n| !["cat", "join4"].contains(n)).collect()
}

/// A text that runs into a tag (`{` before `{{`) makes another program than was meant.
fn rejected(c: &Case) -> bool {
    let pats = c.syn.patterns();
    c.sources().any(|s| parse::parse(&pats, s, Opts { unicode: true }).is_err())
}

fn c30(ctx: &mut Ctx) -> Result<(), String> {
    let r = &mut ctx.rng;
    let mut data = gen::context(r);
    if let (Value::Map(m), true) = (&mut data, r.one_in(6)) {
        m.insert("list".into(), Value::List((0..r.range(5, 40)).map(|i| gen::value(&mut Rng::new(i as u64), 2)).collect()));
    }
    let p = Profile {
        space: 0,
        trim: 0,
        lit: 10,
        recur: 0,
        filters: *r.pick(&[15, 40, 70]),
        err: *r.pick(&[0, 0, 0, 2, 8, 20]),
        opt: *r.pick(&[20, 20, 60]),
        for_: 20,
        only: no_ref_args(),
        same_names: r.bool(),
        ..Default::default()
    };
    let seed = r.u64();
    let writer = r.bool();
    let fmt = gen::any_fmt(r);
    let make = |twist: Twist| {
        let mut r = Rng::new(seed);
        let mut g = Gen::new(&mut r, Profile { twist, ..p.clone() }, Syn::default(), &data);
        let src = g.template();
        let templates = std::mem::take(&mut g.templates);
        Case { templates, writer, default_fmt: fmt, ..Case::simple(src, data.clone()) }
    };
    let a = make(Twist::None);
    let (label, b) = match r.below(6) {
        0 => ("through id", make(Twist::Filter("id"))),
        1 => ("through idr", make(Twist::Filter("idr"))),
        2 | 3 => ("bound with a with block", make(Twist::With)),
        4 => ("from a value function", Case { mode: CtxMode::Fn, ..a.clone() }),
        _ => {
            // The whole context as the computed context of an include.
            let mut b = a.clone();
            let Root::Anon(src) = &b.root else { unreachable!() };
            b.templates.push(("whole".into(), src.clone()));
            let e = *r.pick(&["root | id", "root", "root | idr | id"]);
            b.root = Root::Anon(format!("{{% include \"whole\" with {e} %}}"));
            b.data = map([("root", a.data.clone())]);
            ("as an include's context", b)
        }
    };
    if ctx.verbose {
        println!("{}\n{label}:\n{}", a.describe(), b.describe());
    }
    let run = |c: &Case| run_real(c).map_err(|b| format!("panic {b:?}\n{}", c.describe()));
    if rejected(&a) || rejected(&b) {
        ctx.count("not a valid program (not judged)");
        return Ok(());
    }
    let (ga, gb) = (run(&a)?, run(&b)?);
    let (Some(x), Some(y)) = (&ga.render, &gb.render) else {
        return Err(format!("did not compile: {} {}\n{}{}", ga.root.brief(), gb.root.brief(), a.describe(), b.describe()));
    };
    for (n, g) in [("plain", x), (label, y)] {
        if let Res::Boom(b) = &g.res {
            return Err(format!("{n}: panic {b:?}\n{}", a.describe()));
        }
    }
    // How far a failing render got is not compared for values that fail to be bound.
    let eq = x.res.ok() == y.res.ok() && (!x.res.ok() || x.out == y.out);
    if !eq {
        return Err(format!(
            "{label}: {} {:?}; plainly: {} {:?}\nplain\n{}{label}\n{}",
            y.res.brief(),
            y.out,
            x.res.brief(),
            x.out,
            a.describe(),
            b.describe()
        ));
    }
    ctx.count(label);
    ctx.count(if x.res.ok() { "equal outputs" } else { "both failed" });
    ctx.add("output bytes compared", x.out.as_ref().map_or(0, |o| o.len()) as u64);
    ctx.case(&format!("{label}{}", key_of(&a)), true);
    Ok(())
}

// ---------------------------------------------------------------------------
// C31
// ---------------------------------------------------------------------------

fn c31(ctx: &mut Ctx) -> Result<(), String> {
    let r = &mut ctx.rng;
    let mut data = gen::context(r);
    let n_items = match r.below(6) {
        0 => 0,
        1 => r.range(5, 20),
        _ => r.range(1, 4),
    };
    if let Value::Map(m) = &mut data {
        m.insert("one".into(), Value::List(vec![gen::value(r, 2)]));
        m.insert("onem".into(), Value::Map(Map::from([(gen::key(r), gen::value(r, 2))])));
        let items = (0..n_items).map(|_| gen::value(r, 2)).collect();
        m.insert("items".into(), Value::List(items));
    }
    let p = Profile {
        recur: 0,
        trim: *r.pick(&[0, 0, 25]),
        comment: *r.pick(&[4, 20]),
        wild: 0,
        err: *r.pick(&[0, 0, 0, 3]),
        bad_fn: *r.pick(&[0, 0, 5]),
        include: 4,
        raw: 24,
        ..Default::default()
    };
    let mut g = Gen::new(r, p, Syn::default(), &data);
    // A brace in front of a tag would become part of it.
    let apart = |mut t: String| {
        if t.ends_with('{') {
            t.push('.');
        }
        // A tag that trims across the seam is kept away from it.
        let (head, tail) = (t.trim_start(), t.trim_end());
        let faces = (head.starts_with("{{-") || head.starts_with("{%-") || head.starts_with("{#-"), tail.ends_with("-}}") || tail.ends_with("-%}") || tail.ends_with("-#}"));
        if faces.0 {
            t.insert(0, '.');
        }
        if faces.1 {
            t.push('.');
        }
        t
    };
    let pre = apart(g.template());
    let unroll = g.r.pct(25);
    // In the middle, perhaps inside a block of its own.
    let outer = if unroll { 0 } else { g.r.below(4) };
    let sample = match &data {
        Value::Map(m) => m["items"].clone(),
        _ => unreachable!(),
    };
    let first = match &sample {
        Value::List(l) => l.first().cloned(),
        _ => None,
    };
    if unroll || outer == 1 {
        g.bind("item", first.clone());
    } else if outer == 2 {
        g.bind("name", Some(Value::Integer(7)));
    }
    let frag = apart(g.template());
    if unroll || outer == 1 || outer == 2 {
        g.unbind();
    }
    let post = apart(g.template());
    let templates = std::mem::take(&mut g.templates);
    drop(g);
    let wrap = |f: &str| match outer {
        1 => format!("{pre}{{% for item in items %}}{f}{{% endfor %}}{post}"),
        2 => format!("{pre}{{% with 7 as name %}}{f}{{% endwith %}}{post}"),
        3 => format!("{pre}{{% if true %}}{f}{{% else %}}no{{% endif %}}{post}"),
        _ => format!("{pre}{f}{post}"),
    };
    if rejected(&Case { templates: templates.clone(), ..Case::simple(format!("{pre}{frag}{post}"), Value::None) }) {
        ctx.count("not a valid program (not judged)");
        return Ok(());
    }
    let mut extra = templates.clone();
    let uses_loop = frag.contains("loop") || templates.iter().any(|t| t.1.contains("loop"));
    let depth = Some(1000);
    let case = |src: String, t: &[(String, String)]| Case { templates: t.to_vec(), depth_engine: depth, ..Case::simple(src, data.clone()) };
    let run = |c: &Case| run_real(c).map_err(|b| format!("panic {b:?}\n{}", c.describe()));
    let kind_of = |r: &Res| match r {
        Res::Err(e) => format!("{:?} {:?}", e.kind, e.reason),
        r => r.brief(),
    };
    let get = |c: &Case, g: &Got| -> Result<Rendered, String> {
        g.render.clone().ok_or_else(|| format!("did not compile: {}\n{}", g.root.brief(), c.describe()))
    };
    if r.pct(30) && !unroll {
        // Concatenation. A text between keeps the two apart where they could run together.
        let (a, b) = (case(pre.clone(), &templates), case(frag.clone(), &templates));
        let c = case(format!("{pre}{frag}"), &templates);
        let (x, y, z) = (get(&a, &run(&a)?)?, get(&b, &run(&b)?)?, get(&c, &run(&c)?)?);
        let want_res = if x.res.ok() { &y.res } else { &x.res };
        if kind_of(want_res) != kind_of(&z.res) {
            return Err(format!("concatenation: expected {}, observed {}\n{}", kind_of(want_res), kind_of(&z.res), c.describe()));
        }
        if x.res.ok() && y.res.ok() {
            let want = x.out.clone().unwrap() + &y.out.clone().unwrap();
            if z.out.as_deref() != Some(&want) {
                return Err(format!("concatenation: {}\n  first:  {pre:?}\n  second: {frag:?}\n{}", diff(&want, &z.out.unwrap_or_default()), c.describe()));
            }
            ctx.count("concatenations equal");
        } else {
            ctx.count("concatenations failing alike");
        }
        ctx.case(&format!("+{}", key_of(&c)), true);
        return Ok(());
    }
    let a = case(
        if unroll { format!("{pre}{{% for item in items %}}{frag}{{% endfor %}}{post}") } else { wrap(&frag) },
        &templates,
    );
    let (label, b) = if unroll {
        if uses_loop {
            return Ok(());
        }
        let copies: String = (0..n_items).map(|i| format!("{{% with items.{i} as item %}}{frag}{{% endwith %}}")).collect();
        ("unrolled", case(format!("{pre}{copies}{post}"), &templates))
    } else {
        let pick = r.below(9);
        let pick = if (pick == 5 || pick == 6) && uses_loop { 0 } else { pick };
        match pick {
            0 | 1 => {
                extra.push(("the fragment".into(), frag.clone()));
                ("extracted", case(wrap("{% include \"the fragment\" %}"), &extra))
            }
            2 => ("in a true if", case(wrap(&format!("{{% if {} %}}{frag}{{% endif %}}", r.pick(&["true", "not false", "1", "\"x\"", "onem"]))), &templates)),
            3 => ("in an else", case(wrap(&format!("{{% if {} %}}no{{% else %}}{frag}{{% endif %}}", r.pick(&["false", "not true", "0", "\"\""]))), &templates)),
            4 => ("in an else if", case(wrap(&format!("{{% if false %}}no{{% else if true %}}{frag}{{% else %}}no{{% endif %}}")), &templates)),
            5 => ("in a loop of one", case(wrap(&format!("{{% for zq in one %}}{frag}{{% endfor %}}")), &templates)),
            6 => ("in a loop over a map of one", case(wrap(&format!("{{% for zq, zr in onem %}}{frag}{{% endfor %}}")), &templates)),
            7 => ("in an unused with", case(wrap(&format!("{{% with {} as zq %}}{frag}{{% endwith %}}", r.pick(&["1", "one", "onem", "\"x\" | id"]))), &templates)),
            _ => {
                // Twice over.
                extra.push(("inner".into(), frag.clone()));
                extra.push(("outer".into(), "{% with 0 as zq %}{% if not zq %}{% include \"inner\" %}{% endif %}{% endwith %}".into()));
                ("extracted twice", case(wrap("{% include \"outer\" %}"), &extra))
            }
        }
    };
    if ctx.verbose {
        println!("{}\n{label}:\n{}", a.describe(), b.describe());
    }
    let (x, y) = (get(&a, &run(&a)?)?, get(&b, &run(&b)?)?);
    if kind_of(&x.res) != kind_of(&y.res) || x.out != y.out {
        return Err(format!(
            "{label}: {} {:?}; before: {} {:?}\nbefore\n{}{label}\n{}",
            y.res.brief(),
            y.out,
            x.res.brief(),
            x.out,
            a.describe(),
            b.describe()
        ));
    }
    ctx.count(label);
    ctx.count(if x.res.ok() { "equal outputs" } else { "failing alike" });
    ctx.add("output bytes compared", x.out.as_ref().map_or(0, |o| o.len()) as u64);
    ctx.case(&format!("{label}{}", key_of(&a)), true);
    Ok(())
}

const MODEL: &[&str] = &[
    "the reference semantics (harness/src/model) states the documented language correctly; it was written from the documentation and is independent of the crate's code",
    "programs, data and callbacks are drawn from the generators described in DESIGN.md; behaviour outside their reach is not observed",
];
const DRAWN: &[&str] = &["programs, data and callbacks are drawn from the generators described in DESIGN.md; behaviour outside their reach is not observed"];

pub fn props() -> Vec<Prop> {
    let _ = Fmt::Builtin;
    vec![
        Prop {
            id: "C02",
            level: "exploration",
            rule: "generated programs with many faults, mutated programs and soups that happen to compile, on contexts that do not fit or are not maps, with failing callbacks, resolvers, eight default formatters, strings and writers, all three ways of passing the context, small depth limits and large programs; panics are caught, aborts and hangs are seen by a process monitor, every error is formatted in four forms; distinct by sources and data",
            quick: 250_000,
            thorough: 8_000_000,
            run: c02,
            mins: &[("renders ok", 20_000), ("renders failed", 60_000), ("renders of something else than a map", 5_000)],
            assumptions: DRAWN,
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "constructed conditionals of one to thirty arms, nested, in loops, with blocks and includes, over an explicit list of truthy and falsy values reached as literals, paths and filter results, expected output and evaluated conditions known by construction; plus generated programs dominated by conditionals compared with the reference semantics (output and callback trace); distinct by sources and data",
            quick: 250_000,
            thorough: 8_000_000,
            run: c10,
            mins: &[("constructed conditionals", 80_000), ("condition and body events compared", 100_000)],
            assumptions: MODEL,
        },
        Prop {
            id: "C14",
            level: "exploration",
            rule: "chains, self-recursive countdowns, tree walks, endless recursion, many siblings and generated include-heavy programs, whose needed depth is computed by the reference semantics, rendered with limits two below to two above that depth, and 0, 1, 2, 63, 64, 65 and the default, on the engine, the renderer or both, and rendered again without the renderer's limit; distinct by sources, data and limits, non-trivial when something is included",
            quick: 120_000,
            thorough: 4_000_000,
            run: c14,
            mins: &[("succeeded exactly at the limit", 8_000), ("failed one above the limit", 8_000), ("succeeded below the limit", 10_000)],
            assumptions: MODEL,
        },
        Prop {
            id: "C19",
            level: "exploration",
            rule: "damaged programs, almost-valid tags and structures (syntax errors) and programs with many faults and failing callbacks (render errors) inside multi-line, multi-byte, wide, tabbed and CRLF text, in roots and included templates with names that look like locations; name, line, column, quoted line and underline of the alternate display compared with the span the reference semantics computes; distinct by sources and data",
            quick: 250_000,
            thorough: 8_000_000,
            run: c19,
            mins: &[("syntax error locations compared", 40_000), ("render error locations compared", 30_000), ("locations in a named template", 15_000)],
            assumptions: MODEL,
        },
        Prop {
            id: "C20",
            level: "exploration",
            rule: "faulty programs with a failure injected into the n-th callback (filters, formatters, resolver, value function), syntax errors, serializers failing at the n-th node, writers failing after n bytes alone or together with another failure; kind, reason and source of the error compared with what was injected or what the reference semantics predicts; distinct by sources and data",
            quick: 200_000,
            thorough: 6_000_000,
            run: c20,
            mins: &[("renders failed", 40_000), ("serialize errors", 8_000), ("io errors", 4_000), ("io error before another failure", 800), ("failures before the writer's limit", 2_000), ("syntax errors", 5_000)],
            assumptions: MODEL,
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "generated programs rendered from the same data passed by reference, serialized, serialized as a value, converted first, and through a value function, standalone and stored, from owned and borrowed text; outputs, errors and callbacks compared with each other, and the paths seen by the value function with the reference semantics; distinct by sources and data",
            quick: 80_000,
            thorough: 3_000_000,
            run: c24,
            mins: &[("renders ok", 20_000), ("renders failed", 5_000), ("paths seen by value functions", 100_000)],
            assumptions: MODEL,
        },
        Prop {
            id: "C26",
            level: "exploration",
            rule: "generated programs rendered repeatedly on one engine with failing, panicking and otherwise different renders in between, then on engines rebuilt in the same and another order and on other threads; a few small ones up to 140 000 times; result, output and callback trace compared with the first render; distinct by sources and data",
            quick: 80_000,
            thorough: 3_000_000,
            run: c26,
            mins: &[("repetitions compared", 80_000), ("interleaved panicking renders", 8_000), ("interleaved failing renders", 10_000), ("engines rebuilt", 30_000)],
            assumptions: DRAWN,
        },
        Prop {
            id: "C30",
            level: "exploration",
            rule: "the same generated program printed twice, once plainly and once with every value computed by an identity filter, bound by a with block, supplied by a value function or reached through a computed include context; outputs compared with each other; distinct by way, sources and data",
            quick: 150_000,
            thorough: 5_000_000,
            run: c30,
            mins: &[("equal outputs", 40_000), ("through id", 8_000), ("bound with a with block", 15_000), ("as an include's context", 8_000)],
            assumptions: DRAWN,
        },
        Prop {
            id: "C31",
            level: "exploration",
            rule: "generated fragments with text and tags around them, concatenated, extracted into an included template, wrapped in true conditionals, one-element loops and unused with blocks, and loops unrolled; outputs and errors compared with each other; distinct by transformation, sources and data",
            quick: 150_000,
            thorough: 5_000_000,
            run: c31,
            mins: &[("equal outputs", 15_000), ("concatenations equal", 6_000), ("unrolled", 3_000), ("extracted", 2_500)],
            assumptions: DRAWN,
        },
    ]
}
