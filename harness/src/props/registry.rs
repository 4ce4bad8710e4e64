//! C28: the engine's registries as maps.

use crate::check::{Ctx, Prop};
use crate::funcs::{self, Cb, FilterKind, Fmt, Func};
use crate::gen;
use crate::model::eval::{CtxMode, Kind};
use crate::model::parse::{self, Opts};
use crate::model::syn::Syn;
use crate::obs::{self, compare_render, guard, render_with, res, run_model, Boom, Case, Judge, RenderHow, Rendered, Res, Root, RootRef};
use crate::rng::Rng;
use crate::val::Value;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::rc::Rc;

const NAMES: &[&str] = &["a", "A", "a ", " a", "", "b", "ab", "a.html", "a/b", "e\u{301}", "\u{e9}", "\u{c9}", "f", "g", "up", "<anonymous>", "x\"y", "base", "a\0", "long name with spaces"];
const FNS: &[&str] = &["f", "g", "F", "ff", "f_1", "up", "a", "default", "\u{e9}", "e\u{301}", "fmt", "len"];
/// Never usable in a template, but names all the same.
const ODD_FNS: &[&str] = &["", "a b", "1", "f ", "if"];

const FILTERS: &[FilterKind] = &[FilterKind::Id, FilterKind::Idr, FilterKind::Tostr, FilterKind::Nothing, FilterKind::Len, FilterKind::Pair, FilterKind::Eq, FilterKind::Fail];
const FMTS: &[Fmt] = &[Fmt::Builtin, Fmt::Dump, Fmt::Esc, Fmt::Chars, Fmt::Nothing, Fmt::Strict, Fmt::Rep, Fmt::Err, Fmt::Stock, Fmt::Fallback];

/// A few of the names, so that they meet.
struct Pool {
    names: Vec<&'static str>,
    fns: Vec<&'static str>,
}

fn source(r: &mut Rng, data: &Value, p: &Pool, depth: usize) -> String {
    let Value::Map(m) = data else { unreachable!() };
    let keys: Vec<&String> = m.keys().collect();
    let mut t = String::new();
    for _ in 0..r.range(0, 3) {
        let x = r.pick(&keys).to_string();
        let f = *r.pick(&p.fns);
        match r.below(11) {
            0 => t.push_str(*r.pick(&["text ", "\n", "{ ", "\u{e9}"])),
            1 => t.push_str(&format!("{{{{ {x} }}}}")),
            2 => t.push_str(&format!("{{{{ {x} | {f} }}}}")),
            3 if r.bool() => t.push_str(&format!("{{{{ {x} | {f}: {} }}}}", r.below(3))),
            4 => t.push_str(&format!("{{{{ {x} | {f} | {} }}}}", r.pick(&p.fns))),
            7..=8 => t.push_str(&format!("{{{{ {x} }}}} ")),
            5 if depth > 0 => t.push_str(&format!("{{% if {x} | {f} %}}{}{{% else %}}n{{% endif %}}", source(r, data, p, depth - 1))),
            6 if depth > 0 => t.push_str(&format!("{{% with {x} | {f} as w %}}{{{{ w | {} }}}}{}{{% endwith %}}", r.pick(&p.fns), source(r, data, p, depth - 1))),
            _ => {
                let n = *r.pick(&p.names);
                t.push_str(&format!("{{% include {} %}}", gen::str_literal(r, n)));
            }
        }
    }
    t
}

const BAD: &[&str] = &["{{", "{% if x %}", "{{ x | }}", "{% endif %}", "text {{ 1.2.3 }}", "{% for %}", "a\nb {% include x %}", "{{ \"open }}", "{{ a.b. }}", "{# never closed"];

/// Kept for good, once each.
pub fn intern(s: String) -> &'static str {
    thread_local! {
        static ALL: std::cell::RefCell<std::collections::BTreeSet<&'static str>> = const { std::cell::RefCell::new(std::collections::BTreeSet::new()) };
    }
    ALL.with(|a| {
        let mut a = a.borrow_mut();
        match a.get(s.as_str()) {
            Some(x) => x,
            None => {
                let x: &'static str = Box::leak(s.into_boxed_str());
                a.insert(x);
                x
            }
        }
    })
}

struct One {
    engine: upon::Engine<'static>,
    templates: BTreeMap<String, String>,
    funcs: BTreeMap<String, Func>,
    default_fmt: Fmt,
    depth: Option<usize>,
    held: Vec<(upon::Template<'static>, String)>,
    /// Every name that this history may use.
    names: Rc<Vec<&'static str>>,
}

fn any_func(r: &mut Rng) -> Func {
    if r.bool() {
        Func::Filter(*r.pick(FILTERS))
    } else {
        Func::Formatter(*r.pick(FMTS))
    }
}

fn kind_of(f: &Func) -> upon::EngineFn {
    match f {
        Func::Filter(_) => upon::EngineFn::Filter,
        Func::Formatter(_) => upon::EngineFn::Formatter,
    }
}

impl One {
    fn case(&self, root: Root, data: &Value, mode: CtxMode) -> Case {
        Case {
            templates: self.templates.iter().map(|(n, t)| (n.clone(), t.clone())).collect(),
            root,
            mode,
            funcs: self.funcs.iter().map(|(n, f)| (n.clone(), *f)).collect(),
            default_fmt: self.default_fmt,
            depth_engine: self.depth,
            ..Case::simple("", data.clone())
        }
    }

    /// Renders and compares.
    fn render(&self, ctx: &mut Ctx, case: &Case, root: RootRef<'_>) -> Result<(), String> {
        let want = run_model(case);
        let Some(w) = &want.render else { return Err("harness: no expectation".into()) };
        if w.over_budget {
            return Ok(());
        }
        let local = BTreeMap::new();
        let how = RenderHow { mode: case.mode, resolver: false, writer: true, depth: None };
        let (res, out, cb) = render_with(&self.engine, &local, root, how, Cb::default(), &case.data);
        let g = Rendered { res, out, trace: cb.trace };
        compare_render(w, &g, Judge::all())?;
        ctx.count("renders compared");
        ctx.count(match &w.res {
            Ok(()) => "renders ok",
            Err(e) => match e.kind {
                Kind::Render => "render errors",
                Kind::Filter => "filter errors",
                _ => "format errors",
            },
        });
        Ok(())
    }

    fn named(&self, ctx: &mut Ctx, name: &str, data: &Value, mode: CtxMode) -> Result<(), String> {
        let g = self.engine.get_template(name);
        match (self.templates.get(name), g) {
            (None, None) => Ok(()),
            (Some(_), None) => Err(format!("there is no template {name:?}")),
            (None, Some(t)) => Err(format!("there is a template {name:?}: {:?}", t.source())),
            (Some(src), Some(t)) => {
                if t.source() != src {
                    return Err(format!("template {name:?} has the source {:?}, not {src:?}", t.source()));
                }
                self.render(ctx, &self.case(Root::Named(name.into()), data, mode), RootRef::Ref(t))
            }
        }
    }

    fn held(&self, ctx: &mut Ctx, k: usize, data: &Value, mode: CtxMode) -> Result<(), String> {
        self.one_held(ctx, &self.held[k], data, mode)
    }

    /// A compiled template, of this engine or of another.
    fn one_held(&self, ctx: &mut Ctx, (t, src): &(upon::Template<'static>, String), data: &Value, mode: CtxMode) -> Result<(), String> {
        if t.source() != src {
            return Err(format!("a compiled template has the source {:?}, not {src:?}", t.source()));
        }
        self.render(ctx, &self.case(Root::Anon(src.clone()), data, mode), RootRef::Tpl(t))
    }

    /// Every name is asked for.
    fn audit(&self, ctx: &mut Ctx, data: &Value, mode: CtxMode) -> Result<(), String> {
        for n in self.names.iter() {
            self.named(ctx, n, data, mode)?;
            if !self.templates.contains_key(*n) {
                match guard(|| {
                    self.engine.template(n);
                }) {
                    Err(Boom::Own(m)) if m.contains(n) => ctx.count("panics for unknown templates"),
                    x => return Err(format!("template({n:?}), which does not exist: {x:?}")),
                }
            }
        }
        for k in 0..self.held.len() {
            self.held(ctx, k, data, mode)?;
        }
        ctx.count("audits");
        Ok(())
    }
}

/// Tens of thousands of operations on one engine, most of them on a few names.
fn soak(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut e = upon::Engine::new();
    let mut templates: BTreeMap<String, String> = BTreeMap::new();
    let mut fns: BTreeMap<String, Func> = BTreeMap::new();
    let n = if r.one_in(3) { 140_000 } else { crate::props::scale::near(r, 80_000) };
    // How many different names: a few, or nearly all.
    let spread = *r.pick(&[3, 40, 300, n]);
    let (adds, subs) = *r.pick(&[(100, 0), (60, 40), (50, 50), (80, 20)]);
    let fixed: Vec<String> = (0..5).map(|i| format!("fixed{i}")).collect();
    for f in &fixed {
        e.add_template(f.clone(), format!("[{f}{{{{ x | {f} }}}}]")).map_err(|x| x.to_string())?;
        templates.insert(f.clone(), format!("[{f}{{{{ x | {f} }}}}]"));
        let k = Func::Filter(*r.pick(&[FilterKind::Id, FilterKind::Tostr, FilterKind::Idr]));
        funcs::register(&mut e, f, k);
        fns.insert(f.clone(), k);
    }
    let data = Value::from([("x", 7i64)]);
    for i in 0..n {
        let name = format!("n{}", r.below(spread));
        let tail = |m: String| Err(format!("operation {i} of a long history on {name:?}: {m}"));
        if r.one_in(4) {
            if r.below(100) < adds {
                let f = any_func(r);
                let got = funcs::register(&mut e, &name, f);
                let want = fns.insert(name.clone(), f).as_ref().map(kind_of);
                if got != want {
                    return tail(format!("adding a function: expected {want:?}, observed {got:?}"));
                }
            } else {
                let got = e.remove_function(&name);
                let want = fns.remove(&name).as_ref().map(kind_of);
                if got != want {
                    return tail(format!("removing a function: expected {want:?}, observed {got:?}"));
                }
            }
        } else if r.below(100) < adds || subs == 0 {
            let src = format!("<{i}{{{{ x }}}}>");
            if let Err(x) = e.add_template(name.clone(), src.clone()) {
                return tail(format!("adding a template: {x:#}"));
            }
            templates.insert(name.clone(), src);
        } else {
            let got = e.remove_template(&name);
            let want = templates.remove(&name).is_some();
            if got != want {
                return tail(format!("removing a template: expected {want}, observed {got}"));
            }
        }
        ctx.count("operations of long histories");
        // Something that is there, something that may not be, and what was put there first.
        if r.one_in(16) || i + 200 > n {
            let other = format!("n{}", r.below(spread));
            for name in [&name, &other, r.pick(&fixed)] {
                let got = e.get_template(name).map(|t| (t.source().to_string(), guard(|| t.render(&data).to_string().map_err(|e| e.to_string()))));
                let want = templates.get(name);
                let text = want.map(|w| match name.starts_with("fixed") {
                    true => format!("[{name}7]"),
                    false => w.replace("{{ x }}", "7"),
                });
                let good = match (&got, want) {
                    (None, None) => true,
                    (Some((src, Ok(Ok(out)))), Some(w)) => src == w && Some(out) == text.as_ref(),
                    _ => false,
                };
                if !good {
                    return tail(format!("{name:?} is {got:?}, expected {want:?}"));
                }
                ctx.count("lookups of long histories");
            }
        }
    }
    for (n, src) in &templates {
        if e.get_template(n).map(|t| t.source().to_string()).as_ref() != Some(src) {
            return Err(format!("after {} operations: {n:?} is {:?}, expected {src:?}", n, e.get_template(n)));
        }
        if !e.remove_template(n) {
            return Err(format!("{n:?} cannot be removed"));
        }
    }
    for (n, f) in &fns {
        let got = e.remove_function(n);
        if got != Some(kind_of(f)) {
            return Err(format!("{n:?} is {got:?}, expected {f:?}"));
        }
    }
    for n in templates.keys() {
        if e.get_template(n).is_some() || e.remove_template(n) {
            return Err(format!("{n:?} is still there"));
        }
    }
    ctx.max("operations on one engine", n as u64);
    ctx.count("long histories");
    Ok(())
}

fn c28(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.idx % 2000 == 7 {
        return soak(ctx);
    }
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut data = gen::context(r);
    if let Value::Map(m) = &mut data {
        m.retain(|k, _| gen::ident_ok(k));
        m.insert("x".into(), Value::Integer(7));
        m.insert("y".into(), Value::String("<y>".into()));
    }
    // Names that are easily confused with those.
    let known: Vec<String> = NAMES.iter().chain(FNS).map(|s| s.to_string()).collect();
    let mut names = NAMES.to_vec();
    let mut fns = FNS.to_vec();
    let mut odd = ODD_FNS.to_vec();
    if r.bool() {
        for _ in 0..r.range(1, 5) {
            let n = intern(gen::tpl_name(r, &known[..NAMES.len()]));
            if !names.contains(&n) {
                names.push(n);
            }
            let n = intern(gen::ident(r, &known[NAMES.len()..]));
            if !fns.contains(&n) {
                fns.push(n);
            }
            let n = intern(gen::tpl_name(r, &known[NAMES.len()..]));
            if !odd.contains(&n) && !fns.contains(&n) {
                odd.push(n);
            }
        }
    }
    let late = |r: &mut Rng, v: &[&'static str]| if r.bool() { v[v.len() - 1 - r.below(v.len().min(6))] } else { *r.pick(v) };
    let p = Pool { names: (0..5).map(|_| late(r, &names)).collect(), fns: (0..5).map(|_| late(r, &fns)).collect() };
    let names = Rc::new(names);
    // Two engines, that must not notice each other.
    let mut es: Vec<One> = (0..2)
        .map(|_| One { engine: upon::Engine::new(), templates: BTreeMap::new(), funcs: BTreeMap::new(), default_fmt: Fmt::Builtin, depth: None, held: vec![], names: names.clone() })
        .collect();
    let mut log: Vec<String> = vec![];
    let steps = r.range(3, 50);
    let mut hash = String::new();
    let pats = Syn::default().patterns();
    for _ in 0..steps {
        let w = if r.pct(75) { 0 } else { 1 };
        let mode = *r.pick(&[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn]);
        let name = if r.one_in(15) { r.pick(&names) } else { r.pick(&p.names) }.to_string();
        let fname = if r.one_in(12) { r.pick(&odd) } else { r.pick(&p.fns) }.to_string();
        let (left, right) = es.split_at_mut(1);
        let (e, other) = if w == 0 { (&mut left[0], &right[0]) } else { (&mut right[0], &left[0]) };
        let step = (|| -> Result<(String, Option<String>), String> {
            Ok(match r.below(16) {
                0..=3 => {
                    let src = if r.one_in(4) {
                        let mut t = source(r, &data, &p, 1);
                        t.push_str(*r.pick(BAD));
                        if r.bool() {
                            t.push_str(&source(r, &data, &p, 1));
                        }
                        t
                    } else {
                        source(r, &data, &p, 2)
                    };
                    let good = parse::parse(&pats, &src, Opts { unicode: true });
                    let borrowed = r.bool();
                    let op = format!("add_template({name:?}, {src:?})");
                    let (n, s) = (name.clone(), src.clone());
                    let (x, _) = res(guard(|| {
                        if borrowed {
                            // Leaks a little; the engine wants these for its own lifetime.
                            let n: &'static str = names.iter().find(|x| **x == n).unwrap();
                            e.engine.add_template(n, Cow::Owned(s))
                        } else {
                            e.engine.add_template(n, s)
                        }
                    }));
                    let err = match (&good, &x) {
                        (Ok(_), Res::Ok) => {
                            if e.templates.insert(name.clone(), src).is_some() {
                                ctx.count("templates replaced");
                            }
                            ctx.count("templates added");
                            None
                        }
                        (Err(m), Res::Err(o)) => {
                            ctx.count("templates refused");
                            if o.kind != Some(Kind::Syntax) {
                                Some(format!("not a syntax error: {}", o.plain))
                            } else {
                                obs::check_loc(o, &src, m.span, Some(&name)).err()
                            }
                        }
                        (_, x) => Some(format!("expected {}, observed {}", if good.is_ok() { "success" } else { "a syntax error" }, x.brief())),
                    };
                    (op, err)
                }
                4 => {
                    let got = e.engine.remove_template(&name);
                    let want = e.templates.remove(&name).is_some();
                    if want {
                        ctx.count("templates removed");
                    }
                    (format!("remove_template({name:?})"), (got != want).then(|| format!("expected {want}, observed {got}")))
                }
                5..=7 => {
                    let f = any_func(r);
                    let got = funcs::register(&mut e.engine, &fname, f);
                    let old = e.funcs.insert(fname.clone(), f);
                    let want = old.as_ref().map(kind_of);
                    if old.is_some_and(|o| o != f) {
                        ctx.count("functions replaced");
                    }
                    ctx.count("functions added");
                    (format!("add {f:?} as {fname:?}"), (got != want).then(|| format!("expected {want:?}, observed {got:?}")))
                }
                8 => {
                    let got = e.engine.remove_function(&fname);
                    let want = e.funcs.remove(&fname).as_ref().map(kind_of);
                    if want.is_some() {
                        ctx.count("functions removed");
                    }
                    (format!("remove_function({fname:?})"), (got != want).then(|| format!("expected {want:?}, observed {got:?}")))
                }
                9 => {
                    let src = source(r, &data, &p, 2);
                    let (x, t) = res(guard(|| e.engine.compile(src.clone())));
                    if let Some(t) = t {
                        e.held.push((t, src.clone()));
                        ctx.count("templates held");
                    }
                    (format!("compile({src:?})"), (!x.ok()).then(|| x.brief()))
                }
                10 => {
                    if !e.held.is_empty() {
                        let k = r.below(e.held.len());
                        e.held.swap_remove(k);
                    }
                    ("drop a compiled template".into(), None)
                }
                11 => {
                    let f = *r.pick(FMTS);
                    funcs::reset_default(&mut e.engine, f);
                    e.default_fmt = f;
                    (format!("set_default_formatter({f:?})"), None)
                }
                12 if r.one_in(3) => {
                    let d = *r.pick(&[0, 1, 2, 3, 64, 100]);
                    e.engine.set_max_include_depth(d);
                    e.depth = Some(d);
                    (format!("set_max_include_depth({d})"), None)
                }
                13 if r.one_in(3) => ("audit".into(), e.audit(ctx, &data, mode).err()),
                13 if !other.held.is_empty() => {
                    // What the template names is looked up where it is rendered.
                    let t = &other.held[r.below(other.held.len())];
                    ctx.count("templates of the other engine rendered");
                    (format!("render {:?}, compiled by the other engine", t.1), e.one_held(ctx, t, &data, mode).err())
                }
                _ => {
                    let k = r.below(e.held.len() + 1);
                    if k < e.held.len() {
                        (format!("render the compiled {:?}", e.held[k].1), e.held(ctx, k, &data, mode).err())
                    } else {
                        (format!("render {name:?}"), e.named(ctx, &name, &data, mode).err())
                    }
                }
            })
        })();
        let (op, err) = step?;
        hash.push_str(&op);
        log.push(format!("  engine {w}: {op}"));
        ctx.count("operations");
        if let Some(m) = err {
            return Err(format!("{m}\nafter\n{}\n  data {}", log.join("\n"), crate::val::dump(&data)));
        }
        if ctx.verbose {
            println!("{}", log.last().unwrap());
        }
    }
    for (w, e) in es.iter_mut().enumerate() {
        let tail = |m: String| format!("engine {w} at the end: {m}\nafter\n{}", log.join("\n"));
        e.audit(ctx, &data, CtxMode::Ref).map_err(tail)?;
        // Empty it.
        for n in fns.iter().chain(&odd) {
            let got = e.engine.remove_function(n);
            let want = e.funcs.remove(*n).as_ref().map(kind_of);
            if got != want || e.engine.remove_function(n).is_some() {
                return Err(tail(format!("removing the function {n:?}: expected {want:?}, observed {got:?}")));
            }
        }
        for n in names.iter().copied() {
            let got = e.engine.remove_template(n);
            let want = e.templates.remove(n).is_some();
            if got != want || e.engine.remove_template(n) {
                return Err(tail(format!("removing the template {n:?}: expected {want}, observed {got}")));
            }
        }
        e.audit(ctx, &data, CtxMode::Ref).map_err(tail)?;
    }
    ctx.count("histories");
    ctx.case(&hash, steps > 5);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        level: "exploration",
        rule: "random histories of 3 to 50 operations (add, replace, remove and look up templates and functions under twenty template and seventeen function names that are easily confused, compile, change the default formatter and the include limit, render) on two engines at once, each compared step by step with its own pair of maps and at the end asked for every name; every render is compared with the model of what is registered then; a few histories of up to 140 000 operations; distinct by history",
        quick: 60_000,
        thorough: 2_000_000,
        run: c28,
        mins: &[("operations", 600_000), ("templates of the other engine rendered", 5_000), ("templates replaced", 30_000), ("templates refused", 30_000), ("functions replaced", 30_000), ("renders compared", 400_000), ("renders ok", 150_000)],
        assumptions: &[],
    }]
}
