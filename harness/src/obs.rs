//! Running the real crate and observing everything it lets us observe.

use crate::funcs::{self, Cb, CbPanic, Fmt, Func};
use crate::model::eval::{answer, path_text, CtxMode, Eval, Kind, MErr, World};
use crate::model::parse::{self, Key, Opts, SynErr, Tpl};
use crate::model::syn::{Pat, Syn};
use crate::val::{dump, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ---------------------------------------------------------------------------
// Panics
// ---------------------------------------------------------------------------

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Boom {
    /// The crate panicked.
    Own(String),
    /// Our injected callback panic came through.
    Injected,
}

/// Runs code of the crate, turning a panic into data.
pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, Boom> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<CbPanic>() {
            Boom::Injected
        } else {
            Boom::Own(last_panic())
        }
    })
}

// ---------------------------------------------------------------------------
// Errors
// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Loc {
    pub name: String,
    pub line: usize,
    pub col: usize,
    pub text: String,
    pub mark_at: usize,
    pub mark_len: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OErr {
    pub kind: Option<Kind>,
    pub reason: Option<String>,
    pub loc: Option<Loc>,
    pub plain: String,
    pub alt: String,
    /// Display of the source error.
    pub source: Option<String>,
    /// Whether the debug form begins with the alternate display.
    pub shown: bool,
}

const KINDS: &[(&str, Kind)] = &[
    ("invalid syntax", Kind::Syntax),
    ("render error", Kind::Render),
    ("filter error", Kind::Filter),
    ("format error", Kind::Format),
    ("serialize error", Kind::Serialize),
    ("io error", Kind::Io),
];

pub fn observe(e: &upon::Error) -> OErr {
    use std::error::Error;
    let plain = e.to_string();
    let alt = format!("{e:#}");
    let shown = format!("{e:?}").starts_with(&alt);
    let _ = format!("{e:#?}");
    let mut kind = None;
    let mut reason = None;
    for (p, k) in KINDS {
        if let Some(rest) = plain.strip_prefix(p) {
            kind = Some(*k);
            reason = rest.strip_prefix(": ").map(|s| s.to_string());
            break;
        }
    }
    let loc = parse_loc(&alt);
    OErr { kind, reason, loc, plain, alt, source: e.source().map(|s| s.to_string()), shown }
}

fn parse_loc(alt: &str) -> Option<Loc> {
    let lines: Vec<&str> = alt.split('\n').collect();
    let i = lines.iter().position(|l| l.contains("--> "))?;
    // The name may have several lines.
    let (i, name, line, col) = (i..lines.len() - 1).filter(|k| lines[k + 1].trim_matches(' ') == "|").find_map(|k| {
        let head = lines[i..=k].join("\n");
        let mut it = head.split_once("--> ")?.1.rsplitn(3, ':');
        let col: usize = it.next()?.parse().ok()?;
        let line: usize = it.next()?.parse().ok()?;
        Some((k, it.next()?.to_string(), line, col))
    })?;
    let pre = format!("{line} | ");
    let j = (i + 1..lines.len()).find(|j| lines[*j].trim_start_matches(' ').starts_with(&pre))?;
    let text = lines[j].split_once(" | ")?.1.to_string();
    let under = lines.get(j + 1)?.split_once("| ")?.1;
    let mark_at = under.chars().take_while(|c| *c == ' ').count();
    let mark_len = under.chars().filter(|c| *c == '^').count();
    Some(Loc { name, line, col, text, mark_at, mark_len })
}

// ---------------------------------------------------------------------------
// Cases
// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Case {
    pub syn: Syn,
    pub templates: Vec<(String, String)>,
    /// Name in `templates` to render, or an anonymous source.
    pub root: Root,
    pub data: Value,
    pub funcs: Vec<(String, Func)>,
    pub default_fmt: Fmt,
    pub depth_engine: Option<usize>,
    pub depth_render: Option<usize>,
    pub mode: CtxMode,
    pub resolver: bool,
    pub fail_at: Option<usize>,
    pub writer: bool,
    /// The model allows identifiers that are not ASCII.
    pub unicode: bool,
}

#[derive(Clone, Debug)]
pub enum Root {
    Named(String),
    Anon(String),
}

impl Case {
    pub fn simple(src: impl Into<String>, data: Value) -> Case {
        Case {
            syn: Syn::default(),
            templates: vec![],
            root: Root::Anon(src.into()),
            data,
            funcs: funcs::library(),
            default_fmt: Fmt::Builtin,
            depth_engine: None,
            depth_render: None,
            mode: CtxMode::Ref,
            resolver: false,
            fail_at: None,
            writer: false,
            unicode: true,
        }
    }

    pub fn describe(&self) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        let clip = |t: &str| {
            if t.len() > 3000 {
                let mut k = 3000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                format!("{:?}... ({} bytes)", &t[..k], t.len())
            } else {
                format!("{t:?}")
            }
        };
        if self.syn != Syn::default() {
            let _ = writeln!(s, "  syntax:   {}", self.syn.describe());
        }
        for (n, t) in &self.templates {
            let _ = writeln!(s, "  template {n:?}: {}", clip(t));
        }
        match &self.root {
            Root::Named(n) => {
                let _ = writeln!(s, "  render:   {n:?}");
            }
            Root::Anon(t) => {
                let _ = writeln!(s, "  source:   {}", clip(t));
            }
        }
        let _ = writeln!(s, "  data:     {}", clip(&dump(&self.data)));
        let _ = writeln!(
            s,
            "  config:   ctx={:?} resolver={} default_fmt={:?} depth={:?}/{:?} fail_at={:?} writer={}",
            self.mode, self.resolver, self.default_fmt, self.depth_engine, self.depth_render, self.fail_at, self.writer
        );
        s
    }

    pub fn sources(&self) -> impl Iterator<Item = &str> {
        self.templates.iter().map(|t| t.1.as_str()).chain(match &self.root {
            Root::Anon(s) => Some(s.as_str()),
            _ => None,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Err(OErr),
    Boom(Boom),
}

impl Res {
    pub fn ok(&self) -> bool {
        matches!(self, Res::Ok)
    }
    pub fn err(&self) -> Option<&OErr> {
        match self {
            Res::Err(e) => Some(e),
            _ => None,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Res::Ok => "ok".into(),
            Res::Err(e) => format!("error {:?}", e.alt),
            Res::Boom(b) => format!("PANIC {b:?}"),
        }
    }
}

pub fn res<X>(r: Result<Result<X, upon::Error>, Boom>) -> (Res, Option<X>) {
    match r {
        Ok(Ok(x)) => (Res::Ok, Some(x)),
        Ok(Err(e)) => match guard(|| observe(&e)) {
            Ok(o) => (Res::Err(o), None),
            Err(b) => (Res::Boom(b), None),
        },
        Err(b) => (Res::Boom(b), None),
    }
}

/// What the real crate did with a case.
#[derive(Clone, Debug)]
pub struct Got {
    pub adds: Vec<Res>,
    pub root: Res,
    /// `None` if the root did not compile.
    pub render: Option<Rendered>,
}

#[derive(Clone, Debug)]
pub struct Rendered {
    pub res: Res,
    /// Known if rendering succeeded or went to a writer.
    pub out: Option<String>,
    pub trace: Vec<String>,
}

/// A `serde::Serialize` view of a value that is not `Value` itself.
pub struct Ser<'a>(pub &'a Value);

impl serde::Serialize for Ser<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self.0 {
            Value::None => s.serialize_none(),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Integer(i) => s.serialize_i64(*i),
            Value::Float(f) => s.serialize_f64(*f),
            Value::String(x) => s.serialize_str(x),
            Value::List(l) => {
                let mut q = s.serialize_seq(Some(l.len()))?;
                for x in l {
                    q.serialize_element(&Ser(x))?;
                }
                q.end()
            }
            Value::Map(m) => {
                let mut q = s.serialize_map(None)?;
                for (k, x) in m {
                    q.serialize_entry(k, &Ser(x))?;
                }
                q.end()
            }
        }
    }
}

/// The value function used by the harness.
pub fn value_fn(data: &Value, path: &[upon::ValueMember<'_>]) -> Result<Value, String> {
    let segs: Vec<(bool, Key)> = path
        .iter()
        .map(|m| {
            (
                m.op == upon::ValueAccessOp::Optional,
                match m.access {
                    upon::ValueAccess::Index(i) => Key::Idx(i),
                    upon::ValueAccess::Key(k) => Key::Name(k.to_string()),
                },
            )
        })
        .collect();
    if let Some(msg) = funcs::enter_real(format!("V {}", path_text(&segs))) {
        return Err(msg);
    }
    answer(data, &segs)
}

pub fn new_engine(syn: &Syn) -> upon::Engine<'static> {
    // A quarter of the cases name the default delimiters explicitly.
    if *syn == Syn::default() {
        match crate::model::syn::variant() % 32 {
            0..=7 => return upon::Engine::new(),
            8..=15 => return upon::Engine::default(),
            16..=23 => return upon::Engine::with_syntax(upon::Syntax::default()),
            _ => {}
        }
    }
    // The syntax carries the lifetime of the delimiters: one leaked copy each.
    thread_local! {
        static LEAKED: RefCell<Vec<&'static Syn>> = const { RefCell::new(vec![]) };
    }
    let syn: &'static Syn = LEAKED.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(k) = l.iter().position(|s| *s == syn) {
            return l[k];
        }
        if l.len() >= 64 {
            l.clear();
        }
        l.push(Box::leak(Box::new(syn.clone())));
        l[l.len() - 1]
    });
    upon::Engine::with_syntax(syn.to_upon())
}

/// Engines come to the same settings in different ways: things are set once or twice, in any
/// order, replaced and removed again.
fn history() -> usize {
    crate::model::syn::variant() >> 5
}

pub fn engine(case: &Case) -> upon::Engine<'static> {
    let mut e = new_engine(&case.syn);
    configure(&mut e, case);
    e
}

fn never(_: &mut upon::fmt::Formatter<'_>, _: &Value) -> upon::fmt::Result {
    panic!("a function that was replaced or removed is called")
}

fn configure(e: &mut upon::Engine<'static>, case: &Case) {
    let h = history();
    if h & 1 != 0 {
        for n in ["nope", "missing", "zz"] {
            e.add_formatter(n, never);
        }
        for (n, _) in &case.funcs {
            e.add_formatter(n.clone(), never);
        }
        for n in ["nope", "missing", "zz"] {
            e.remove_function(n);
        }
    }
    for (n, f) in &case.funcs {
        funcs::register(e, n, *f);
    }
    if h & 2 != 0 {
        // A function of some size: its address is its own.
        type Dyn = Box<dyn Fn(&mut upon::fmt::Formatter<'_>, &Value) -> upon::fmt::Result + Send + Sync>;
        static NEVER: std::sync::OnceLock<Dyn> = std::sync::OnceLock::new();
        e.set_default_formatter(NEVER.get_or_init(|| Box::new(never)));
        funcs::reset_default(e, case.default_fmt);
    } else {
        funcs::set_default(e, case.default_fmt);
    }
    if h & 4 != 0 {
        e.set_max_include_depth(0);
        e.set_max_include_depth(64);
    }
    if let Some(d) = case.depth_engine {
        e.set_max_include_depth(d);
    }
}

/// Decoy registered in the engine under every name when a resolver is used.
pub const DECOY: &str = "[decoy]";

pub struct Built {
    pub engine: upon::Engine<'static>,
    pub adds: Vec<Res>,
    pub local: BTreeMap<String, upon::Template<'static>>,
    pub root_res: Res,
    pub root: Option<upon::Template<'static>>,
}

pub fn build(case: &Case) -> Result<Built, Boom> {
    let h = history();
    let mut engine = guard(|| new_engine(&case.syn))?;
    if h & 8 == 0 {
        guard(|| configure(&mut engine, case))?;
    }
    let mut adds = vec![];
    let mut local = BTreeMap::new();
    for (n, t) in &case.templates {
        if case.resolver {
            let (r, t) = res(guard(|| engine.compile(t.clone())));
            adds.push(r);
            if let Some(t) = t {
                local.insert(n.clone(), t);
            }
        } else {
            // Another template of the same name is there first.
            let other = h & 16 != 0 && engine.get_template(n).is_none();
            if other {
                let _ = guard(|| engine.add_template(n.clone(), DECOY));
                if n.len() % 2 == 0 {
                    engine.remove_template(n);
                }
            }
            adds.push(res(guard(|| engine.add_template(n.clone(), t.clone()))).0);
            if other && !adds[adds.len() - 1].ok() {
                engine.remove_template(n);
            }
        }
    }
    if h & 8 != 0 {
        guard(|| configure(&mut engine, case))?;
    }
    if case.resolver {
        for (n, _) in &case.templates {
            let _ = guard(|| engine.add_template(n.clone(), DECOY));
        }
    }
    let (root_res, root) = match &case.root {
        Root::Named(_) => (Res::Ok, None),
        Root::Anon(t) => res(guard(|| engine.compile(t.clone()))),
    };
    Ok(Built { engine, adds, local, root_res, root })
}

/// Renders a built case once. `None` if there is nothing to render.
pub fn render(case: &Case, b: &Built, cb: Cb, data: &Value) -> Option<(Res, Option<String>, Cb)> {
    let r = RenderHow { mode: case.mode, resolver: case.resolver, writer: case.writer, depth: case.depth_render };
    let root = root_of(case, b)?;
    Some(render_with(&b.engine, &b.local, root, r, cb, data))
}

#[derive(Clone, Copy)]
pub struct RenderHow {
    pub mode: CtxMode,
    pub resolver: bool,
    pub writer: bool,
    pub depth: Option<usize>,
}

#[derive(Clone, Copy)]
pub enum RootRef<'a> {
    Tpl(&'a upon::Template<'static>),
    Ref(upon::TemplateRef<'a>),
}

pub fn render_with<'a>(
    engine: &'a upon::Engine<'static>,
    local: &'a BTreeMap<String, upon::Template<'static>>,
    root: RootRef<'a>,
    how: RenderHow,
    cb: Cb,
    data: &'a Value,
) -> (Res, Option<String>, Cb) {
    funcs::install(cb);
    let mut sink: Vec<u8> = vec![];
    let r = guard(|| {
        let r = renderer(engine, local, &root, how, data);
        if how.writer {
            r.to_writer(&mut sink).map(|()| None)
        } else {
            r.to_string().map(Some)
        }
    });
    let (res, s) = res(r);
    let cb = funcs::take();
    let out = if how.writer { String::from_utf8(sink).ok() } else { s.flatten() };
    (res, out, cb)
}

/// The renderer of the crate, as configured.
pub fn renderer<'a>(
    engine: &'a upon::Engine<'static>,
    local: &'a BTreeMap<String, upon::Template<'static>>,
    root: &'a RootRef<'a>,
    how: RenderHow,
    data: &'a Value,
) -> upon::Renderer<'a> {
    // Shorten every lifetime to this scope.
    let engine: &upon::Engine<'_> = covar(engine);
    let mut r = match (root, how.mode) {
        #[cfg(feature = "f_serde")]
        (RootRef::Tpl(t), CtxMode::Serde) => tpl(t).render(engine, Ser(data)),
        (RootRef::Tpl(t), CtxMode::Ref) => tpl(t).render_from(engine, data),
        (RootRef::Tpl(t), CtxMode::Fn) => tpl(t).render_from_fn(engine, |p| value_fn(data, p)),
        #[cfg(feature = "f_serde")]
        (RootRef::Ref(t), CtxMode::Serde) => t.render(Ser(data)),
        (RootRef::Ref(t), CtxMode::Ref) => t.render_from(data),
        (RootRef::Ref(t), CtxMode::Fn) => t.render_from_fn(|p| value_fn(data, p)),
        #[cfg(not(feature = "f_serde"))]
        (_, CtxMode::Serde) => panic!("harness: no serialization in this build"),
    };
    let h = history();
    if h & 32 != 0 && how.resolver {
        r = r.with_template_fn(|_| panic!("a resolver that was replaced is called"));
    }
    if let (Some(d), true) = (how.depth, h & 64 != 0) {
        r = r.with_max_include_depth(if h & 32 != 0 { d ^ 1 } else { d });
    }
    if how.resolver {
        r = r.with_template_fn(|name| {
            if let Some(msg) = funcs::enter_real(format!("I {name}")) {
                return Err(msg);
            }
            local.get(name).map(|t| tpl(t)).ok_or_else(|| funcs::resolver_msg(name))
        });
    }
    if let (Some(d), true) = (how.depth, h & 64 == 0 || h & 32 != 0) {
        r = r.with_max_include_depth(d);
    }
    r
}

pub fn root_of<'a>(case: &Case, b: &'a Built) -> Option<RootRef<'a>> {
    Some(match &case.root {
        Root::Named(n) if case.resolver => RootRef::Tpl(b.local.get(n)?),
        Root::Named(n) => RootRef::Ref(b.engine.get_template(n)?),
        Root::Anon(_) => RootRef::Tpl(b.root.as_ref()?),
    })
}

/// Renders a built case into a writer, keeping the error itself.
pub fn render_to<W: std::io::Write>(case: &Case, b: &Built, cb: Cb, w: W) -> Option<(Res, Option<upon::Error>, Cb)> {
    let how = RenderHow { mode: case.mode, resolver: case.resolver, writer: true, depth: case.depth_render };
    let root = root_of(case, b)?;
    funcs::install(cb);
    let g = guard(|| renderer(&b.engine, &b.local, &root, how, &case.data).to_writer(w));
    let cb = funcs::take();
    Some(match g {
        Ok(Ok(())) => (Res::Ok, None, cb),
        Ok(Err(e)) => match guard(|| observe(&e)) {
            Ok(o) => (Res::Err(o), Some(e), cb),
            Err(b) => (Res::Boom(b), Some(e), cb),
        },
        Err(b) => (Res::Boom(b), None, cb),
    })
}

fn covar<'a>(e: &'a upon::Engine<'static>) -> &'a upon::Engine<'a> {
    e
}

fn tpl<'a>(t: &'a upon::Template<'static>) -> &'a upon::Template<'a> {
    t
}

/// Compiles only.
pub fn compile_real(case: &Case) -> Result<Got, Boom> {
    let b = build(case)?;
    Ok(Got { root: b.root_res.clone(), adds: b.adds, render: None })
}

pub fn run_real(case: &Case) -> Result<Got, Boom> {
    let b = build(case)?;
    let cb = Cb { fail_at: case.fail_at, ..Default::default() };
    let render = render(case, &b, cb, &case.data).map(|(res, out, cb)| Rendered { res, out, trace: cb.trace });
    let root = b.root_res.clone();
    Ok(Got { adds: b.adds.clone(), root, render })
}

// ---------------------------------------------------------------------------
// The model's opinion
// ---------------------------------------------------------------------------

pub struct Expect {
    pub adds: Vec<Result<Rc<Tpl>, SynErr>>,
    pub root: Result<(), SynErr>,
    pub render: Option<ERendered>,
}

impl Expect {
    /// Too much work to be rendered.
    pub fn over(&self) -> bool {
        self.render.as_ref().is_some_and(|r| r.over_budget)
    }
}

pub struct ERendered {
    pub res: Result<(), Box<MErr>>,
    pub out: String,
    pub trace: Vec<String>,
    /// Bytes of output before each event.
    pub marks: Vec<usize>,
    pub over_budget: bool,
    pub steps: u64,
    pub max_active: usize,
}

pub fn world(case: &Case, pats: &[Pat]) -> (World, Vec<Result<Rc<Tpl>, SynErr>>) {
    let o = Opts { unicode: case.unicode };
    let mut templates = BTreeMap::new();
    let mut adds = vec![];
    for (n, t) in &case.templates {
        let r = parse::parse(pats, t, o).map(Rc::new);
        if let Ok(t) = &r {
            templates.insert(n.clone(), t.clone());
        }
        adds.push(r);
    }
    let w = World {
        funcs: case.funcs.iter().cloned().collect(),
        default_fmt: case.default_fmt,
        templates,
        max_depth: case.depth_render.or(case.depth_engine).unwrap_or(64),
        resolver: case.resolver,
    };
    (w, adds)
}

pub fn run_model(case: &Case) -> Expect {
    let pats = case.syn.patterns();
    let (w, adds) = world(case, &pats);
    let (root, tpl, name) = match &case.root {
        Root::Named(n) => {
            // Rendering a standalone template is anonymous.
            let name = if case.resolver { None } else { Some(n.clone()) };
            (Ok(()), w.templates.get(n).cloned(), name)
        }
        Root::Anon(t) => match parse::parse(&pats, t, Opts { unicode: case.unicode }) {
            Ok(t) => (Ok(()), Some(Rc::new(t)), None),
            Err(e) => (Err(e), None, None),
        },
    };
    let render = tpl.map(|t| {
        let cb = Cb { fail_at: case.fail_at, ..Default::default() };
        let mut e = Eval::new(&w, case.mode, Rc::new(case.data.clone()), cb);
        let res = e.run(t, name);
        ERendered {
            res,
            out: std::mem::take(&mut e.out),
            trace: std::mem::take(&mut e.cb.trace),
            marks: std::mem::take(&mut e.cb.marks),
            over_budget: e.over_budget,
            steps: e.steps,
            max_active: e.max_active,
        }
    });
    Expect { adds, root, render }
}

// ---------------------------------------------------------------------------
// Comparison
// ---------------------------------------------------------------------------

/// Which aspects a check judges.
#[derive(Clone, Copy, Debug, Default)]
pub struct Judge {
    /// Compilation accepts/rejects.
    pub accept: bool,
    /// Rendering succeeds/fails.
    pub outcome: bool,
    pub output: bool,
    /// Partial output before a failure (writer sinks only).
    pub partial: bool,
    pub kind: bool,
    /// Messages of callbacks.
    pub user: bool,
    pub loc: bool,
    /// Reasons mention the facts that matter.
    pub hints: bool,
    pub trace: bool,
}

impl Judge {
    /// Values and outcomes.
    pub fn result() -> Judge {
        Judge { outcome: true, output: true, ..Default::default() }
    }
    pub fn all() -> Judge {
        Judge {
            accept: true,
            outcome: true,
            output: true,
            partial: true,
            kind: true,
            user: true,
            loc: true,
            hints: true,
            trace: true,
        }
    }
}

pub fn width(s: &str) -> usize {
    use unicode_width::UnicodeWidthChar;
    s.chars().map(|c| c.width().unwrap_or(1)).sum()
}

/// Expected location of a span.
pub fn expected_loc(src: &str, span: (usize, usize), name: Option<&str>) -> Loc {
    let mut line = src[..span.0].matches('\n').count();
    let mut start = src[..span.0].rfind('\n').map_or(0, |i| i + 1);
    let mut at = span.0;
    if start == src.len() && start > 0 {
        // At the end of the source, after the final newline: the end of the last line.
        line -= 1;
        at = start - 1;
        start = src[..at].rfind('\n').map_or(0, |i| i + 1);
    }
    let end = src[start..].find('\n').map_or(src.len(), |i| start + i);
    let col = width(&src[start..at]);
    Loc {
        name: name.unwrap_or("<anonymous>").to_string(),
        line: line + 1,
        col: col + 1,
        text: src[start..end].to_string(),
        mark_at: col,
        mark_len: width(&src[span.0..span.1]).max(1),
    }
}

pub fn check_loc(e: &OErr, src: &str, span: (usize, usize), name: Option<&str>) -> Result<(), String> {
    let want = expected_loc(src, span, name);
    match &e.loc {
        // What `unwrap` prints shows it as well.
        Some(l) if *l == want && !e.shown => Err(format!("the debug form does not begin with the error as displayed\n  error: {}", e.alt)),
        Some(l) if *l == want => Ok(()),
        l => Err(format!("location: expected {want:?}, observed {l:?}\n  error: {}", e.alt)),
    }
}

fn clip(s: &str) -> String {
    if s.len() <= 1500 {
        return format!("{s:?}");
    }
    let mut k = 1500;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{:?}... ({} bytes)", &s[..k], s.len())
}

pub fn diff(want: &str, got: &str) -> String {
    let k = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
    format!("first difference at byte {k}\n  expected: {}\n  observed: {}", clip(want), clip(got))
}

fn check_syntax(what: &str, want: &Result<(), SynErr>, got: &Res, src: &str, name: Option<&str>, j: Judge) -> Result<(), String> {
    match (want, got) {
        (_, Res::Boom(b)) => Err(format!("{what}: panic {b:?}")),
        (Ok(()), Res::Ok) => Ok(()),
        (Ok(()), Res::Err(e)) if j.accept => Err(format!("{what}: rejected a valid template: {}", e.alt)),
        (Err(m), Res::Ok) if j.accept => Err(format!("{what}: accepted an invalid template ({} at {:?})", m.what, m.span)),
        (Err(m), Res::Err(e)) => {
            if (j.kind || j.accept) && e.kind != Some(Kind::Syntax) {
                return Err(format!("{what}: not reported as a syntax error: {}", e.plain));
            }
            if j.kind && e.source.is_some() {
                return Err(format!("{what}: syntax error with a source: {}", e.plain));
            }
            if j.loc {
                check_loc(e, src, m.span, name).map_err(|s| format!("{what} ({}): {s}", m.what))?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

pub fn compare(case: &Case, want: &Expect, got: &Got, j: Judge) -> Result<(), String> {
    for (i, (w, g)) in want.adds.iter().zip(&got.adds).enumerate() {
        let (n, src) = &case.templates[i];
        let w = w.as_ref().map(|_| ()).map_err(|e| e.clone());
        let name = if case.resolver { None } else { Some(n.as_str()) };
        check_syntax(&format!("template {n:?}"), &w, g, src, name, j)?;
    }
    if let Root::Anon(src) = &case.root {
        check_syntax("source", &want.root, &got.root, src, None, j)?;
    }
    match (&want.render, &got.render) {
        (Some(w), Some(g)) => compare_render(w, g, j),
        _ => Ok(()),
    }
}

pub fn compare_render(w: &ERendered, g: &Rendered, j: Judge) -> Result<(), String> {
    if w.over_budget {
        return Ok(());
    }
    match (&w.res, &g.res) {
        (_, Res::Boom(b)) => return Err(format!("render: panic {b:?}")),
        (Ok(()), Res::Ok) => {}
        (Ok(()), Res::Err(e)) => {
            if j.outcome {
                return Err(format!("render: failed unexpectedly: {}\n  expected output: {}", e.alt, clip(&w.out)));
            }
            return Ok(());
        }
        (Err(m), Res::Ok) => {
            if j.outcome {
                return Err(format!(
                    "render: succeeded but must fail: {} at {:?}\n  observed output: {}",
                    m.what,
                    m.at.as_ref().map(|a| a.1),
                    clip(g.out.as_deref().unwrap_or(""))
                ));
            }
            return Ok(());
        }
        (Err(m), Res::Err(e)) => {
            if j.kind {
                if e.kind != Some(m.kind) {
                    return Err(format!("render: expected kind {:?} ({}), observed {:?}", m.kind, m.what, e.plain));
                }
                if e.source.is_some() {
                    return Err(format!("render: an error that is not io has a source: {:?}", e.source));
                }
            }
            if j.user {
                if let Some(u) = &m.user {
                    if e.reason.as_ref() != Some(u) {
                        return Err(format!("render: expected reason {u:?}, observed {:?}", e.reason));
                    }
                } else if !m.has_reason && e.reason.is_some() {
                    return Err(format!("render: expected no reason, observed {:?}", e.reason));
                }
            }
            if j.hints {
                for h in &m.hints {
                    if !e.reason.as_deref().unwrap_or("").contains(h.as_str()) {
                        return Err(format!("render: reason {:?} does not mention {h:?} ({})", e.reason, m.what));
                    }
                }
            }
            if j.loc && m.has_reason {
                if let Some((src, span)) = &m.at {
                    check_loc(e, src, *span, m.template.as_deref()).map_err(|s| format!("render ({}): {s}", m.what))?;
                }
            }
        }
    }
    let failed = w.res.is_err();
    if let Some(out) = &g.out {
        if (!failed && j.output || failed && j.partial) && *out != w.out {
            return Err(format!("output{}: {}", if failed { " before the failure" } else { "" }, diff(&w.out, out)));
        }
    }
    if j.trace && w.trace != g.trace {
        // The order in which a failing construct looks at what it will not use is not judged.
        let k = w.trace.iter().zip(&g.trace).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "callbacks: differ at event {k}: expected {:?}, observed {:?}",
            w.trace.get(k..(k + 4).min(w.trace.len())),
            g.trace.get(k..(k + 4).min(g.trace.len()))
        ));
    }
    Ok(())
}

/// Runs both sides and compares.
pub fn differ(case: &Case, j: Judge) -> Result<(Expect, Got), String> {
    let want = run_model(case);
    let got = if want.over() { compile_real(case) } else { run_real(case) };
    let got = got.map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
    compare(case, &want, &got, j).map_err(|m| format!("{m}\n{}", case.describe()))?;
    Ok((want, got))
}

// ---------------------------------------------------------------------------
// Cases and observations as values, for other builds of this program
// ---------------------------------------------------------------------------

fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        v => panic!("harness: not a string: {}", dump(v)),
    }
}

fn field<'a>(v: &'a Value, k: &str) -> &'a Value {
    match v {
        Value::Map(m) => &m[k],
        v => panic!("harness: not a map: {}", dump(v)),
    }
}

fn list(v: &Value) -> &[Value] {
    match v {
        Value::List(l) => l,
        v => panic!("harness: not a list: {}", dump(v)),
    }
}

fn opt(n: Option<usize>) -> Value {
    n.map_or(Value::None, |n| Value::Integer(n as i64))
}

fn unopt(v: &Value) -> Option<usize> {
    match v {
        Value::Integer(i) => Some(*i as usize),
        _ => None,
    }
}

/// The functions are the whole library, or its formatters.
fn name_of(f: Func) -> &'static str {
    match f {
        Func::Filter(k) => k.name(),
        Func::Formatter(f) => funcs::FORMATTERS.iter().find(|x| x.1 == f).unwrap().0,
    }
}

pub fn case_to_value(c: &Case) -> Value {
    let st = |s: &str| Value::String(s.to_string());
    crate::val::map([
        ("syn", Value::List(c.syn.parts().iter().map(|p| p.as_deref().map_or(Value::None, st)).collect())),
        ("templates", Value::List(c.templates.iter().map(|(n, t)| Value::List(vec![st(n), st(t)])).collect())),
        ("root", match &c.root {
            Root::Named(n) => Value::List(vec![st(n)]),
            Root::Anon(t) => st(t),
        }),
        ("data", c.data.clone()),
        ("alias", Value::List(c.funcs.iter().filter(|f| funcs::named(&f.0).is_none()).map(|f| Value::List(vec![st(&f.0), st(name_of(f.1))])).collect())),
        ("filters", Value::Bool(c.funcs.iter().any(|f| matches!(f.1, Func::Filter(_))))),
        ("default", Value::Integer(funcs::FORMATTERS.iter().position(|f| f.1 == c.default_fmt).unwrap() as i64)),
        ("depth", Value::List(vec![opt(c.depth_engine), opt(c.depth_render), opt(c.fail_at)])),
        ("mode", Value::Integer(match c.mode {
            CtxMode::Ref => 0,
            CtxMode::Serde => 1,
            CtxMode::Fn => 2,
        })),
        ("flags", Value::List(vec![Value::Bool(c.resolver), Value::Bool(c.writer)])),
    ])
}

pub fn case_from_value(v: &Value) -> Case {
    let depth = list(field(v, "depth"));
    let flags = list(field(v, "flags"));
    let filters = *field(v, "filters") == Value::Bool(true);
    Case {
        syn: Syn::from_parts(list(field(v, "syn")).iter().map(|p| if *p == Value::None { None } else { Some(text(p)) }).collect()),
        templates: list(field(v, "templates")).iter().map(|p| (text(&list(p)[0]), text(&list(p)[1]))).collect(),
        root: match field(v, "root") {
            Value::List(l) => Root::Named(text(&l[0])),
            t => Root::Anon(text(t)),
        },
        data: field(v, "data").clone(),
        funcs: funcs::base_library().into_iter().chain(list(field(v, "alias")).iter().map(|a| (text(&list(a)[0]), funcs::named(&text(&list(a)[1])).unwrap()))).filter(|f| filters || matches!(f.1, Func::Formatter(_))).collect(),
        default_fmt: funcs::FORMATTERS[unopt(field(v, "default")).unwrap()].1,
        depth_engine: unopt(&depth[0]),
        depth_render: unopt(&depth[1]),
        fail_at: unopt(&depth[2]),
        mode: [CtxMode::Ref, CtxMode::Serde, CtxMode::Fn][unopt(field(v, "mode")).unwrap()],
        resolver: flags[0] == Value::Bool(true),
        writer: flags[1] == Value::Bool(true),
        unicode: true,
    }
}

fn res_to_value(r: &Res) -> Value {
    match r {
        Res::Ok => Value::None,
        Res::Boom(b) => Value::String(format!("{b:?}")),
        Res::Err(e) => crate::val::map([
            ("kind", Value::String(format!("{:?}", e.kind))),
            ("reason", e.reason.clone().map_or(Value::None, Value::String)),
            ("plain", Value::String(e.plain.clone())),
            ("line", opt(e.loc.as_ref().map(|l| l.line))),
            ("columns", crate::val::Value::List(e.loc.iter().flat_map(|l| [l.col, l.mark_at, l.mark_len]).map(|n| Value::Integer(n as i64)).collect())),
            ("name", e.loc.as_ref().map_or(Value::None, |l| Value::String(l.name.clone()))),
            ("text", e.loc.as_ref().map_or(Value::None, |l| Value::String(l.text.clone()))),
        ]),
    }
}

pub fn got_to_value(g: &Result<Got, Boom>) -> Value {
    match g {
        Err(b) => Value::String(format!("{b:?}")),
        Ok(g) => crate::val::map([
            ("adds", Value::List(g.adds.iter().map(res_to_value).collect())),
            ("root", res_to_value(&g.root)),
            ("render", match &g.render {
                None => Value::None,
                Some(r) => crate::val::map([
                    ("res", res_to_value(&r.res)),
                    ("out", r.out.clone().map_or(Value::None, Value::String)),
                    ("trace", Value::List(r.trace.iter().map(|t| Value::String(t.clone())).collect())),
                ]),
            }),
        ]),
    }
}

fn res_from_value(v: &Value) -> Res {
    match v {
        Value::None => Res::Ok,
        Value::String(s) => Res::Boom(Boom::Own(s.clone())),
        v => {
            let kind = text(field(v, "kind"));
            let some = |k: &str| match field(v, k) {
                Value::String(s) => Some(s.clone()),
                _ => None,
            };
            let plain = text(field(v, "plain"));
            Res::Err(OErr {
                kind: KINDS.iter().map(|k| k.1).find(|k| format!("{:?}", Some(*k)) == kind),
                reason: some("reason"),
                loc: unopt(field(v, "line")).map(|line| {
                    let Value::List(c) = field(v, "columns") else { panic!("columns") };
                    let c: Vec<usize> = c.iter().map(|n| unopt(n).unwrap()).collect();
                    Loc {
                        name: some("name").unwrap_or_default(),
                        line,
                        col: c[0],
                        text: some("text").unwrap_or_default(),
                        mark_at: c[1],
                        mark_len: c[2],
                    }
                }),
                alt: plain.clone(),
                plain,
                source: None,
                shown: true,
            })
        }
    }
}

pub fn got_from_value(v: &Value) -> Result<Got, Boom> {
    if let Value::String(s) = v {
        return Err(Boom::Own(s.clone()));
    }
    let render = match field(v, "render") {
        Value::None => None,
        r => Some(Rendered {
            res: res_from_value(field(r, "res")),
            out: match field(r, "out") {
                Value::String(s) => Some(s.clone()),
                _ => None,
            },
            trace: list(field(r, "trace")).iter().map(text).collect(),
        }),
    };
    Ok(Got { adds: list(field(v, "adds")).iter().map(res_from_value).collect(), root: res_from_value(field(v, "root")), render })
}
