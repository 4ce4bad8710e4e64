//! The function library used by generated programs: one definition of what each filter and
//! formatter computes, used directly by the model and wrapped as callbacks for the real engine.

use crate::val::{dump, kind_name, s, Map, Value};
use std::cell::RefCell;
use std::fmt::Write;

// ---------------------------------------------------------------------------
// Callback monitor
// ---------------------------------------------------------------------------

/// Records callback invocations; can be told to fail or panic at the n-th.
#[derive(Clone, Debug, Default)]
pub struct Cb {
    pub trace: Vec<String>,
    pub n: usize,
    pub fail_at: Option<usize>,
    pub panic_at: Option<usize>,
    pub quiet: bool,
    /// How much output had been produced at each event.
    pub marks: Vec<usize>,
    /// A formatter that ignores errors was called.
    pub careless: bool,
}

/// Payload of an injected panic.
pub struct CbPanic;

/// Messages that the crate writes itself.
const WORDS: &[&str] = &[
    "format error", "render error", "filter error", "io error", "serialize error", "invalid syntax", "unknown filter", "not found in map",
    "unknown template", "not found in this scope", "an error occurred when formatting an argument", "none", "reached maximum include depth (64)",
];

/// The message of the failure injected at the k-th callback: of every shape a user may write.
pub fn injected(event: &str, k: usize) -> String {
    match crate::rng::hash_str(event).wrapping_add(k as u64) % 16 {
        0 => String::new(),
        1 => "\n".into(),
        2 => format!("  #{k} \n second line\r\nthird\t\n"),
        3 => format!("#{k} {} end", "long \u{e9}".repeat(2000)),
        // whichever byte a cut falls on, it is likely to be within a character
        9 | 10 => format!("{}{}", ["", "x", "xy", "#{k} "][k % 4], ["\u{e9}", "\u{2603}", "\u{1f600}"][k / 4 % 3].repeat([50, 100, 300, 3000][k / 12 % 4])),
        4 => format!("render error: #{k} %s {{}} {{0}} \u{1b}[31m \0 |\n --> x:1:2"),
        5 => format!("\u{feff}#{k}\u{202e}\u{a0}"),
        6 => format!("{k}"),
        7 => format!("io error: {event}"),
        8 => WORDS[k % WORDS.len()].to_string(),
        _ => format!("injected \u{2603} {{{{failure}}}} #{k}"),
    }
}

impl Cb {
    pub fn enter(&mut self, event: String) -> Option<String> {
        let k = self.n;
        self.n += 1;
        if self.fail_at == Some(k) {
            let msg = injected(&event, k);
            if !self.quiet {
                self.trace.push(event);
            }
            return Some(msg);
        }
        if !self.quiet {
            self.trace.push(event);
        }
        None
    }
}

thread_local! {
    static REAL: RefCell<Cb> = RefCell::new(Cb::default());
    static JITTER: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static WRITTEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Bytes accepted by the monitored writer of this thread.
pub fn wrote(n: usize) {
    WRITTEN.with(|w| w.set(w.get() + n));
}

pub fn install(cb: Cb) {
    WRITTEN.with(|w| w.set(0));
    REAL.with(|r| *r.borrow_mut() = cb);
}

pub fn take() -> Cb {
    REAL.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

/// Makes callbacks of this thread dawdle.
pub fn jitter(seed: u64) {
    JITTER.with(|j| j.set(seed));
}

fn dawdle() {
    let x = JITTER.with(|j| {
        let x = j.get();
        if x != 0 {
            j.set(crate::rng::mix(x) | 1);
        }
        x
    });
    if x == 0 {
        return;
    }
    match x >> 8 & 15 {
        0..=2 => std::thread::yield_now(),
        3 => std::thread::sleep(std::time::Duration::from_micros(x >> 16 & 31)),
        4 => (0..x >> 16 & 511).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

thread_local! {
    /// Whether callbacks of this case render templates themselves, and whether one is at it.
    static NESTED: std::cell::Cell<(bool, bool)> = const { std::cell::Cell::new((false, false)) };
}

pub fn set_nested(on: bool) {
    NESTED.with(|n| n.set((on, false)));
}

/// Renders something else while the caller is rendering.
fn render_inside(event: &str) {
    if NESTED.with(|n| n.get()) != (true, false) || crate::rng::hash_str(event) % 4 != 0 {
        return;
    }
    NESTED.with(|n| n.set((true, true)));
    let mut e = upon::Engine::new();
    e.add_template("inner", "[{{ loop.index }}{{ v }}{{ l.0.k }}]").unwrap();
    e.set_default_formatter(&|f: &mut upon::fmt::Formatter<'_>, v: &Value| write!(f, "<{}>", dump(v)).map_err(|e| e.into()));
    let t = e.compile("{% for v in l %}{% if loop.last %}{% include \"inner\" %}{% else %}{{ v?.x }}{% endif %}{% endfor %}{% with l as w %}{{ w.1 }}{% endwith %}").unwrap();
    let first = Value::from([("k", Value::Integer(event.len() as i64))]);
    let data = Value::from([("l", Value::List(vec![first, Value::Integer(2)]))]);
    let got = t.render_from(&e, &data).to_string();
    let want = format!("<~>[<1><2><{}>]<2>", event.len());
    assert!(got.as_ref().is_ok_and(|g| *g == want), "a render inside a callback gave {got:?}, expected {want:?}");
    let bad = t.render_from(&e, &Value::from([("l", "x")])).to_string();
    assert!(bad.is_err(), "a render inside a callback gave {bad:?}");
    let mut w = vec![];
    t.render_from(&e, &data).to_writer(&mut w).unwrap();
    assert!(w == want.as_bytes(), "a render inside a callback wrote {w:?}");
    NESTED.with(|n| n.set((true, false)));
}

/// Called by every real callback.
pub fn enter_real(event: String) -> Option<String> {
    dawdle();
    render_inside(&event);
    let (msg, boom) = REAL.with(|r| {
        let mut r = r.borrow_mut();
        let boom = r.panic_at == Some(r.n);
        if !r.quiet {
            let w = WRITTEN.with(|w| w.get());
            r.marks.push(w);
        }
        (r.enter(event), boom)
    });
    if boom {
        std::panic::resume_unwind(Box::new(CbPanic));
    }
    msg
}

pub fn resolver_msg(name: &str) -> String {
    format!("no such template here: <{name}>")
}

// ---------------------------------------------------------------------------
// Filters
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[allow(dead_code)]
pub enum Ty {
    Unit,
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    Isize,
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
    F32,
    F64,
    Str,
    StrRef,
    List,
    ListRef,
    Map,
    MapRef,
    Val,
    ValRef,
}

impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Ty::Unit => "()",
            Ty::Bool => "bool",
            Ty::I8 => "i8",
            Ty::I16 => "i16",
            Ty::I32 => "i32",
            Ty::I64 => "i64",
            Ty::I128 => "i128",
            Ty::Isize => "isize",
            Ty::U8 => "u8",
            Ty::U16 => "u16",
            Ty::U32 => "u32",
            Ty::U64 => "u64",
            Ty::U128 => "u128",
            Ty::Usize => "usize",
            Ty::F32 => "f32",
            Ty::F64 => "f64",
            Ty::Str => "String",
            Ty::StrRef => "&str",
            Ty::List => "Vec",
            Ty::ListRef => "&[]",
            Ty::Map => "BTreeMap",
            Ty::MapRef => "&BTreeMap",
            Ty::Val => "Value",
            Ty::ValRef => "&Value",
        }
    }
}

macro_rules! filters {
    ($($k:ident $n:literal [$($t:ident),+];)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum FilterKind { $($k),* }
        pub const FILTERS: &[FilterKind] = &[$(FilterKind::$k),*];
        impl FilterKind {
            pub fn name(self) -> &'static str {
                match self { $(FilterKind::$k => $n),* }
            }
            pub fn sig(self) -> &'static [Ty] {
                match self { $(FilterKind::$k => &[$(Ty::$t),+]),* }
            }
        }
    };
}

filters! {
    Id "id" [Val];
    Idr "idr" [ValRef];
    Up "up" [StrRef];
    Wrap "wrap" [Str, Str];
    Add "add" [I64, I64];
    Neg "neg" [I64];
    Len "len" [ValRef];
    Range "range" [I64];
    Pair "pair" [Val, Val];
    Trip "trip" [Val, Val, Val];
    Keys "keys" [MapRef];
    Enumr "enumr" [ListRef];
    First "first" [ListRef];
    Fail "fail" [ValRef];
    Join4 "join4" [StrRef, StrRef, Str, StrRef, Str];
    Half "half" [F64];
    Nothing "none" [ValRef];
    Tostr "tostr" [ValRef];
    Byte "u8" [U8];
    Get "get" [Val, Str];
    Rev "rev" [List];
    Merge "merge" [Map, Str, Val];
    Quad "quad" [Val, Val, Val, Val, Val];
    Notb "notb" [Bool];
    Unit "unit" [Unit];
    Eq "eq" [Val, Val];
    Cat "cat" [Str, StrRef];
}

impl FilterKind {
    pub fn apply(self, a: &[Value]) -> Result<Value, String> {
        use FilterKind::*;
        fn st(v: &Value) -> &str {
            match v {
                Value::String(s) => s,
                _ => unreachable!(),
            }
        }
        fn int(v: &Value) -> i64 {
            match v {
                Value::Integer(i) => *i,
                _ => unreachable!(),
            }
        }
        Ok(match self {
            Id | Idr => a[0].clone(),
            Up => s(st(&a[0]).to_uppercase()),
            Wrap => s(format!("{1}{0}{1}", st(&a[0]), st(&a[1]))),
            Add => Value::Integer(int(&a[0]).wrapping_add(int(&a[1]))),
            Neg => Value::Integer(int(&a[0]).wrapping_neg()),
            Len => match &a[0] {
                Value::String(s) => Value::Integer(s.chars().count() as i64),
                Value::List(l) => Value::Integer(l.len() as i64),
                Value::Map(m) => Value::Integer(m.len() as i64),
                v => return Err(format!("no length: {}", kind_name(v))),
            },
            Range => Value::List((0..int(&a[0]).clamp(0, 12)).map(Value::Integer).collect()),
            Pair | Trip | Quad => Value::List(a.to_vec()),
            Keys => match &a[0] {
                Value::Map(m) => Value::List(m.keys().map(|k| s(k.as_str())).collect()),
                _ => unreachable!(),
            },
            Enumr => match &a[0] {
                Value::List(l) => {
                    Value::Map(l.iter().enumerate().map(|(i, v)| (format!("k{i:03}"), v.clone())).collect())
                }
                _ => unreachable!(),
            },
            First => match &a[0] {
                Value::List(l) => l.first().cloned().unwrap_or(Value::None),
                _ => unreachable!(),
            },
            Fail => return Err(format!("always fails on {}", dump(&a[0]))),
            Join4 => s(a.iter().map(st).collect::<Vec<_>>().join("/")),
            Half => match &a[0] {
                Value::Float(f) => Value::Float(f / 2.0),
                _ => unreachable!(),
            },
            Nothing => Value::None,
            Tostr => s(dump(&a[0])),
            Byte | Notb if self == Byte => a[0].clone(),
            Byte => unreachable!(),
            Notb => match &a[0] {
                Value::Bool(b) => Value::Bool(!b),
                _ => unreachable!(),
            },
            Get => match &a[0] {
                Value::Map(m) => match m.get(st(&a[1])) {
                    Some(v) => v.clone(),
                    None => return Err(format!("no key {:?}", st(&a[1]))),
                },
                v => return Err(format!("cannot get from {}", kind_name(v))),
            },
            Rev => match &a[0] {
                Value::List(l) => Value::List(l.iter().rev().cloned().collect()),
                _ => unreachable!(),
            },
            Merge => match &a[0] {
                Value::Map(m) => {
                    let mut m: Map = m.clone();
                    m.insert(st(&a[1]).to_string(), a[2].clone());
                    Value::Map(m)
                }
                _ => unreachable!(),
            },
            Unit => s("unit"),
            Eq => Value::Bool(crate::val::same(&a[0], &a[1])),
            Cat => s(format!("{}{}", st(&a[0]), st(&a[1]))),
        })
    }
}

pub fn filter_event(name: &str, args: &[Value]) -> String {
    let mut t = format!("F {name}");
    for a in args {
        t.push(' ');
        t.push_str(&dump(a));
    }
    t
}

// ---------------------------------------------------------------------------
// Formatters
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    Builtin,
    Dump,
    Esc,
    Chars,
    Nothing,
    Err,
    Bare,
    Rep,
    /// Fails with a message on none, otherwise like the built-in one.
    Strict,
    /// Like dump, but ignores errors of the writer.
    Careless,
    /// Fixed texts and padding through the formatting macros.
    Stock,
    /// The documented way to refuse one kind of value and leave the rest to the built-in formatter.
    Fallback,
}

pub const FORMATTERS: &[(&str, Fmt)] = &[
    ("plain", Fmt::Builtin),
    ("dump", Fmt::Dump),
    ("esc", Fmt::Esc),
    ("chars", Fmt::Chars),
    ("nothing", Fmt::Nothing),
    ("ferr", Fmt::Err),
    ("fbare", Fmt::Bare),
    ("frep", Fmt::Rep),
    ("strict", Fmt::Strict),
    ("careless", Fmt::Careless),
    ("stock", Fmt::Stock),
    ("fallback", Fmt::Fallback),
];

#[derive(Clone, Debug)]
pub enum Piece {
    Str(String),
    Ch(char),
    Args(String),
    /// One of the fixed texts.
    Fixed(usize),
    /// Padded to this width.
    Pad(String, usize),
}

macro_rules! fixed {
    ($($n:literal $t:literal),*) => {
        pub const FIXED: &[&str] = &[$($t),*];
        fn write_fixed(out: &mut upon::fmt::Formatter<'_>, k: usize) -> std::fmt::Result {
            match k {
                $($n => write!(out, $t),)*
                _ => unreachable!(),
            }
        }
    };
}
fixed! {
    0 "", 1 "\n", 2 "x\n\n", 3 " ", 4 "  lead", 5 "trail  ", 6 "\r\n", 7 "\t", 8 "<b>", 9 "&", 10 "\u{feff}", 11 "\0",
    12 "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef 64", 13 "\u{1d11e}", 14 "none", 15 "\n\n\nz"
}

impl Piece {
    pub fn text(&self) -> String {
        match self {
            Piece::Str(s) | Piece::Args(s) => s.clone(),
            Piece::Ch(c) => c.to_string(),
            Piece::Fixed(k) => FIXED[*k].to_string(),
            Piece::Pad(s, n) => format!("{s:*^n$}"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum FmtErr {
    Unsupported(&'static str),
    Msg(Option<String>),
}

pub fn plain_text(v: &Value) -> Result<String, &'static str> {
    Ok(match v {
        Value::None => String::new(),
        Value::Bool(b) => (if *b { "true" } else { "false" }).into(),
        Value::Integer(i) => i.to_string(),
        Value::Float(f) => f.to_string(),
        Value::String(s) => s.clone(),
        v => return Err(kind_name(v)),
    })
}

/// What a formatter writes, and how it ends.
pub fn format_plan(f: Fmt, v: &Value) -> (Vec<Piece>, Result<(), FmtErr>) {
    match f {
        Fmt::Builtin => match plain_text(v) {
            Ok(t) => (vec![Piece::Str(t)], Ok(())),
            Err(k) => (vec![], Err(FmtErr::Unsupported(k))),
        },
        Fmt::Fallback => match (v, plain_text(v)) {
            (Value::None, _) => (vec![], Err(FmtErr::Msg(Some("unable to format None".into())))),
            (_, Ok(t)) => (vec![Piece::Str(t)], Ok(())),
            (_, Err(k)) => (vec![], Err(FmtErr::Unsupported(k))),
        },
        Fmt::Strict => match (v, plain_text(v)) {
            (Value::None, _) => (vec![], Err(FmtErr::Msg(Some("none is not welcome".into())))),
            (_, Ok(t)) => (vec![Piece::Str(t)], Ok(())),
            (_, Err(k)) => (vec![], Err(FmtErr::Msg(Some(format!("strict: {k}"))))),
        },
        Fmt::Dump => (vec![Piece::Args(dump(v))], Ok(())),
        Fmt::Esc => {
            let t = plain_text(v).unwrap_or_else(|_| dump(v));
            let out = t
                .chars()
                .map(|c| match c {
                    '<' => Piece::Str("&lt;".into()),
                    '>' => Piece::Str("&gt;".into()),
                    '&' => Piece::Str("&amp;".into()),
                    '"' => Piece::Str("&quot;".into()),
                    c => Piece::Ch(c),
                })
                .collect();
            (out, Ok(()))
        }
        Fmt::Chars => (plain_text(v).unwrap_or_else(|_| dump(v)).chars().map(Piece::Ch).collect(), Ok(())),
        Fmt::Nothing => (vec![], Ok(())),
        Fmt::Careless => (vec![Piece::Str("~".into()), Piece::Args(dump(v)), Piece::Ch('~')], Ok(())),
        Fmt::Stock => {
            let t = dump(v);
            let h = crate::rng::hash_str(&t);
            let k = |n: u32| (h >> n) as usize % FIXED.len();
            let mut out = vec![Piece::Fixed(k(0))];
            match h >> 40 & 3 {
                0 => out.push(Piece::Pad(t, (h >> 44 & 63) as usize)),
                1 => out.extend([Piece::Fixed(k(8)), Piece::Args(t), Piece::Fixed(k(16))]),
                2 => out.extend([Piece::Str(t), Piece::Fixed(k(8))]),
                _ => {}
            }
            (out, Ok(()))
        }
        Fmt::Err => {
            (vec![Piece::Str("<partial ".into()), Piece::Ch('\u{e9}')], Err(FmtErr::Msg(Some(format!("ferr: {}", kind_name(v))))))
        }
        Fmt::Bare => (vec![Piece::Str("<bare".into())], Err(FmtErr::Msg(None))),
        Fmt::Rep => {
            let t = dump(v);
            (vec![Piece::Args(t.clone()), Piece::Str(String::new()), Piece::Args(t.clone()), Piece::Str(t)], Ok(()))
        }
    }
}

/// The real formatter callback.
pub fn format_real(f: Fmt, name: &str, out: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    if let Some(msg) = enter_real(format!("M {name} {}", dump(v))) {
        let e = if msg.len() % 2 == 0 { upon::fmt::Error::from(msg.as_str()) } else { upon::fmt::Error::from(msg.clone()) };
        assert!(e.to_string() == msg, "a format error shows {:?} for {msg:?}", e.to_string());
        return Err(e);
    }
    if f == Fmt::Careless {
        REAL.with(|r| r.borrow_mut().careless = true);
    }
    if f == Fmt::Fallback && !matches!(v, Value::None) {
        return upon::fmt::default(out, v);
    }
    let (pieces, res) = format_plan(f, v);
    for p in pieces {
        if f == Fmt::Careless {
            let _ = match p {
                Piece::Ch(c) => out.write_char(c),
                p => out.write_str(&p.text()),
            };
            continue;
        }
        match p {
            Piece::Str(s) => out.write_str(&s)?,
            Piece::Ch(c) => out.write_char(c)?,
            Piece::Args(s) => {
                // Several fragments through one format call.
                let k = s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0);
                write!(out, "{}{}", &s[..k], &s[k..])?
            }
            Piece::Fixed(k) => write_fixed(out, k)?,
            Piece::Pad(s, n) => write!(out, "{s:*^n$}")?,
        }
    }
    match res {
        Ok(()) => Ok(()),
        Err(FmtErr::Msg(Some(m))) => Err(m.into()),
        Err(FmtErr::Msg(None)) => Err(std::fmt::Error.into()),
        Err(FmtErr::Unsupported(_)) => unreachable!(),
    }
}

// ---------------------------------------------------------------------------
// Registration on the real engine
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Func {
    Filter(FilterKind),
    Formatter(Fmt),
}

thread_local! {
    /// Other names under which this case registers some of the functions.
    static ALIASES: RefCell<Vec<(String, Func)>> = const { RefCell::new(vec![]) };
}

pub fn set_aliases(a: Vec<(String, Func)>) {
    ALIASES.with(|x| *x.borrow_mut() = a);
}

/// Another name of a function, if it has any.
pub fn alias(r: &mut crate::rng::Rng, f: Func) -> Option<String> {
    ALIASES.with(|a| {
        let a = a.borrow();
        let c: Vec<&String> = a.iter().filter(|x| x.1 == f).map(|x| &x.0).collect();
        if c.is_empty() { None } else { Some(r.pick(&c).to_string()) }
    })
}

/// The function that has this name in the library.
pub fn named(name: &str) -> Option<Func> {
    let f = FILTERS.iter().find(|f| f.name() == name).map(|f| Func::Filter(*f));
    f.or_else(|| FORMATTERS.iter().find(|f| f.0 == name).map(|f| Func::Formatter(f.1)))
}

/// All functions, under their own names and their other names in this case.
pub fn library() -> Vec<(String, Func)> {
    let mut out = base_library();
    ALIASES.with(|a| out.extend(a.borrow().iter().filter(|x| named(&x.0).is_none()).cloned()));
    out
}

pub fn base_library() -> Vec<(String, Func)> {
    let mut out: Vec<(String, Func)> = FILTERS.iter().map(|f| (f.name().to_string(), Func::Filter(*f))).collect();
    out.extend(FORMATTERS.iter().map(|(n, f)| (n.to_string(), Func::Formatter(*f))));
    out
}

pub trait ToV {
    fn to_v(self) -> Value;
}
macro_rules! to_v {
    ($($t:ty: $x:ident => $e:expr;)*) => { $(impl ToV for $t { fn to_v(self) -> Value { let $x = self; $e } })* };
}
to_v! {
    Value: v => v;
    &Value: v => v.clone();
    &str: v => s(v);
    String: v => Value::String(v);
    i64: v => Value::Integer(v);
    u8: v => Value::Integer(v as i64);
    u16: v => Value::Integer(v as i64);
    u32: v => Value::Integer(v as i64);
    u64: v => v.try_into().map_or_else(|_| s(v.to_string()), Value::Integer);
    u128: v => v.try_into().map_or_else(|_| s(v.to_string()), Value::Integer);
    usize: v => v.try_into().map_or_else(|_| s(v.to_string()), Value::Integer);
    i8: v => Value::Integer(v as i64);
    i16: v => Value::Integer(v as i64);
    i32: v => Value::Integer(v as i64);
    i128: v => v.try_into().map_or_else(|_| s(v.to_string()), Value::Integer);
    isize: v => Value::Integer(v as i64);
    f32: v => Value::Float(v as f64);
    f64: v => Value::Float(v);
    bool: v => Value::Bool(v);
    (): _v => Value::None;
    Vec<Value>: v => Value::List(v);
    &[Value]: v => Value::List(v.to_vec());
    Map: v => Value::Map(v);
    &Map: v => Value::Map(v.clone());
}

fn call(k: FilterKind, args: Vec<Value>) -> Result<Value, String> {
    if let Some(msg) = enter_real(filter_event(k.name(), &args)) {
        return Err(msg);
    }
    k.apply(&args)
}

thread_local! {
    /// Whether filters fail with string slices instead of strings.
    static SLICES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn set_slices(on: bool) {
    SLICES.with(|s| s.set(on));
}

/// Keeps every message once, forever.
fn intern(msg: String) -> &'static str {
    static ALL: std::sync::Mutex<std::collections::BTreeSet<&'static str>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
    let mut all = ALL.lock().unwrap();
    if let Some(m) = all.get(msg.as_str()) {
        return m;
    }
    let m: &'static str = Box::leak(msg.into_boxed_str());
    all.insert(m);
    m
}

pub fn register(e: &mut upon::Engine<'_>, name: &str, f: Func) -> Option<upon::EngineFn> {
    let n = name.to_string();
    #[cfg(feature = "f_filters")]
    macro_rules! reg {
        ($k:expr; $($a:ident: $t:ty),+) => {{
            let k = $k;
            if SLICES.with(|s| s.get()) {
                return e.add_filter(n, move |$($a: $t),+| -> Result<Value, &'static str> { call(k, vec![$($a.to_v()),+]).map_err(intern) });
            }
            e.add_filter(n, move |$($a: $t),+| -> Result<Value, String> { call(k, vec![$($a.to_v()),+]) })
        }};
    }
    #[cfg(feature = "f_filters")]
    use FilterKind::*;
    match f {
        #[cfg(not(feature = "f_filters"))]
        Func::Filter(_) => panic!("harness: there are no filters in this build"),
        Func::Formatter(Fmt::Builtin) => e.add_formatter(n, upon::fmt::default),
        Func::Formatter(f) => {
            let label = n.clone();
            e.add_formatter(n, move |out: &mut upon::fmt::Formatter<'_>, v: &Value| format_real(f, &label, out, v))
        }
        #[cfg(feature = "f_filters")]
        Func::Filter(k) => match k {
            Id => reg!(k; v: Value),
            Idr | Len | Fail | Nothing | Tostr => reg!(k; v: &Value),
            Up => reg!(k; v: &str),
            Wrap => reg!(k; v: String, a: String),
            Add => reg!(k; v: i64, a: i64),
            Neg | Range => reg!(k; v: i64),
            Pair | Eq => reg!(k; v: Value, a: Value),
            Trip => reg!(k; v: Value, a: Value, b: Value),
            Keys => reg!(k; v: &Map),
            Enumr | First => reg!(k; v: &[Value]),
            Join4 => reg!(k; v: &str, a: &str, b: String, c: &str, d: String),
            Half => reg!(k; v: f64),
            Byte => reg!(k; v: u8),
            Get => reg!(k; v: Value, a: String),
            Rev => reg!(k; v: Vec<Value>),
            Merge => reg!(k; v: Map, a: String, b: Value),
            Quad => reg!(k; v: Value, a: Value, b: Value, c: Value, d: Value),
            Notb => reg!(k; v: bool),
            Unit => reg!(k; v: ()),
            Cat => reg!(k; v: String, a: &str),
        },
    }
}

macro_rules! default_fmts {
    ($e:expr, $f:expr; $($k:ident),*) => {
        match $f {
            Fmt::Builtin => {}
            $(Fmt::$k => $e.set_default_formatter(
                &|out: &mut upon::fmt::Formatter<'_>, v: &Value| format_real(Fmt::$k, "*", out, v)
            ),)*
        }
    };
}

pub fn set_default(e: &mut upon::Engine<'_>, f: Fmt) {
    default_fmts!(e, f; Dump, Esc, Chars, Nothing, Err, Bare, Rep, Strict, Careless, Stock, Fallback);
}

/// Replaces whatever was the default.
pub fn reset_default(e: &mut upon::Engine<'_>, f: Fmt) {
    match f {
        Fmt::Builtin => e.set_default_formatter(&upon::fmt::default),
        f => set_default(e, f),
    }
}
