//! Data-aware generation of template programs.

use crate::funcs::{self, FilterKind, Fmt, Func, Ty, FILTERS};
use crate::model::eval::convert;
use crate::model::parse::{ident_cont, ident_start, keywords, Opts};
use crate::model::syn::{Syn, K};
use crate::rng::Rng;
use crate::val::{Map, Value};

// ---------------------------------------------------------------------------
// Values and text
// ---------------------------------------------------------------------------

pub const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "item", "user", "name", "list", "m", "n", "key", "value", "idx", "loop", "_p", "in_", "été", "名前", "A1",
    "index", "first", "last", "ifx", "nott", "true_", "e1", "aa",
];

thread_local! {
    static POOL: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(NAMES.iter().map(|s| s.to_string()).collect());
    static TPOOL: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(TPL_NAMES.iter().map(|s| s.to_string()).collect());
}

/// A name of the pool of this case.
pub fn name(r: &mut Rng) -> String {
    POOL.with(|p| r.pick(&p.borrow()).clone())
}

fn tpl_names() -> Vec<String> {
    TPOOL.with(|p| p.borrow().clone())
}

/// Called before each case: half of them use the usual names, the others some of any shape.
pub fn begin(r: &mut Rng) {
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    let mut tpls: Vec<String> = TPL_NAMES.iter().map(|s| s.to_string()).collect();
    let mut aliases = vec![];
    if r.bool() {
        for _ in 0..r.range(1, 12) {
            let k = r.below(names.len());
            let n = ident(r, &names);
            names[k] = n;
        }
        for _ in 0..r.range(0, 4) {
            let k = r.below(tpls.len());
            let n = tpl_name(r, &tpls);
            if !tpls.contains(&n) {
                tpls[k] = n;
            }
        }
        for _ in 0..r.range(0, 6) {
            let f = if r.one_in(4) { Func::Formatter(r.pick(funcs::FORMATTERS).1) } else { Func::Filter(*r.pick(FILTERS)) };
            let n = ident(r, &names);
            if !aliases.iter().any(|a: &(String, Func)| a.0 == n) {
                aliases.push((n, f));
            }
        }
    }
    crate::model::syn::set_variant(r.below(32 * 128));
    POOL.with(|p| *p.borrow_mut() = names);
    TPOOL.with(|p| *p.borrow_mut() = tpls);
    funcs::set_aliases(aliases);
    funcs::set_slices(r.one_in(3));
    funcs::set_nested(r.one_in(12));
}

/// An identifier of any shape (that no check uses for its own purposes).
pub fn ident(r: &mut Rng, like: &[String]) -> String {
    loop {
        let s = match r.below(12) {
            0 | 1 => r.pick(&["f", "g", "_", "k", "A", "Z", "e", "\u{e9}", "\u{540d}", "_1", "__", "o0", "r", "Q"]).to_string(),
            2 => format!("{}{}", r.pick(like), r.pick(&["0", "_", "s", "2", "\u{e9}", "__", "X", "9"])),
            3 => r.pick(like).to_uppercase(),
            4 => format!("{}{}", r.pick(&keywords()[..]), r.pick(&["_", "x", "0", "s", "\u{e9}"])),
            5 => format!("{}{}", r.pick(&["_", "x", "in", "n"]), r.pick(&keywords()[..])),
            6 => {
                let n = crate::dict::size(r, 300).max(1);
                let c = *r.pick(&["a", "b", "ab", "\u{e9}", "_"]);
                let mut s = c.repeat(n.div_ceil(c.len()));
                s.push_str(r.pick(&["", "x", "y"]));
                s
            }
            7 | 8 => {
                let n = r.range(1, 8);
                (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'd', 'e', '_', '0', '1', 'X', 'i', 'f'])).collect()
            }
            9 => {
                let n = r.range(1, 3);
                (0..n).map(|_| any_char(r)).collect()
            }
            10 => crate::dict::word(r),
            _ => r.pick(&["include", "loop", "index", "self", "value", "true", "None", "len", "default", "key", "name"]).to_uppercase(),
        };
        if ident_ok(&s) && !s.starts_with('z') && !RESERVED.contains(&s.as_str()) && funcs::named(&s).is_none() {
            return s;
        }
    }
}

/// Names that checks use for themselves.
const RESERVED: &[&str] = &["one", "onem", "big", "box", "huge", "nope", "nosuch", "nofmt", "ID", "id2", "idrr"];

pub fn tpl_name(r: &mut Rng, like: &[String]) -> String {
    let t = r.pick(like).clone();
    match r.below(10) {
        0 => format!("./{t}"),
        1 => format!("{t}.html"),
        2 => t.to_uppercase(),
        3 => format!("{t} "),
        4 => format!("{t}/"),
        5 => crate::dict::word(r),
        6 => "n".repeat(crate::dict::size(r, 300)),
        7 => string(r),
        8 => format!("/{t}"),
        _ => ident(r, like),
    }
}

const ODD_KEYS: &[&str] = &["", " ", "a b", "if", "true", "0", "1", "a.b", "-", "\u{1F600}", "?", "x y", "endfor", "\"q\"", "0x1"];

pub const WORDS: &[&str] = &[
    "lorem", "ipsum", "<b>", "&", "Hello, World!", "x", "0", "-", "--", "é", "中文", "\u{1F600}", "e\u{301}", "\u{200d}", "\u{feff}",
    "{", "}", "%", "#", "|", "\"", "\\", "\\n", "{ {", "} }", "if", "endif", "null", "'", "\u{0}", "\u{7f}", "\u{1b}[0m", "\u{202e}",
];

pub const SPACES: &[&str] = &[
    " ", "  ", "\n", "\r\n", "\t", "\n\n", " \n ", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\u{200b}",
    "\u{1680}", "\r",
];

pub fn ident_ok(s: &str) -> bool {
    let o = Opts { unicode: true };
    let mut it = s.chars();
    it.next().is_some_and(|c| ident_start(c, o)) && it.all(|c| ident_cont(c, o)) && !keywords().contains(&s)
}

pub fn string(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = match r.below(10) {
        0 | 1 => 0,
        2..=6 => 1,
        7 | 8 => r.range(2, 4),
        _ => r.range(3, 12),
    };
    for _ in 0..n {
        s.push_str(if r.pct(25) { r.pick(SPACES) } else { r.pick(WORDS) });
        if r.one_in(30) {
            s.push(any_char(r));
        }
    }
    s
}

pub fn any_char(r: &mut Rng) -> char {
    loop {
        let x = match r.below(8) {
            0..=2 => r.below(0x80),
            3 => r.below(0x800),
            4 | 5 => r.below(0x3000),
            6 => r.below(0x10000),
            _ => r.below(0x110000),
        };
        if let Some(c) = char::from_u32(x as u32) {
            return c;
        }
    }
}

const INTS: &[i64] = &[
    0, 1, -1, 2, 3, 7, 10, 42, 127, 128, 255, 256, -128, -129, 32767, 65535, 65536, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64,
    1 << 53, (1 << 53) + 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1,
];

pub fn int(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => *r.pick(INTS),
        1 => r.u64() as i64,
        2 => r.range(0, 20) as i64,
        _ => (r.u64() >> r.below(64)) as i64,
    }
}

const FLOATS: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 0.1, 1.5, 3.25, 1e21, 1e-7, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
    9007199254740993.0, 123456789.125, 16777217.0, 3.4028236e38,
];

pub fn float(r: &mut Rng) -> f64 {
    match r.below(3) {
        0 => *r.pick(FLOATS),
        1 => f64::from_bits(r.u64()),
        _ => (r.u64() as i32 as f64) / 64.0,
    }
}

pub fn scalar(r: &mut Rng) -> Value {
    match r.below(12) {
        0 | 1 => Value::None,
        2 => Value::Bool(false),
        3 => Value::Bool(true),
        4..=6 => Value::Integer(if r.pct(50) { r.below(6) as i64 } else { int(r) }),
        7 => Value::Float(float(r)),
        _ => Value::String(string(r)),
    }
}

pub fn key(r: &mut Rng) -> String {
    if r.pct(12) {
        r.pick(ODD_KEYS).to_string()
    } else {
        name(r)
    }
}

pub fn value(r: &mut Rng, depth: usize) -> Value {
    if depth == 0 || r.pct(45) {
        return scalar(r);
    }
    if r.bool() {
        let n = size(r);
        // Lists are often homogeneous.
        if r.pct(40) && n > 0 {
            let seed = r.u64();
            let like = value(&mut Rng::new(seed), depth - 1);
            return Value::List((0..n).map(|_| vary(r, &like)).collect());
        }
        Value::List((0..n).map(|_| value(r, depth - 1)).collect())
    } else {
        let n = size(r);
        if r.one_in(8) {
            return Value::Map((0..n).map(|_| (like_number(r), value(r, depth - 1))).collect());
        }
        Value::Map((0..n).map(|_| (key(r), value(r, depth - 1))).collect())
    }
}

/// A key that looks like a number.
fn like_number(r: &mut Rng) -> String {
    match r.below(6) {
        0..=2 => r.below(30).to_string(),
        3 => r.below(2_000).to_string(),
        4 => format!("{}{}", r.pick(&["-", "0", "00", "+", "0x", "1."]), r.below(30)),
        _ => r.u64().to_string(),
    }
}

fn vary(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Integer(_) => Value::Integer(r.below(100) as i64),
        Value::String(_) => Value::String(string(r)),
        Value::Map(m) => Value::Map(m.iter().map(|(k, v)| (k.clone(), vary(r, v))).collect()),
        v => v.clone(),
    }
}

fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 | 1 => 0,
        2 | 3 => 1,
        4..=7 => r.range(2, 3),
        8 => r.range(4, 6),
        _ => r.range(0, 12),
    }
}

/// A context: a map with several identifier keys of mixed kinds.
pub fn context(r: &mut Rng) -> Value {
    let mut m = Map::new();
    for _ in 0..r.range(2, 7) {
        let k = name(r);
        m.insert(k, value(r, 3));
    }
    // Guarantee some useful shapes.
    if r.pct(70) {
        m.insert("list".into(), Value::List((0..size(r).min(4)).map(|_| value(r, 2)).collect()));
    }
    if r.pct(70) {
        let numbers = r.one_in(5);
        m.insert("m".into(), Value::Map((0..size(r).min(4)).map(|_| (if numbers { like_number(r) } else { key(r) }, value(r, 2))).collect()));
    }
    if r.pct(50) {
        m.insert("name".into(), Value::String(string(r)));
    }
    if r.pct(10) {
        m.insert(key(r), value(r, 4));
    }
    Value::Map(m)
}

/// Literal text for a value, if it has any.
pub fn literal(r: &mut Rng, v: &Value) -> Option<String> {
    Some(match v {
        Value::Bool(b) => b.to_string(),
        Value::Integer(i) => int_literal(r, *i),
        Value::Float(f) if f.is_finite() => {
            let a = f.abs();
            let t = match r.below(3) {
                0 => format!("{a:?}"),
                1 => format!("{a:e}"),
                _ => format!("{a:.1}"),
            };
            // Must denote the same value and not look like an integer.
            let t = if t.parse::<f64>() == Ok(a) { t } else { format!("{a:?}") };
            let t = if t.contains(['.', 'e']) { t } else { format!("{t}.0") };
            match f.is_sign_negative() {
                true => format!("-{t}"),
                false if r.pct(20) => format!("+{t}"),
                false => t,
            }
        }
        Value::String(s) => str_literal(r, s),
        _ => return None,
    })
}

pub fn int_literal(r: &mut Rng, i: i64) -> String {
    let a = i.unsigned_abs();
    let (pre, mut d) = match r.below(8) {
        0 => ("0x", format!("{a:x}")),
        1 => ("0x", format!("{a:X}")),
        2 => ("0o", format!("{a:o}")),
        3 => ("0b", format!("{a:b}")),
        _ => ("", a.to_string()),
    };
    if r.pct(15) {
        // Leading zeros and underscores are allowed.
        d = format!("{}{d}", "0".repeat(r.below(4)));
        let mut out = String::new();
        for (k, c) in d.chars().enumerate() {
            if (k > 0 || !pre.is_empty()) && r.pct(25) {
                out.push_str(&"_".repeat(r.range(1, 2)));
            }
            out.push(c);
        }
        if r.pct(20) {
            out.push('_');
        }
        d = out;
    }
    let sign = if i < 0 {
        "-"
    } else if r.pct(10) {
        "+"
    } else if i == 0 && r.pct(10) {
        "-"
    } else {
        ""
    };
    let gap = if !sign.is_empty() && r.pct(10) { " " } else { "" };
    format!("{sign}{gap}{pre}{d}")
}

pub fn str_literal(_r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' if _r.bool() => o.push_str("\\t"),
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------------------
// Profiles
// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Profile {
    pub raw: usize,
    pub emit: usize,
    pub if_: usize,
    pub for_: usize,
    pub with: usize,
    pub include: usize,
    pub comment: usize,
    /// Maximum block nesting.
    pub depth: usize,
    pub nodes: (usize, usize),
    /// Percentages.
    pub filters: usize,
    pub err: usize,
    pub opt: usize,
    pub trim: usize,
    pub lit: usize,
    pub fmt: usize,
    pub space: usize,
    pub wild: usize,
    /// Chance that a filter may be one that fails.
    pub bad_fn: usize,
    /// Chance that an include loops back to a template being generated.
    pub recur: usize,
    /// Filter names to use (all if empty).
    pub only: Vec<&'static str>,
    pub fmts: bool,
    /// Whether the two variables of a loop may have the same name.
    pub same_names: bool,
    /// How values are obtained (used to print the same program in two ways).
    pub twist: Twist,
}

/// How the values of expressions are obtained; consumes no randomness.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Twist {
    None,
    /// Every path goes through this filter first.
    Filter(&'static str),
    /// Every expression is bound by a with block first.
    With,
}

/// The name used by `Twist::With`.
pub const TWIST_NAME: &str = "zq";

impl Default for Profile {
    fn default() -> Self {
        Profile {
            raw: 20,
            emit: 30,
            if_: 10,
            for_: 10,
            with: 8,
            include: 6,
            comment: 4,
            depth: 4,
            nodes: (1, 6),
            filters: 30,
            err: 2,
            opt: 12,
            trim: 8,
            lit: 20,
            fmt: 12,
            space: 10,
            wild: 30,
            bad_fn: 2,
            recur: 3,
            only: vec![],
            fmts: true,
            same_names: false,
            twist: Twist::None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    Any,
    Text,
    Iter,
    Ty(Ty),
    Bool,
}

#[derive(Clone)]
struct Bind {
    name: String,
    sample: Option<Value>,
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Profile,
    pub syn: Syn,
    scope: Vec<Bind>,
    root: Option<Value>,
    /// Finished templates (name, source).
    pub templates: Vec<(String, String)>,
    names_used: Vec<String>,
    open_templates: Vec<String>,
    budget: usize,
    /// Constructs emitted, for coverage counting.
    pub feats: Vec<&'static str>,
}

pub const TPL_NAMES: &[&str] = &["t1", "partial.html", "a b", "é", "", "x:y:1", "日本", "t1.html", "T1", "t10", " t1", "\t", "\"q\"", "a/b/c.txt"];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Profile, syn: Syn, root: &Value) -> Self {
        Gen {
            r,
            p,
            syn,
            scope: vec![],
            root: Some(root.clone()),
            templates: vec![],
            names_used: vec![],
            open_templates: vec![],
            budget: 60,
            feats: vec![],
        }
    }

    pub fn with_budget(mut self, n: usize) -> Self {
        self.budget = n;
        self
    }

    /// A complete template.
    pub fn template(&mut self) -> String {
        let n = self.r.range(self.p.nodes.0, self.p.nodes.1);
        self.body(n, 0)
    }

    fn feat(&mut self, f: &'static str) {
        self.feats.push(f);
    }

    fn body(&mut self, n: usize, depth: usize) -> String {
        let mut out = String::new();
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            self.node(depth, &mut out);
        }
        out
    }

    fn small_body(&mut self, depth: usize) -> String {
        let n = match self.r.below(10) {
            0 => 0,
            1..=5 => 1,
            6..=8 => 2,
            _ => 4,
        };
        self.body(n, depth + 1)
    }

    pub fn text(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.range(1, 3) {
            if self.r.pct(self.p.wild) {
                let w = self.r.pick(WORDS);
                s.push_str(w);
                if self.r.one_in(20) {
                    let c = any_char(self.r);
                    s.push(c);
                }
            } else if self.r.pct(40) {
                let w = self.r.pick(SPACES);
                s.push_str(w);
            } else {
                s.push_str(self.r.pick(&["foo", " bar ", "\n", "<p>", "text", ", "]));
            }
        }
        s
    }

    fn node(&mut self, depth: usize, out: &mut String) {
        let deep = depth >= self.p.depth;
        let b = if deep { 0 } else { 1 };
        let p = &self.p;
        let ws = [p.raw, p.emit, p.if_ * b, p.for_ * b, p.with * b, p.include * b, p.comment];
        match self.r.weighted(&ws) {
            0 => {
                let t = self.text();
                out.push_str(&t);
            }
            1 => {
                let t = self.emit();
                out.push_str(&t);
            }
            2 => self.if_(depth, out),
            3 => self.for_(depth, out),
            4 => self.with(depth, out),
            5 => self.include(depth, out),
            _ => self.comment(out),
        }
    }

    // -- tags ------------------------------------------------------------------

    /// Wraps tokens in a tag with the profile's spacing and trimming.
    pub fn tag(&mut self, k: K, toks: &[String]) -> String {
        let (b, e) = self.syn.get(k).cloned().unwrap_or_default();
        let mut s = b;
        if self.r.pct(self.p.trim) {
            s.push('-');
            self.feat("trim");
        }
        let odd = self.r.pct(self.p.space);
        for (i, t) in toks.iter().enumerate() {
            let glue = i > 0 && word_end(&toks[i - 1]) && word_start(t);
            let dotted = i > 0 && (t == "." || t == "?." || toks[i - 1] == "." || toks[i - 1] == "?.");
            if !odd {
                if i == 0 || !(t == ":" || t == "," || dotted) {
                    s.push(' ');
                }
            } else {
                let k = self.r.below(6);
                match k {
                    0 | 1 | 2 if !glue => {}
                    3 => s.push('\t'),
                    4 => s.push_str("  "),
                    _ => s.push(' '),
                }
            }
            // A leading minus must not merge with the delimiter.
            if i == 0 && t.starts_with('-') && !s.ends_with([' ', '\t']) {
                s.push(' ');
            }
            s.push_str(t);
        }
        if !odd || self.r.bool() {
            s.push(' ');
        }
        if self.r.pct(self.p.trim) {
            s.push('-');
            self.feat("trim");
        }
        s.push_str(&e);
        s
    }

    fn block(&mut self, toks: Vec<String>, out: &mut String) {
        let t = self.tag(K::Block, &toks);
        out.push_str(&t);
    }

    /// Binds the expression first, if so configured: text before, tokens to use, text after.
    fn bound(&self, e: Vec<String>) -> (String, Vec<String>, String) {
        if self.p.twist != Twist::With {
            return (String::new(), e, String::new());
        }
        let (b, z) = self.syn.block.clone().unwrap_or_default();
        let t = e.join(" ");
        (format!("{b} with {t} as {TWIST_NAME} {z}"), vec![TWIST_NAME.to_string()], format!("{b} endwith {z}"))
    }

    pub fn emit(&mut self) -> String {
        self.feat("emit");
        let (toks, sample) = self.expr(Want::Any);
        let (pre, mut toks, post) = self.bound(toks);
        let container = matches!(sample, Some(Value::List(_)) | Some(Value::Map(_)));
        let explicit = self.p.fmts && (self.r.pct(self.p.fmt) || (container && !self.r.pct(self.p.err)));
        if explicit {
            self.feat("formatter");
            let bad = self.r.pct(self.p.bad_fn);
            let name = if bad {
                *self.r.pick(&["ferr", "fbare", "strict", "fallback", "nofmt"])
            } else {
                *self.r.pick(&["dump", "esc", "chars", "nothing", "frep", "careless", "stock", "stock"])
            };
            toks.push("|".into());
            toks.push(self.called(name));
        }
        let t = self.tag(K::Expr, &toks);
        pre + &t + &post
    }

    /// One of the names of a function.
    fn called(&mut self, name: &str) -> String {
        match funcs::named(name) {
            Some(f) if self.r.bool() => funcs::alias(self.r, f).unwrap_or_else(|| name.into()),
            _ => name.into(),
        }
    }

    fn kw(words: &[&str]) -> Vec<String> {
        words.iter().map(|s| s.to_string()).collect()
    }

    fn cond(&mut self, head: &[&str]) -> (String, Vec<String>, String) {
        let mut t = Self::kw(head);
        if self.r.pct(30) {
            self.feat("not");
            t.push("not".into());
        }
        let e = self.expr(Want::Any).0;
        let (pre, e, post) = if head[0] == "if" { self.bound(e) } else { (String::new(), e, String::new()) };
        t.extend(e);
        (pre, t, post)
    }

    fn if_(&mut self, depth: usize, out: &mut String) {
        self.feat("if");
        let (pre, t, post) = self.cond(&["if"]);
        out.push_str(&pre);
        self.block(t, out);
        let b = self.small_body(depth);
        out.push_str(&b);
        let arms = match self.r.below(8) {
            0..=4 => 0,
            5 | 6 => 1,
            _ => self.r.range(2, 4),
        };
        for _ in 0..arms {
            self.feat("else if");
            let (_, t, _) = self.cond(&["else", "if"]);
            self.block(t, out);
            let b = self.small_body(depth);
            out.push_str(&b);
        }
        if self.r.pct(55) {
            self.feat("else");
            self.block(Self::kw(&["else"]), out);
            let b = self.small_body(depth);
            out.push_str(&b);
        }
        self.block(Self::kw(&["endif"]), out);
        out.push_str(&post);
    }

    fn bind_name(&mut self) -> String {
        // Often shadow something.
        if self.r.pct(40) && !self.scope.is_empty() {
            let k = self.r.below(self.scope.len());
            return self.scope[k].name.clone();
        }
        name(self.r)
    }

    fn for_(&mut self, depth: usize, out: &mut String) {
        self.feat("for");
        let (it, sample) = self.expr(Want::Iter);
        let is_map = matches!(sample, Some(Value::Map(_)));
        let two = if self.r.pct(self.p.err) { !is_map } else { is_map };
        let v1 = self.bind_name();
        let mut t = Self::kw(&["for"]);
        t.push(v1.clone());
        let mut v2 = None;
        if two {
            self.feat("for map");
            let mut n = self.bind_name();
            if self.p.same_names && self.r.one_in(6) {
                n = v1.clone();
            } else if n == v1 {
                n = format!("{n}_");
            }
            t.push(",".into());
            t.push(n.clone());
            v2 = Some(n);
        }
        t.push("in".into());
        let (pre, it, post) = self.bound(it);
        t.extend(it);
        out.push_str(&pre);
        self.block(t, out);
        let mark = self.scope.len();
        self.scope.push(Bind {
            name: "loop".into(),
            sample: Some(crate::val::map([
                ("index", Value::Integer(0)),
                ("first", Value::Bool(true)),
                ("last", Value::Bool(false)),
            ])),
        });
        match (&sample, v2) {
            (Some(Value::Map(m)), Some(n)) => {
                let f = m.iter().next();
                self.scope.push(Bind { name: n, sample: f.map(|x| x.1.clone()) });
                self.scope.push(Bind { name: v1, sample: f.map(|x| Value::String(x.0.clone())) });
            }
            (Some(Value::List(l)), None) => {
                let k = if l.is_empty() { 0 } else { self.r.below(l.len()) };
                self.scope.push(Bind { name: v1, sample: l.get(k).cloned() });
            }
            (_, n) => {
                self.scope.push(Bind { name: v1, sample: None });
                if let Some(n) = n {
                    self.scope.push(Bind { name: n, sample: None });
                }
            }
        }
        let b = self.small_body(depth);
        out.push_str(&b);
        if self.r.pct(50) {
            let t = self.emit();
            out.push_str(&t);
        }
        self.scope.truncate(mark);
        self.block(Self::kw(&["endfor"]), out);
        out.push_str(&post);
    }

    fn with(&mut self, depth: usize, out: &mut String) {
        self.feat("with");
        let (e, sample) = self.expr(Want::Any);
        let name = self.bind_name();
        let mut t = Self::kw(&["with"]);
        let (pre, e, post) = self.bound(e);
        t.extend(e);
        t.push("as".into());
        t.push(name.clone());
        out.push_str(&pre);
        self.block(t, out);
        self.scope.push(Bind { name, sample });
        let b = self.small_body(depth);
        out.push_str(&b);
        if self.r.pct(60) {
            let t = self.emit();
            out.push_str(&t);
        }
        self.scope.pop();
        self.block(Self::kw(&["endwith"]), out);
        out.push_str(&post);
    }

    fn include(&mut self, depth: usize, out: &mut String) {
        self.feat("include");
        let with = if self.r.pct(45) { Some(self.expr(Want::Any)) } else { None };
        let name = if self.r.pct(self.p.err) {
            self.feat("unknown include");
            if self.r.bool() {
                "does not exist".to_string()
            } else {
                let all = tpl_names();
                if self.r.bool() { tpl_name(self.r, &all) } else { self.r.pick(&all).clone() }
            }
        } else if !self.open_templates.is_empty() && self.r.pct(self.p.recur) {
            self.feat("recursive include");
            self.open_templates[self.r.below(self.open_templates.len())].clone()
        } else if !self.templates.is_empty() && self.r.pct(30) {
            self.templates[self.r.below(self.templates.len())].0.clone()
        } else {
            let free: Vec<String> = tpl_names().into_iter().filter(|n| !self.names_used.contains(n)).collect();
            match free.len() {
                0 => self.names_used[0].clone(),
                _ => {
                    let name = free[self.r.below(free.len())].to_string();
                    self.names_used.push(name.clone());
                    self.open_templates.push(name.clone());
                    // Generate it here, in the scope it will see.
                    let saved = with.as_ref().map(|(_, s)| {
                        (std::mem::take(&mut self.scope), std::mem::replace(&mut self.root, s.clone()))
                    });
                    let n = self.r.range(1, 3);
                    let mut body = self.body(n, depth + 1);
                    if self.r.pct(50) {
                        body.push_str(&self.emit());
                    }
                    if let Some((s, r)) = saved {
                        self.scope = s;
                        self.root = r;
                    }
                    self.open_templates.pop();
                    self.templates.push((name.clone(), body));
                    name
                }
            }
        };
        let mut t = Self::kw(&["include"]);
        t.push(str_literal(self.r, &name));
        let mut post = String::new();
        if let Some((e, _)) = with {
            self.feat("include with");
            t.push("with".into());
            let (pre, e, p) = self.bound(e);
            post = p;
            t.extend(e);
            out.push_str(&pre);
        }
        self.block(t, out);
        out.push_str(&post);
    }

    fn comment(&mut self, out: &mut String) {
        self.feat("comment");
        let mut t = vec![];
        for _ in 0..self.r.below(3) {
            t.push(self.r.pick(&["note", "if", "-", "| x", "\"", "\n", "é中", "endif", "a.b"]).to_string());
        }
        if t.is_empty() && self.r.bool() {
            let (b, e) = self.syn.get(K::Comment).cloned().unwrap_or_default();
            out.push_str(&b);
            out.push_str(&e);
            return;
        }
        if self.p.trim == 0 && t.iter().any(|t| t == "-") {
            // A dash next to a delimiter trims.
            t.insert(0, "c".into());
            t.push("c".into());
        }
        let t = self.tag(K::Comment, &t);
        out.push_str(&t);
    }

    // -- expressions -------------------------------------------------------------

    fn roots(&self) -> Vec<(String, Option<Value>)> {
        let mut out: Vec<(String, Option<Value>)> = vec![];
        for b in self.scope.iter().rev() {
            if !out.iter().any(|o| o.0 == b.name) {
                out.push((b.name.clone(), b.sample.clone()));
            }
        }
        if let Some(Value::Map(m)) = &self.root {
            for (k, v) in m {
                if ident_ok(k) && !out.iter().any(|o| o.0 == *k) {
                    out.push((k.clone(), Some(v.clone())));
                }
            }
        }
        out
    }

    /// A path, with the value it has on the sample data.
    pub fn path(&mut self) -> Option<(Vec<String>, Option<Value>)> {
        let roots = self.roots();
        if roots.is_empty() || self.r.pct(self.p.err) {
            if !roots.is_empty() || self.r.pct(self.p.err.max(5)) {
                self.feat("unbound name");
                return Some((vec![self.r.pick(&["nope", "zz", "loop", "_"]).to_string()], None));
            }
            return None;
        }
        // Prefer inner names.
        let k = if self.r.pct(50) { self.r.below(roots.len().min(4)) } else { self.r.below(roots.len()) };
        let (name, mut cur) = roots[k].clone();
        let mut toks = vec![name];
        loop {
            let go = match &cur {
                Some(Value::List(l)) => !l.is_empty() && self.r.pct(60),
                Some(Value::Map(m)) => m.keys().any(|k| ident_ok(k)) && self.r.pct(70),
                _ => false,
            };
            let op = if self.r.pct(self.p.opt) { "?." } else { "." };
            if !go {
                if self.r.pct(self.p.opt) {
                    // Absent, optionally.
                    match &cur {
                        Some(Value::List(l)) => {
                            self.feat("optional absent");
                            let i = l.len() + self.r.below(3);
                            toks.push("?.".into());
                            toks.push(i.to_string());
                            cur = Some(Value::None);
                        }
                        Some(Value::Map(m)) => {
                            self.feat("optional absent");
                            let mut k = self::name(self.r);
                            while m.contains_key(&k) {
                                k.push('q');
                            }
                            toks.push("?.".into());
                            toks.push(k);
                            cur = Some(Value::None);
                        }
                        _ if self.r.pct(self.p.err) => {
                            self.feat("optional into something else");
                            toks.push("?.".into());
                            toks.push(self.r.pick(&["0", "1", "a", "nope"]).to_string());
                            cur = None;
                        }
                        _ => {}
                    }
                    // The rest of an absent path is not looked at.
                    if cur == Some(Value::None) && toks.len() > 2 && self.r.pct(30) {
                        toks.push(self.r.pick(&[".", "?."]).to_string());
                        toks.push(self.r.pick(&["a", "0", "zz"]).to_string());
                    }
                } else if self.r.pct(self.p.err) {
                    self.feat("bad segment");
                    toks.push(op.into());
                    toks.push(self.r.pick(&["nope", "0", "99", "a", "18446744073709551615"]).to_string());
                    cur = None;
                }
                break;
            }
            toks.push(op.into());
            match cur.take() {
                Some(Value::List(l)) => {
                    let i = self.r.below(l.len());
                    toks.push(if self.r.one_in(12) { format!("0{i}") } else { i.to_string() });
                    cur = Some(l[i].clone());
                }
                Some(Value::Map(m)) => {
                    let ks: Vec<&String> = m.keys().filter(|k| ident_ok(k)).collect();
                    let k = ks[self.r.below(ks.len())].clone();
                    cur = Some(m[&k].clone());
                    toks.push(k);
                }
                _ => unreachable!(),
            }
        }
        if toks.len() > 1 {
            self.feat("path");
        }
        Some((toks, cur))
    }

    fn lit_of(&mut self, want: Want) -> (Vec<String>, Option<Value>) {
        self.feat("literal");
        let v = match want {
            Want::Ty(Ty::Str | Ty::StrRef) => Value::String(string(self.r)),
            Want::Ty(Ty::F32 | Ty::F64) => loop {
                let f = float(self.r);
                if f.is_finite() {
                    break Value::Float(f);
                }
            },
            Want::Ty(Ty::Bool) | Want::Bool => Value::Bool(self.r.bool()),
            Want::Ty(Ty::U8) => Value::Integer(self.r.below(256) as i64),
            Want::Ty(Ty::I64) => Value::Integer(int(self.r)),
            _ => loop {
                let v = scalar(self.r);
                if v != Value::None && !matches!(v, Value::Float(f) if !f.is_finite()) {
                    break v;
                }
            },
        };
        let t = literal(self.r, &v).unwrap();
        (vec![t], Some(v))
    }

    fn fits(want: Want, v: &Option<Value>) -> bool {
        match (want, v) {
            (Want::Any, _) => true,
            (_, None) => true,
            (Want::Text, Some(v)) => !matches!(v, Value::List(_) | Value::Map(_)),
            (Want::Iter, Some(v)) => matches!(v, Value::List(_) | Value::Map(_)),
            (Want::Bool, Some(v)) => matches!(v, Value::Bool(_)),
            (Want::Ty(t), Some(v)) => convert(t, v, None).is_ok(),
        }
    }

    /// A path or literal.
    pub fn base(&mut self, want: Want) -> (Vec<String>, Option<Value>) {
        if want != Want::Iter && self.r.pct(self.p.lit) {
            let l = self.lit_of(want);
            if Self::fits(want, &l.1) {
                return l;
            }
        }
        for _ in 0..8 {
            if let Some((t, v)) = self.path() {
                if Self::fits(want, &v) && (v.is_some() || want == Want::Any || self.r.pct(10)) {
                    return (t, v);
                }
            }
        }
        if self.r.pct(self.p.err) {
            if let Some(p) = self.path() {
                return p;
            }
        }
        self.lit_of(want)
    }

    /// The start of an expression.
    fn start(&mut self, want: Want) -> (Vec<String>, Option<Value>) {
        let (mut t, v) = self.base(want);
        if let Twist::Filter(f) = self.p.twist {
            t.push("|".into());
            t.push(f.into());
        }
        (t, v)
    }

    /// Makes a name known to the generator.
    pub fn bind(&mut self, name: &str, sample: Option<Value>) {
        self.scope.push(Bind { name: name.into(), sample });
    }

    pub fn unbind(&mut self) {
        self.scope.pop();
    }

    pub fn expr(&mut self, want: Want) -> (Vec<String>, Option<Value>) {
        let any = self.r.pct(self.p.filters);
        if !any {
            let (t, v) = self.start(want);
            if Self::fits(want, &v) {
                return (t, v);
            }
        }
        for _ in 0..6 {
            let (mut toks, mut cur) = self.start(Want::Any);
            let n = match self.r.below(10) {
                0..=5 => 1,
                6..=8 => 2,
                _ => self.r.range(3, 6),
            };
            for _ in 0..n {
                self.call(&mut toks, &mut cur);
            }
            if Self::fits(want, &cur) {
                return (toks, cur);
            }
        }
        if want == Want::Iter {
            if self.r.pct(self.p.err) {
                return self.start(Want::Any);
            }
            if self.p.filters == 0 {
                // Nothing iterable in scope and no filters: fall back on whatever there is.
                return self.start(Want::Any);
            }
            let n = self.r.below(4);
            return (
                vec![n.to_string(), "|".into(), "range".into()],
                Some(Value::List((0..n as i64).map(Value::Integer).collect())),
            );
        }
        let (t, v) = self.lit_of(want);
        (t, v)
    }

    /// Appends one filter call.
    fn call(&mut self, toks: &mut Vec<String>, cur: &mut Option<Value>) {
        let bad = self.r.pct(self.p.bad_fn);
        let wrong = self.r.pct(self.p.err);
        if bad && self.r.pct(30) {
            self.feat("unknown filter");
            toks.push("|".into());
            let name = *self.r.pick(&["nosuch", "ID", "id2", "dump", "idrr"]);
            // At the end of a tag that one is allowed, which a rewritten program would not keep.
            toks.push(match self.p.only.is_empty() {
                true if self.r.pct(30) => ident(self.r, &["id".into(), "dump".into(), "x".into()]),
                true => name.to_string(),
                false => "nosuch".to_string(),
            });
            *cur = None;
            return;
        }
        let options: Vec<FilterKind> = FILTERS
            .iter()
            .copied()
            .filter(|f| self.p.only.is_empty() || self.p.only.contains(&f.name()))
            .filter(|f| *f != FilterKind::Fail || bad)
            .filter(|f| wrong || cur.as_ref().is_none_or(|v| convert(f.sig()[0], v, None).is_ok()))
            .collect();
        if options.is_empty() {
            return;
        }
        let f = options[self.r.below(options.len())];
        self.feat("filter");
        toks.push("|".into());
        let called = self.called(f.name());
        toks.push(called);
        let mut n = f.sig().len() - 1;
        if wrong && self.r.pct(30) {
            n = if self.r.bool() { n + 1 } else { n.saturating_sub(1) };
        }
        let mut samples = vec![];
        if let Some(v) = cur.as_ref().and_then(|v| convert(f.sig()[0], v, None).ok()) {
            samples.push(v);
        }
        for k in 0..n {
            let want = match f.sig().get(k + 1) {
                Some(_) if self.r.pct(self.p.err) => Want::Any,
                Some(Ty::Val) | None => Want::Any,
                Some(t) => Want::Ty(*t),
            };
            toks.push(if k == 0 { ":" } else { "," }.into());
            let (t, v) = self.base(want);
            toks.extend(t);
            if let Some(v) = v.and_then(|v| f.sig().get(k + 1).and_then(|t| convert(*t, &v, None).ok())) {
                samples.push(v);
            }
        }
        *cur = if samples.len() == f.sig().len() && n + 1 == f.sig().len() { f.apply(&samples).ok() } else { None };
    }
}

fn word_end(t: &str) -> bool {
    t.chars().last().is_some_and(|c| c == '_' || c.is_alphanumeric() || !c.is_ascii())
}

fn word_start(t: &str) -> bool {
    t.chars().next().is_some_and(|c| c == '_' || c.is_alphanumeric() || !c.is_ascii())
}

/// Registered functions for a case: the whole library.
pub fn library() -> Vec<(String, Func)> {
    funcs::library()
}

pub fn any_fmt(r: &mut Rng) -> Fmt {
    *r.pick(&[Fmt::Builtin, Fmt::Builtin, Fmt::Builtin, Fmt::Dump, Fmt::Esc, Fmt::Chars, Fmt::Rep, Fmt::Strict, Fmt::Careless, Fmt::Stock, Fmt::Fallback])
}

// ---------------------------------------------------------------------------
// Syntaxes
// ---------------------------------------------------------------------------

/// A set of well-behaved alternative delimiters: none occurs in another or in generated text,
/// and none contains characters of the expression language.
pub const CLEAN: &[(&str, &str)] = &[
    ("<<[", "]>>"),
    ("@(", ")@"),
    ("\u{ab}", "\u{bb}"),
    ("[[~", "~]]"),
    ("$\u{1F600}$", "\u{1F601}"),
    ("/*!", "!*/"),
    ("^^", "^!"),
    ("\u{3010}", "\u{3011}"),
    ("\u{1}", "\u{2}"),
    ("=*=", "=!="),
];

pub fn clean_syntax(r: &mut Rng) -> Syn {
    let mut c: Vec<usize> = (0..CLEAN.len()).collect();
    r.shuffle(&mut c);
    let g = |i: usize| CLEAN[c[i]];
    let (a, b, d) = (g(0), g(1), g(2));
    Syn::new(a.0, a.1, b.0, b.1, d.0, d.1)
}

const ODD_DELIMS: &[&str] = &[
    "{", "}", "{{", "}}", "{{{", "}}}", "<", ">", "<%", "%>", "<%=", "%", "#", "##", "{#", "#}", "[", "]", "((", "))", "$", "${", "-", "--", "<-", "->",
    "|", ".", "\"", "é", "éé", "中", "\u{1F600}", " ", "\n", "\t", "if", "endif", "a", "ab", "abc", "x", "0", "1x", "?", ",", ":", "+", "{-", "-}",
    "\u{301}", "\\", "//", "/*", "*/", "<!--", "-->", "\u{0}", "_", "end", "{{-", "-}}",
];

/// A character whose encoding differs from that of `c` in few bits.
pub fn near_char(r: &mut Rng, c: char) -> char {
    for _ in 0..8 {
        let bit = *r.pick(&[6, 12, 18, 16, 7, 8, 11, 13, 17, 0, 1, 5]);
        match char::from_u32(c as u32 ^ (1 << bit)) {
            // Of the same length.
            Some(x) if x.len_utf8() == c.len_utf8() && x != c => return x,
            _ => {}
        }
    }
    c
}

/// The text with some characters that delimiters consist of replaced by near ones, and near
/// misses of delimiters inserted.
pub fn near_misses(r: &mut Rng, syn: &Syn, src: &str) -> String {
    let pats = syn.patterns();
    if pats.is_empty() {
        return src.into();
    }
    let miss = |r: &mut Rng| -> String {
        let p: Vec<char> = r.pick(&pats).text.chars().collect();
        let k = r.below(p.len());
        p.iter().enumerate().map(|(i, c)| if i == k { near_char(r, *c) } else { *c }).collect()
    };
    let mut out = String::new();
    for c in src.chars() {
        if r.one_in(12) {
            out.push_str(&miss(r));
        }
        if r.one_in(10) && pats.iter().any(|p| p.text.contains(c)) {
            out.push(near_char(r, c));
        } else {
            out.push(c);
        }
    }
    out.push_str(&miss(r));
    out
}

/// Arbitrary delimiters, often overlapping.
pub fn odd_syntax(r: &mut Rng) -> Syn {
    fn d(r: &mut Rng) -> String {
        match r.below(6) {
            0 => {
                // Same letters, many overlaps.
                (0..r.range(1, 4)).map(|_| *r.pick(&['a', 'b', '-', '{'])).collect()
            }
            1 => {
                let mut s = r.pick(ODD_DELIMS).to_string();
                s.push_str(r.pick(ODD_DELIMS));
                s
            }
            2 if r.one_in(4) => (0..r.range(1, 3)).map(|_| any_char(r)).collect(),
            _ => r.pick(ODD_DELIMS).to_string(),
        }
    }
    loop {
        let pair = |r: &mut Rng, p: usize| if r.pct(p) { Some((d(r), d(r))) } else { None };
        let mut s = Syn { expr: pair(r, 92), block: pair(r, 85), comment: pair(r, 75) };
        if r.one_in(8) {
            // Delimiters near to others.
            let all: Vec<String> = [&s.expr, &s.block, &s.comment].into_iter().flatten().flat_map(|p| [p.0.clone(), p.1.clone()]).collect();
            for p in [&mut s.expr, &mut s.block, &mut s.comment].into_iter().flatten() {
                for d in [&mut p.0, &mut p.1] {
                    if r.one_in(3) {
                        let c: Vec<char> = r.pick(&all).chars().collect();
                        let k = r.below(c.len().max(1));
                        *d = c.iter().enumerate().map(|(i, c)| if i == k { near_char(r, *c) } else { *c }).collect();
                    }
                }
            }
        }
        let pats = s.patterns();
        // The builder rejects equal patterns only by panicking in debug; keep them apart.
        let mut seen = std::collections::BTreeSet::new();
        if pats.iter().all(|p| !p.text.is_empty() && seen.insert(p.text.clone())) {
            return s;
        }
    }
}

// ---------------------------------------------------------------------------
// Unstructured sources
// ---------------------------------------------------------------------------

const TOKENS: &[&str] = &[
    "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "true", "false", "a", "b", "loop", "x1", "_",
    "é", "名", ".", "?.", "?", "|", ",", ":", "+", "-", "0", "1", "007", "0x1f", "0b2", "1.5", "1e3", "1e", "0x", "9223372036854775808", "1.2.3",
    "\"s\"", "\"\"", "\"a\\n\"", "\"\\q\"", "\"", "\"\\", "\\", "\n", "\r", "=", "(", "\u{a0}", "$", "\u{1F600}", "\"}}\"", "id", "dump", "a.b",
    "a.0", "a?.b", "list | id", "wrap: \"x\"",
];

fn delim(r: &mut Rng, pats: &[crate::model::syn::Pat]) -> String {
    if pats.is_empty() {
        return "{{".into();
    }
    r.pick(pats).text.clone()
}

/// A random sequence of pieces of the language.
pub fn soup(r: &mut Rng, syn: &Syn) -> String {
    let pats = syn.patterns();
    let n = match r.below(12) {
        0..=6 => r.range(1, 8),
        7..=9 => r.range(4, 25),
        10 => r.range(10, 80),
        _ => crate::dict::size(r, 300),
    };
    let mut s = String::new();
    for _ in 0..n {
        match r.below(20) {
            0..=4 => s.push_str(&delim(r, &pats)),
            5..=9 => {
                s.push_str(r.pick(TOKENS));
                if r.pct(60) {
                    s.push(' ');
                }
            }
            10 | 11 => s.push_str(r.pick(SPACES)),
            12 | 13 => s.push_str(r.pick(WORDS)),
            14 => s.push(any_char(r)),
            15 => s.push_str(&crate::dict::word(r)),
            // A whole tag around a few tokens.
            _ => {
                let k = *r.pick(&[K::Expr, K::Expr, K::Block, K::Block, K::Block, K::Comment]);
                if let Some((b, e)) = syn.get(k) {
                    s.push_str(b);
                    if r.pct(10) {
                        s.push('-');
                    }
                    s.push(' ');
                    let m = r.range(0, 4);
                    for _ in 0..m {
                        s.push_str(r.pick(TOKENS));
                        s.push(' ');
                    }
                    if r.pct(10) {
                        s.push('-');
                    }
                    if r.pct(95) {
                        s.push_str(e);
                    }
                }
            }
        }
    }
    s
}

/// Blocks that nest almost correctly.
pub fn block_soup(r: &mut Rng, syn: &Syn) -> String {
    let Some((b, e)) = syn.block.clone() else { return soup(r, syn) };
    let mut open: Vec<&str> = vec![];
    let mut s = String::new();
    for _ in 0..r.range(1, 14) {
        let t = match r.below(12) {
            0 | 1 => {
                open.push("endif");
                if r.bool() {
                    "if a"
                } else {
                    "if not a"
                }
            }
            2 => {
                open.push("endfor");
                "for x in a"
            }
            3 => {
                open.push("endwith");
                "with a as x"
            }
            4 | 5 => "else",
            6 => "else if b",
            7..=9 => match open.pop() {
                Some(t) if !r.one_in(12) => t,
                _ => *r.pick(&["endif", "endfor", "endwith"]),
            },
            10 => "include \"t\"",
            _ => *r.pick(&["endif", "endfor", "endwith", "", "else not", "if", "for x", "with a", "endif a", "elseif a", "else if not a", "include t"]),
        };
        s.push_str(&format!("{b} {t} {e}"));
        if r.one_in(3) {
            s.push_str(r.pick(&["x", " ", "\n"]));
        }
    }
    while let Some(t) = open.pop() {
        if r.one_in(15) {
            continue;
        }
        s.push_str(&format!("{b} {t} {e}"));
    }
    s
}

/// One expression or block tag with tokens from a loose grammar: mostly valid, often just not.
pub fn tag_soup(r: &mut Rng, syn: &Syn) -> String {
    fn base(r: &mut Rng, o: &mut Vec<String>) {
        match r.below(10) {
            0..=5 => {
                o.push(r.pick(&["a", "b", "user", "if", "loop", "_x", "é", "true", "in"]).to_string());
                while r.pct(40) {
                    o.push(r.pick(&[".", "?.", ".", ".."]).to_string());
                    o.push(r.pick(&["b", "0", "12", "as", "é", "0x1", "-1", "99999999999999999999", "c", "1a"]).to_string());
                }
            }
            6 | 7 => o.push(r.pick(&["1", "-1", "+ 1", "\"s\"", "\"\\\"\"", "1.5", "--1", "true", "0b12", "\"\\x\"", "1_000", "- \"s\""]).to_string()),
            8 => {}
            _ => o.push(r.pick(TOKENS).to_string()),
        }
    }
    fn expr(r: &mut Rng, o: &mut Vec<String>) {
        base(r, o);
        while r.pct(35) {
            o.push("|".into());
            if r.pct(95) {
                o.push(r.pick(&["f", "id", "dump", "é", "if", "1", "wrap"]).to_string());
            }
            if r.pct(35) {
                o.push(":".into());
                if r.pct(95) {
                    base(r, o);
                }
                while r.pct(35) {
                    o.push(",".into());
                    if r.pct(95) {
                        base(r, o);
                    }
                }
            }
        }
    }
    let mut o: Vec<String> = vec![];
    let mut tail = String::new();
    let (kb, ke) = syn.block.clone().unwrap_or(("{%".into(), "%}".into()));
    let mut kind = K::Block;
    match r.below(8) {
        0..=2 => {
            kind = K::Expr;
            expr(r, &mut o);
        }
        3 => {
            o.push("if".into());
            if r.pct(30) {
                o.push("not".into());
            }
            expr(r, &mut o);
            tail = format!("{kb} endif {ke}");
        }
        4 => {
            o.push("for".into());
            o.push(r.pick(&["x", "in", "é", "a.b", "x", "x"]).to_string());
            if r.pct(40) {
                o.push(",".into());
                o.push(r.pick(&["y", "if", "y"]).to_string());
            }
            if r.pct(95) {
                o.push("in".into());
            }
            expr(r, &mut o);
            tail = format!("{kb} endfor {ke}");
        }
        5 => {
            o.push("with".into());
            expr(r, &mut o);
            if r.pct(95) {
                o.push("as".into());
            }
            o.push(r.pick(&["x", "as", "x", "é"]).to_string());
            tail = format!("{kb} endwith {ke}");
        }
        6 => {
            o.push("include".into());
            o.push(r.pick(&["\"t\"", "t", "\"\"", "\"t\""]).to_string());
            if r.pct(40) {
                o.push("with".into());
                expr(r, &mut o);
            }
        }
        _ => {
            for _ in 0..r.range(0, 6) {
                o.push(r.pick(TOKENS).to_string());
            }
        }
    }
    if r.one_in(12) && !o.is_empty() {
        let k = r.below(o.len());
        match r.below(3) {
            0 => {
                o.remove(k);
            }
            1 => o.insert(k, r.pick(TOKENS).to_string()),
            _ => o.insert(k, o[k].clone()),
        }
    }
    let (b, e) = syn.get(kind).cloned().unwrap_or((kb, ke));
    let mut s = b;
    let sep = r.below(3);
    if r.pct(15) {
        s.push('-');
    }
    if sep > 0 {
        s.push(' ');
    }
    for (i, t) in o.iter().enumerate() {
        if i > 0 {
            let glue = word_end(&o[i - 1]) && word_start(t);
            match sep {
                0 if !glue || r.one_in(12) => {}
                1 => s.push(' '),
                _ => s.push_str(r.pick(&[" ", "  ", "\t", " "])),
            }
        }
        s.push_str(t);
    }
    if sep > 0 {
        s.push(' ');
    }
    if r.pct(15) {
        s.push('-');
    }
    s + &e + &tail
}

/// A few random edits.
pub fn mutate(r: &mut Rng, src: &str, syn: &Syn) -> String {
    let pats = syn.patterns();
    let mut c: Vec<char> = src.chars().collect();
    let n = if r.bool() { 1 } else { r.range(1, 6) };
    for _ in 0..n {
        let at = r.below(c.len() + 1);
        let most = if r.pct(70) { 3 } else { 30 };
        let end = (at + r.range(1, most)).min(c.len());
        match r.below(9) {
            0 | 1 => {
                c.drain(at..end);
            }
            2 => {
                let x = c[at..end].to_vec();
                c.splice(at..at, x);
            }
            3 => {
                c.splice(at..at, delim(r, &pats).chars());
            }
            4 => {
                c.splice(at..at, r.pick(TOKENS).chars());
            }
            5 => {
                let x = any_char(r);
                c.insert(at, x);
            }
            6 => {
                let x: Vec<char> = r.pick(SPACES).chars().collect();
                c.splice(at..end, x);
            }
            7 => c.truncate(at),
            _ => {
                let to = r.below(c.len() + 1);
                let x: Vec<char> = c.drain(at..end).collect();
                let to = to.min(c.len());
                c.splice(to..to, x);
            }
        }
    }
    c.into_iter().collect()
}
