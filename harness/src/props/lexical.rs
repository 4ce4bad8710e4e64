//! C01, C03, C04, C05, C06, C07: from text to templates.

use super::common::{note, program, Opt};
use super::scale::{turn, G};
use crate::check::{Ctx, Prop};
use crate::dict;
use crate::funcs::{self, Fmt};
use crate::gen::{self, Gen, Profile};
use crate::model::eval::{CtxMode, Kind};
use crate::model::syn::{find, Pat, Syn, K};
use crate::obs::{self, compare, diff, differ, guard, new_engine, res, run_model, run_real, Boom, Case, Judge, Res, Root};
use crate::rng::{mix, Rng};
use crate::val::{dump, same, Map, Value};

// ---------------------------------------------------------------------------
// C01
// ---------------------------------------------------------------------------

/// Delimiters, including equal ones (the builder accepts them).
fn any_syntax(r: &mut Rng) -> Syn {
    match r.below(10) {
        0..=4 => Syn::default(),
        5 => gen::clean_syntax(r),
        6..=8 => gen::odd_syntax(r),
        _ => {
            let mut s = gen::odd_syntax(r);
            if let Some(e) = s.expr.clone() {
                match r.below(4) {
                    0 => s.block = Some(e),
                    1 => s.expr = Some((e.0.clone(), e.0)),
                    2 => s.block = Some((format!("{}-", e.0), format!("-{}", e.1))),
                    _ => s.comment = Some((e.1, e.0)),
                }
            }
            s
        }
    }
}

fn any_source(r: &mut Rng, syn: &Syn) -> String {
    match r.below(20) {
        0..=5 => gen::soup(r, syn),
        6..=8 => gen::tag_soup(r, syn),
        9 | 10 => gen::block_soup(r, syn),
        11..=15 => {
            let mut o = Opt { syn: 0, stretch: 0, ..Default::default() };
            o.profile.err = 5;
            let data = gen::context(r);
            let mut g = Gen::new(r, o.profile, syn.clone(), &data);
            let t = g.template();
            gen::mutate(r, &t, syn)
        }
        16 => (0..r.range(0, 40)).map(|_| gen::any_char(r)).collect(),
        17 => {
            let mut s = gen::soup(r, syn);
            for _ in 0..r.range(1, 4) {
                s = gen::mutate(r, &s, syn);
            }
            s
        }
        18 => {
            // Long: raw text with a few tags, or one long tag.
            let n = dict::size(r, 3000);
            let unit = gen::soup(r, syn);
            let mut s = String::new();
            if r.bool() {
                let w: String = r.pick(gen::WORDS).repeat(1 + n / 8);
                s.push_str(&w);
                s.push_str(&unit);
                s.push_str(&w);
                s.push_str(&unit);
            } else {
                let (b, e) = syn.expr.clone().unwrap_or(("{{".into(), "}}".into()));
                let w = *r.pick(&["a.", "a|", "1,", "\"x\" ", "- ", "\\", "é", "x", "0", " "]);
                s = format!("{b} {}{e}", w.repeat(1 + n / 8));
            }
            s
        }
        _ => {
            // Truncated anywhere.
            let s = format!("{}{}", gen::soup(r, syn), gen::tag_soup(r, syn));
            let n = s.chars().count();
            s.chars().take(r.below(n + 1)).collect()
        }
    }
}

fn c01(ctx: &mut Ctx) -> Result<(), String> {
    let r = &mut ctx.rng;
    let (syn, src) = if ctx.idx % 500 == 11 {
        // Very large in one way.
        let kinds = [(G::Far, 140_000), (G::Token, 140_000), (G::Text, 500_000), (G::Body, 70_000), (G::Space, 70_000), (G::Huge, 1), (G::Deep, 2000), (G::Path, 2000), (G::Chain, 2000), (G::Arms, 2000), (G::Delim, 5000)];
        let (g, big) = kinds[(ctx.idx / 500) as usize % kinds.len()];
        let c = super::scale::program(r, g, big);
        let src = c.sources().last().unwrap().to_string();
        (c.syn, src)
    } else {
        let syn = any_syntax(r);
        let src = any_source(r, &syn);
        (syn, src)
    };
    let via = r.below(3);
    let show = || format!("\n  syntax: {}\n  source: {src:?}", syn.describe());
    if ctx.verbose {
        println!("{}", show());
    }
    let engine = guard(|| new_engine(&syn)).map_err(|b| format!("building the engine panicked: {b:?}{}", show()))?;
    let once = |n: usize| -> Res {
        match (via + n) % 3 {
            0 => {
                let (r, t) = res(guard(|| engine.compile(src.as_str())));
                if let Some(t) = t {
                    if t.source() != src {
                        return Res::Boom(Boom::Own("source() differs from the compiled text".into()));
                    }
                    let _ = format!("{t:?}");
                }
                r
            }
            1 => res(guard(|| engine.compile(src.clone()))).0,
            _ => res(guard(|| {
                let mut e = new_engine(&syn);
                let r = e.add_template("<anonymous>", src.clone());
                let _ = format!("{e:?}");
                r
            }))
            .0,
        }
    };
    let a = once(0);
    let b = once(1);
    for x in [&a, &b] {
        match x {
            Res::Boom(b) => return Err(format!("compiling panicked: {b:?}{}", show())),
            Res::Err(e) if e.kind != Some(Kind::Syntax) => {
                return Err(format!("compiling failed with something else than a syntax error: {}{}", e.plain, show()))
            }
            _ => {}
        }
    }
    if a != b {
        return Err(format!("compiling twice differs: {} / {}{}", a.brief(), b.brief(), show()));
    }
    if a.ok() {
        ctx.count("compiled");
    } else {
        ctx.count("rejected");
        ctx.count("errors formatted in four forms");
    }
    if !src.is_ascii() {
        ctx.count("non-ASCII sources");
    }
    if syn != Syn::default() {
        ctx.count("custom delimiters");
    }
    ctx.max("source bytes", src.len() as u64);
    let tags = find(&syn.patterns(), &src, 0).is_some();
    ctx.case(&format!("{}\u{1f}{src}", syn.describe()), tags);
    Ok(())
}

// ---------------------------------------------------------------------------
// C03
// ---------------------------------------------------------------------------

fn free_text(r: &mut Rng, pats: &[Pat]) -> String {
    loop {
        let mut s = String::new();
        let n = match r.below(8) {
            0..=5 => r.range(0, 6),
            6 => r.range(5, 60),
            _ => dict::size(r, 700),
        };
        for _ in 0..n {
            match r.below(12) {
                0..=3 => s.push_str(r.pick(gen::WORDS)),
                4..=6 => s.push_str(r.pick(gen::SPACES)),
                7 | 8 => s.push(gen::any_char(r)),
                9 => s.push_str(&dict::word(r)),
                // Pieces of delimiters.
                _ if !pats.is_empty() => {
                    let p: Vec<char> = r.pick(pats).text.chars().collect();
                    let k = r.below(p.len());
                    if r.bool() {
                        s.extend(&p[..k]);
                    } else {
                        s.extend(&p[k + usize::from(p.len() > 1).min(p.len() - k)..]);
                    }
                }
                _ => s.push('{'),
            }
        }
        if find(pats, &s, 0).is_none() {
            return s;
        }
        // Break the delimiters up.
        let mut guard = 0;
        while let Some(h) = find(pats, &s, 0) {
            let end = s[h.start..].chars().next().map_or(h.start, |c| h.start + c.len_utf8());
            s.replace_range(h.start..end, "");
            guard += 1;
            if guard > 200 {
                break;
            }
        }
        if find(pats, &s, 0).is_none() {
            return s;
        }
    }
}

fn render_plain(syn: &Syn, src: &str, data: Value, writer: bool) -> (Res, Option<String>) {
    let case = Case { syn: syn.clone(), writer, ..Case::simple(src, data) };
    match run_real(&case) {
        Err(b) => (Res::Boom(b), None),
        Ok(g) => match g.render {
            Some(r) => (r.res, r.out),
            None => (g.root, None),
        },
    }
}

fn c03(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Text, 140_000), (G::Body, 20_000), (G::Text, 3_000_000)], Judge::result()) {
        return x;
    }
    let r = &mut ctx.rng;
    let syn = match r.below(10) {
        0..=4 => Syn::default(),
        5..=7 => gen::clean_syntax(r),
        _ => gen::odd_syntax(r),
    };
    let pats = syn.patterns();
    let writer = r.bool();
    if r.pct(45) {
        // No delimiter at all.
        let t = free_text(r, &pats);
        let (res, out) = render_plain(&syn, &t, Value::None, writer);
        let show = format!("\n  syntax: {}\n  source: {t:?}", syn.describe());
        if !res.ok() || out.as_deref() != Some(t.as_str()) {
            return Err(format!("text without delimiters: {}; {}{show}", res.brief(), diff(&t, out.as_deref().unwrap_or("<none>"))));
        }
        ctx.add("text bytes compared", t.len() as u64);
        ctx.count("plain texts");
        ctx.case(&t, !t.is_empty());
        return Ok(());
    }
    // Text, comments and expressions, with every delimiter exactly where we put it.
    let mut src = String::new();
    let mut want = String::new();
    let mut marks: Vec<(usize, usize, K, bool)> = vec![];
    let mut comments = 0;
    for _ in 0..r.range(1, 8) {
        match r.below(5) {
            0 | 1 => {
                let t = free_text(r, &pats);
                src.push_str(&t);
                want.push_str(&t);
            }
            2 | 3 => {
                let Some((b, e)) = syn.comment.clone() else { continue };
                let body = match r.below(5) {
                    0 => String::new(),
                    1 => r.pick(&["if x", " endif ", " include \"nope\" ", " a | nosuch: \"", "\n\n", " \\", " { % }", " not é 中 "]).to_string(),
                    _ => free_text(r, &pats),
                };
                marks.push((src.len(), src.len() + b.len(), K::Comment, true));
                src.push_str(&b);
                src.push_str(&body);
                marks.push((src.len(), src.len() + e.len(), K::Comment, false));
                src.push_str(&e);
                comments += 1;
            }
            _ => {
                let Some((b, e)) = syn.expr.clone() else { continue };
                let t = r.pick(&["X", "", " padded ", "é"]).to_string();
                marks.push((src.len(), src.len() + b.len(), K::Expr, true));
                src.push_str(&format!("{b} \"{t}\" "));
                marks.push((src.len(), src.len() + e.len(), K::Expr, false));
                src.push_str(&e);
                want.push_str(&t);
            }
        }
    }
    // Only judge sources in which the delimiters are exactly those.
    let mut at = 0;
    for (s, e, k, b) in &marks {
        match find(&pats, &src, at) {
            Some(h) if (h.start, h.end, h.kind, h.begin, h.trim) == (*s, *e, *k, *b, false) => at = *e,
            _ => {
                ctx.count("discarded (pieces formed another delimiter)");
                return Ok(());
            }
        }
    }
    if find(&pats, &src, at).is_some() {
        ctx.count("discarded (pieces formed another delimiter)");
        return Ok(());
    }
    if syn.expr.as_ref().is_some_and(|(b, e)| [b, e].iter().any(|d| d.chars().any(|c| c == '"' || c.is_whitespace() || c.is_alphanumeric() || !c.is_ascii() || c == '\\'))) && syn != Syn::default() && marks.iter().any(|m| m.2 == K::Expr) {
        // The literal itself may be cut by such a delimiter.
        let clean = gen::CLEAN.iter().any(|c| syn.expr.as_ref().is_some_and(|e| e.0 == c.0 && e.1 == c.1));
        if !clean {
            ctx.count("discarded (expression delimiter may cut a literal)");
            return Ok(());
        }
    }
    let (res, out) = render_plain(&syn, &src, Value::None, writer);
    if !res.ok() || out.as_deref() != Some(want.as_str()) {
        return Err(format!(
            "text and comments: {}; {}\n  syntax: {}\n  source: {src:?}",
            res.brief(),
            diff(&want, out.as_deref().unwrap_or("<none>")),
            syn.describe()
        ));
    }
    ctx.add("text bytes compared", want.len() as u64);
    ctx.add("comments", comments);
    ctx.count("mixed texts");
    ctx.case(&src, marks.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------------------
// C04
// ---------------------------------------------------------------------------

/// Unicode White_Space, from the standard (PropList.txt).
fn white(c: char) -> bool {
    matches!(c as u32, 0x9..=0xd | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}

fn trim_start(s: &str) -> &str {
    match s.char_indices().find(|(_, c)| !white(*c)) {
        Some((i, _)) => &s[i..],
        None => "",
    }
}

fn trim_end(s: &str) -> &str {
    match s.char_indices().rev().find(|(_, c)| !white(*c)) {
        Some((i, c)) => &s[..i + c.len_utf8()],
        None => "",
    }
}

const ALL_WHITE: &[char] = &[
    '\t', '\n', '\u{b}', '\u{c}', '\r', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}',
    '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];
const NOT_WHITE: &[char] = &['\u{200b}', '\u{200c}', '\u{200d}', '\u{2060}', '\u{feff}', '\u{180e}', '\u{1c}', '\u{1f}', '\0', '\u{7f}', '_', '-'];

fn spacey(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(7) {
        match r.below(8) {
            0..=2 => s.push(*r.pick(&[' ', '\n', '\t', '\r'])),
            3 | 4 => s.push(*r.pick(ALL_WHITE)),
            5 => s.push(*r.pick(NOT_WHITE)),
            6 => s.push_str(r.pick(&["word", "é", "中", "x y", "."])),
            _ => s.push_str("a"),
        }
    }
    s
}

enum Piece {
    Text(String),
    Emit(String),
    Nothing,
    /// Opens a body rendered this often.
    Open(usize),
    Else,
    Close,
}

fn c04(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Space, 70_000), (G::Space, 1_000_000)], Judge::result()) {
        return x;
    }
    let r = &mut ctx.rng;
    let syn = match r.below(100) {
        0..=64 => Syn::default(),
        65..=89 => gen::clean_syntax(r),
        // Delimiters that consist of dashes in part.
        _ => {
            let mut p = gen::clean_syntax(r).parts();
            for d in p.iter_mut().flatten() {
                match r.below(8) {
                    0..=2 => d.insert(0, '-'),
                    3 | 4 => d.push('-'),
                    5 => d.insert_str(0, "--"),
                    _ => {}
                }
            }
            Syn::from_parts(p)
        }
    };
    let pats = syn.patterns();
    let mut parts: Vec<(Piece, bool, bool)> = vec![];
    let mut src = String::new();
    let mut marks = vec![];
    let mut open: Vec<&str> = vec![];
    let mut tag = |r: &mut Rng, k: K, body: &str, src: &mut String, marks: &mut Vec<(usize, usize, bool)>| -> (bool, bool) {
        let (b, e) = syn.get(k).cloned().unwrap();
        let l = r.bool();
        let t = r.bool();
        marks.push((src.len(), src.len() + b.len() + usize::from(l), l));
        src.push_str(&b);
        if l {
            src.push('-');
        }
        src.push_str(r.pick(&[" ", "  ", "\t"]));
        src.push_str(body);
        src.push_str(r.pick(&[" ", "  "]));
        marks.push((src.len(), src.len() + e.len() + usize::from(t), t));
        if t {
            src.push('-');
        }
        src.push_str(&e);
        (l, t)
    };
    for _ in 0..r.range(1, 12) {
        if r.pct(60) {
            let t = spacey(r);
            if !t.is_empty() && !matches!(parts.last(), Some((Piece::Text(_), ..))) {
                src.push_str(&t);
                parts.push((Piece::Text(t), false, false));
            }
            continue;
        }
        match r.below(6) {
            0 | 1 => {
                let v = spacey(r);
                let body = gen::str_literal(r, &v);
                let (l, t) = tag(r, K::Expr, &body, &mut src, &mut marks);
                parts.push((Piece::Emit(v), l, t));
            }
            2 => {
                let body = *r.pick(&["note", "", "é", "- -", " if "]);
                let body = format!(" {body} ");
                let (l, t) = tag(r, K::Comment, &body, &mut src, &mut marks);
                parts.push((Piece::Nothing, l, t));
            }
            3 | 4 => {
                let (head, n, end) = *r.pick(&[
                    ("if true", 1, "endif"),
                    ("if not true", 0, "endif"),
                    ("with 1 as q", 1, "endwith"),
                    ("for q in pair", 2, "endfor"),
                    ("for q in none", 0, "endfor"),
                ]);
                let (l, t) = tag(r, K::Block, head, &mut src, &mut marks);
                open.push(end);
                parts.push((Piece::Open(n), l, t));
            }
            _ => {
                if let Some(end) = open.pop() {
                    if end == "endif" && r.bool() {
                        let (l, t) = tag(r, K::Block, "else", &mut src, &mut marks);
                        parts.push((Piece::Else, l, t));
                        let t = spacey(r);
                        if !t.is_empty() {
                            src.push_str(&t);
                            parts.push((Piece::Text(t), false, false));
                        }
                    }
                    let (l, t) = tag(r, K::Block, end, &mut src, &mut marks);
                    parts.push((Piece::Close, l, t));
                }
            }
        }
    }
    while let Some(end) = open.pop() {
        let (l, t) = tag(r, K::Block, end, &mut src, &mut marks);
        parts.push((Piece::Close, l, t));
    }
    let _ = &mut tag;
    let mut at = 0;
    for (s, e, trim) in &marks {
        match find(&pats, &src, at) {
            Some(h) if (h.start, h.end, h.trim) == (*s, *e, *trim) => at = *e,
            _ => {
                ctx.count("discarded (pieces formed another delimiter)");
                return Ok(());
            }
        }
    }
    if find(&pats, &src, at).is_some() {
        ctx.count("discarded (pieces formed another delimiter)");
        return Ok(());
    }
    // Expected output.
    let mut trimmed = 0;
    let mut flat: Vec<(&Piece, String)> = vec![];
    for i in 0..parts.len() {
        match &parts[i].0 {
            Piece::Text(t) => {
                let mut x = t.as_str();
                if i > 0 && parts[i - 1].2 {
                    x = trim_start(x);
                }
                if i + 1 < parts.len() && parts[i + 1].1 {
                    x = trim_end(x);
                }
                trimmed += t.len() - x.len();
                flat.push((&parts[i].0, x.to_string()));
            }
            p => flat.push((p, String::new())),
        }
    }
    fn eval(flat: &[(&Piece, String)], i: &mut usize, times: usize, out: &mut String) {
        // Evaluates until the closing piece of this body; `times` repetitions.
        let start = *i;
        if times == 0 {
            let mut sink = String::new();
            once(flat, i, &mut sink);
        }
        for _ in 0..times {
            *i = start;
            once(flat, i, out);
        }
        // At `else` or the end.
        if let Some((Piece::Else, _)) = flat.get(*i) {
            *i += 1;
            let mut sink = String::new();
            let mut other = String::new();
            once(flat, i, &mut other);
            std::mem::swap(&mut sink, &mut other);
            if times == 0 {
                out.push_str(&sink);
            }
        }
        *i += 1;
    }
    fn once(flat: &[(&Piece, String)], i: &mut usize, out: &mut String) {
        while *i < flat.len() {
            match &flat[*i] {
                (Piece::Text(_), t) => out.push_str(t),
                (Piece::Emit(t), _) => out.push_str(t),
                (Piece::Nothing, _) => {}
                (Piece::Open(n), _) => {
                    *i += 1;
                    eval(flat, i, *n, out);
                    continue;
                }
                (Piece::Else | Piece::Close, _) => return,
            }
            *i += 1;
        }
    }
    let mut want = String::new();
    let mut i = 0;
    once(&flat, &mut i, &mut want);
    let data = crate::val::map([("pair", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("none", Value::List(vec![]))]);
    let (res, out) = render_plain(&syn, &src, data, r.bool());
    if ctx.verbose {
        println!("source {src:?}\nwant {want:?}\ngot {out:?}");
    }
    if !res.ok() || out.as_deref() != Some(want.as_str()) {
        return Err(format!(
            "{}; {}\n  syntax: {}\n  source: {src:?}",
            res.brief(),
            diff(&want, out.as_deref().unwrap_or("<none>")),
            syn.describe()
        ));
    }
    let trims = marks.iter().filter(|m| m.2).count();
    ctx.add("trimming delimiters", trims as u64);
    ctx.add("whitespace bytes expected to be removed", trimmed as u64);
    ctx.add("output bytes compared", want.len() as u64);
    ctx.case(&src, trims > 0);
    Ok(())
}

// ---------------------------------------------------------------------------
// C05
// ---------------------------------------------------------------------------

fn simple_data(r: &mut Rng) -> Value {
    let mut m = match gen::context(r) {
        Value::Map(m) => m,
        _ => Map::new(),
    };
    for (k, v) in [("a", Value::List(vec![Value::Integer(1), Value::Integer(2)])), ("b", Value::Bool(true))] {
        if r.bool() {
            m.insert(k.into(), v);
        }
    }
    m.insert("x".into(), Value::String("X".into()));
    Value::Map(m)
}

/// Short delimiters over two or three letters, and many texts over the same letters: every tag
/// starts and ends where the naive search says, read off the output or the place of the error.
fn dense_delimiters(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let letters: &[char] = r.pick(&[&['a', 'b'][..], &['a', 'b', 'c'], &['%', 'a'], &['é', 'è'], &['é', 'ũ', 'é'], &['中', '鸭', '乭'], &['\u{10048}', '\u{50048}', 'a'], &['😀', '\u{1f640}', '\u{1e600}'], &['{', '%', '}']]);
    let dash = *r.pick(&[0, 4, 5, 8]);
    let word = |r: &mut Rng, lo: usize, hi: usize| -> String {
        (0..r.range(lo, hi)).map(|_| if dash > 0 && r.one_in(dash) { '-' } else { *r.pick(letters) }).collect()
    };
    let max = *r.pick(&[2, 4, 5, 5, 6, 8]);
    let syn = loop {
        let mut pair = |r: &mut Rng, p: usize| if r.pct(p) { Some((word(r, 1, max), word(r, 1, max))) } else { None };
        let s = Syn { expr: pair(r, 85), block: pair(r, 60), comment: pair(r, 60) };
        let mut seen = std::collections::BTreeSet::new();
        if s.patterns().iter().all(|p| seen.insert(p.text.clone())) {
            break s;
        }
    };
    let pats = syn.patterns();
    let engine = guard(|| new_engine(&syn)).map_err(|b| format!("panic {b:?}: {}", syn.describe()))?;
    let mut data = Map::new();
    for (k, c) in ['a', 'b', 'c', 'é', 'è'].iter().enumerate() {
        data.insert(c.to_string(), Value::String(format!("<{k}>")));
    }
    let case = Case { syn: syn.clone(), funcs: vec![], ..Case::simple("", Value::Map(data)) };
    let j = Judge { accept: true, loc: true, ..Judge::result() };
    for _ in 0..40 {
        let mut src = match r.below(4) {
            // Whole delimiters and pieces of them.
            0 | 1 if !pats.is_empty() => (0..r.range(1, 8))
                .map(|_| {
                    let p: Vec<char> = r.pick(&pats).text.chars().collect();
                    let (i, k) = if r.bool() { (0, p.len()) } else { (r.below(p.len()), r.range(1, p.len())) };
                    p[i.min(k)..k].iter().collect::<String>()
                })
                .collect(),
            2 => word(r, 0, 30),
            _ => word(r, 0, 14),
        };
        if r.one_in(4) {
            src.push_str(r.pick(&[" ", "\n", "x"]));
        }
        let case = Case { root: Root::Anon(src.clone()), ..case.clone() };
        let want = run_model(&case);
        let (root, tpl) = res(guard(|| engine.compile(src.clone())));
        let mut got = obs::Got { adds: vec![], root, render: None };
        if let Some(t) = tpl {
            let (r, out) = res(guard(|| t.render(&engine, &case.data).to_string()));
            got.render = Some(obs::Rendered { res: r, out, trace: vec![] });
        }
        compare(&case, &want, &got, j).map_err(|m| format!("{m}\n{}", case.describe()))?;
        ctx.count("dense delimiter texts");
        match (&want.root, find(&pats, &src, 0)) {
            (Ok(()), Some(_)) => ctx.count("dense delimiter texts with tags that compile"),
            (Ok(()), None) => ctx.count("dense delimiter texts without tags"),
            _ => ctx.count("dense delimiter texts rejected, with the place of the error"),
        }
        ctx.case(&format!("{}\u{1f}{src}", syn.describe()), find(&pats, &src, 0).is_some());
    }
    Ok(())
}

fn c05(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 500, &[(G::Delim, 300), (G::Delim, 40), (G::Delim, 5_000)], Judge { accept: true, ..Judge::result() }) {
        return x;
    }
    if ctx.idx % 3 == 1 {
        return dense_delimiters(ctx);
    }
    let r = &mut ctx.rng;
    if r.pct(65) {
        // Arbitrary delimiters against the naive leftmost-longest search.
        let syn = gen::odd_syntax(r);
        let data = simple_data(r);
        let src = match r.below(6) {
            0 | 1 => gen::soup(r, &syn),
            2 => {
                // Dense in delimiter fragments.
                let pats = syn.patterns();
                let mut s = String::new();
                for _ in 0..r.range(1, 14) {
                    if pats.is_empty() || r.pct(35) {
                        s.push_str(r.pick(&["x", " ", "1", "\"s\"", "a", "-", "b"]));
                    } else {
                        let p: Vec<char> = r.pick(&pats).text.chars().collect();
                        let k = r.range(1, p.len());
                        s.extend(if r.pct(70) { &p[..] } else { &p[..k] });
                    }
                }
                s
            }
            3 => gen::tag_soup(r, &syn),
            _ => {
                let p = Profile { trim: 25, raw: 30, comment: 15, include: 0, filters: 15, nodes: (1, 5), err: 0, bad_fn: 0, ..Default::default() };
                let mut g = Gen::new(r, p, syn.clone(), &data);
                g.template()
            }
        };
        let src = if r.one_in(5) { gen::near_misses(r, &syn, &src) } else { src };
        let case = Case { syn: syn.clone(), writer: false, ..Case::simple(src, data) };
        if ctx.verbose {
            println!("{}", case.describe());
        }
        let (want, got) = differ(&case, Judge { accept: true, ..Judge::result() })?;
        note(ctx, &case, &want, &got);
        ctx.count("odd delimiter cases");
        if want.root.is_ok() && find(&syn.patterns(), case.sources().next().unwrap(), 0).is_some() {
            ctx.count("odd delimiter cases with tags that compile");
        }
        if [&syn.expr, &syn.block, &syn.comment].iter().any(|s| s.is_none()) {
            ctx.count("cases with an unconfigured kind of tag");
        }
        return Ok(());
    }
    // Renaming the delimiters changes nothing.
    let other = gen::clean_syntax(r);
    let data = gen::context(r);
    let p = Profile { wild: 0, trim: 20, comment: 8, err: *r.pick(&[0, 0, 5]), bad_fn: 3, ..Default::default() };
    let seed = r.u64();
    let writer = r.bool();
    let make = |syn: &Syn| {
        let mut r = Rng::new(seed);
        let mut g = Gen::new(&mut r, p.clone(), syn.clone(), &data);
        let src = g.template();
        let templates = std::mem::take(&mut g.templates);
        Case { syn: syn.clone(), templates, writer, ..Case::simple(src, data.clone()) }
    };
    let (a, b) = (make(&Syn::default()), make(&other));
    // Delimiters must occur only as such: the same number, in the same order.
    for (x, y) in a.sources().zip(b.sources()) {
        let hits = |case: &Case, s: &str| {
            let pats = case.syn.patterns();
            let mut at = 0;
            let mut out = vec![];
            while let Some(h) = find(&pats, s, at) {
                out.push((h.kind, h.begin, h.trim));
                at = h.end;
            }
            out
        };
        let n = |t: &str, s: &Syn| s.patterns().iter().any(|p| !p.trim && t.contains(&p.text));
        if hits(&a, x) != hits(&b, y) || n(x, &b.syn) || n(y, &a.syn) {
            ctx.count("discarded (delimiters occur elsewhere)");
            return Ok(());
        }
    }
    let (ga, gb) = match (run_real(&a), run_real(&b)) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return Err(format!("panic: {:?} {:?}\n{}{}", x.err(), y.err(), a.describe(), b.describe())),
    };
    let brief = |g: &obs::Got| -> String {
        let f = |r: &Res| match r {
            Res::Ok => "ok".to_string(),
            Res::Err(e) => format!("{:?}: {:?}", e.kind, e.reason),
            Res::Boom(b) => format!("{b:?}"),
        };
        let mut s: Vec<String> = g.adds.iter().map(f).collect();
        s.push(f(&g.root));
        if let Some(r) = &g.render {
            s.push(f(&r.res));
            s.push(format!("{:?}", r.out));
            s.push(format!("{:?}", r.trace));
        }
        s.join("; ")
    };
    let (x, y) = (brief(&ga), brief(&gb));
    if x != y {
        return Err(format!("renaming the delimiters changed the result: {}\n{}{}", diff(&x, &y), a.describe(), b.describe()));
    }
    ctx.count("renamed programs compared");
    if ga.render.as_ref().is_some_and(|r| r.res.ok()) {
        ctx.count("renamed programs rendered");
        mixed(ctx, &a, &b, ga.render.as_ref().unwrap())?;
    }
    ctx.case(&format!("{}\u{1f}{}", a.describe(), b.syn.describe()), true);
    Ok(())
}

/// Once compiled a template does not depend on the delimiters it was written with, nor on the engine
/// that compiled it: the same programs, each compiled by either engine, rendered by either engine.
fn mixed(ctx: &mut Ctx, a: &Case, b: &Case, want: &obs::Rendered) -> Result<(), String> {
    let on = |c: &Case| obs::build(&Case { resolver: true, ..c.clone() }).map_err(|x| format!("panic: {x:?}"));
    let (ba, bb) = (on(a)?, on(b)?);
    let mut pick = [ba, bb].map(|b| (b.engine, b.local, b.root));
    let mut local = std::collections::BTreeMap::new();
    let mut how = String::new();
    for (n, _) in &a.templates {
        let w = ctx.rng.below(2);
        how.push_str(&format!("{n:?} by {w}, "));
        if let Some(t) = pick[w].1.remove(n) {
            local.insert(n.clone(), t);
        }
    }
    let (w, e) = (ctx.rng.below(2), ctx.rng.below(2));
    let Some(root) = pick[w].2.take() else { return Ok(()) };
    let mode = obs::RenderHow { mode: a.mode, resolver: true, writer: a.writer, depth: None };
    let (res, out, cb) = obs::render_with(&pick[e].0, &local, obs::RootRef::Tpl(&root), mode, funcs::Cb::default(), &a.data);
    let trace = |t: &[String]| t.iter().filter(|l| !l.starts_with("I ")).cloned().collect::<Vec<_>>();
    if !res.ok() || out != want.out || trace(&cb.trace) != trace(&want.trace) {
        return Err(format!(
            "compiled by two engines ({how}main template by {w}), rendered by engine {e}: {}, expected {:?}, observed {out:?}\n{}{}",
            res.brief(),
            want.out,
            a.describe(),
            b.describe()
        ));
    }
    ctx.count("programs compiled by two engines with different delimiters");
    Ok(())
}

// ---------------------------------------------------------------------------
// C06
// ---------------------------------------------------------------------------

/// Every character, as the first of a name, within one, as a member, and on its own.
fn characters(ctx: &mut Ctx) -> Result<(), String> {
    thread_local! {
        static ENGINE: upon::Engine<'static> = upon::Engine::new();
        static PATS: Vec<Pat> = Syn::default().patterns();
    }
    const N: u64 = 4;
    for k in 0..N {
        let Some(c) = char::from_u32(((ctx.idx * N + k) % 0x110000) as u32) else { continue };
        let src = match mix(ctx.idx) % 5 {
            0 => format!("{{{{ {c} }}}}{{{{ a{c} }}}}"),
            1 => format!("{{{{ a.{c} }}}}"),
            2 => format!("{{{{ a{c}b }}}}"),
            3 => format!("{{{{ {c}a }}}}"),
            _ => format!("{{{{ a{c}{c} }}}}"),
        };
        // The first and the second place of a name, for every character.
        for src in [format!("{{{{ {c} }}}}"), format!("{{{{ a{c} }}}}"), src] {
            let want = PATS.with(|p| crate::model::parse::parse(p, &src, crate::model::parse::Opts { unicode: true })).is_ok();
            let got = ENGINE.with(|e| obs::guard(|| e.compile(src.as_str()).is_ok()));
            match got {
                Ok(g) if g == want => {}
                g => return Err(format!("{src:?} ({c:?}) must be {}: {g:?}", if want { "accepted" } else { "rejected" })),
            }
        }
        ctx.count("characters placed in names");
    }
    Ok(())
}

fn c06(ctx: &mut Ctx) -> Result<(), String> {
    characters(ctx)?;
    if let Some(x) = turn(ctx, 1000, &[(G::Body, 20_000), (G::Token, 70_000), (G::Chain, 1_000), (G::Deep, 300), (G::Arms, 500), (G::Far, 70_000), (G::Deep, 2_000), (G::Args, 300), (G::Args, 20_000)], Judge { accept: true, ..Default::default() }) {
        return x;
    }
    let r = &mut ctx.rng;
    let syn = if r.pct(85) { Syn::default() } else { gen::clean_syntax(r) };
    let data = simple_data(r);
    let (kind, src) = match r.below(12) {
        0..=4 => {
            let mut s = gen::tag_soup(r, &syn);
            if r.one_in(4) {
                s.push_str(&gen::tag_soup(r, &syn));
            }
            ("single tags", s)
        }
        5 | 6 => ("block structures", gen::block_soup(r, &syn)),
        7..=10 => {
            let p = Profile { space: 50, trim: 15, err: 0, bad_fn: 0, ..Default::default() };
            let mut g = Gen::new(r, p, syn.clone(), &data);
            let t = g.template();
            if r.one_in(3) {
                ("valid programs", t)
            } else {
                ("mutated programs", gen::mutate(r, &t, &syn))
            }
        }
        _ => ("soups", gen::soup(r, &syn)),
    };
    let mut case = Case { syn, ..Case::simple(src, data) };
    case.templates.push(("t".into(), "T".into()));
    if ctx.verbose {
        println!("{}", case.describe());
    }
    let (want, got) = differ(&case, Judge { accept: true, ..Judge::result() })?;
    note(ctx, &case, &want, &got);
    ctx.count(kind);
    Ok(())
}

// ---------------------------------------------------------------------------
// C07
// ---------------------------------------------------------------------------

const NUM_ALPHABET: &[char] = &['0', '1', '9', '7', 'a', 'e', 'x', 'b', 'o', '_', '.', '+', '-', 'E', 'f', '2'];

/// Every string over the alphabet up to four characters, then random longer ones.
fn number_text(idx: u64, r: &mut Rng) -> String {
    let k = NUM_ALPHABET.len() as u64;
    let mut n = idx;
    for len in 1..=4u32 {
        let c = k.pow(len);
        if n < c {
            return (0..len).map(|i| NUM_ALPHABET[((n / k.pow(i)) % k) as usize]).collect();
        }
        n -= c;
    }
    match r.below(6) {
        0 => (0..r.range(5, 25)).map(|_| *r.pick(NUM_ALPHABET)).collect(),
        1 => {
            let digits = if r.bool() { "01" } else { "0123456789abcdefABCDEFgG_" };
            let d: Vec<char> = digits.chars().collect();
            format!("{}{}", r.pick(&["0x", "0b", "0o", "", "0X", "-0x"]), (0..r.range(1, 70)).map(|_| *r.pick(&d)).collect::<String>())
        }
        2 => {
            // Around the limits of the type, in every base.
            let n: i128 = *r.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 0, 1 << 53]) + r.below(5) as i128 - 2;
            let (s, a) = (if n < 0 { "-" } else { "" }, n.unsigned_abs());
            match r.below(4) {
                0 => format!("{s}0x{a:x}"),
                1 => format!("{s}0o{a:o}"),
                2 => format!("{s}0b{a:b}"),
                _ => format!("{s}{a}"),
            }
        }
        3 => {
            let f = gen::float(r);
            let f = if f.is_finite() { f } else { 1.5 };
            match r.below(3) {
                0 => format!("{f:?}"),
                1 => format!("{f:e}"),
                _ => format!("{f}"),
            }
        }
        4 => format!("{}.{}", r.u64(), r.u64()),
        _ => format!("{}{}e{}", r.pick(&["", "-", "+"]), r.u64() % 100_000, r.below(800) as i64 - 400),
    }
}

fn place(r: &mut Rng, lit: &str) -> (String, usize) {
    match r.below(6) {
        0 | 1 => (format!("{{{{ {lit} | dump }}}}"), 0),
        2 => (format!("{{% with {lit} as q %}}{{{{ q | dump }}}}{{% endwith %}}"), 0),
        3 => (format!("{{{{ true | pair: {lit} | dump }}}}"), 1),
        4 => (format!("{{% include \"show\" with {lit} | pair: {lit} | wrapup %}}"), 2),
        // (a sign directly after the delimiter would make it a trimming one)
        _ => (format!("{{{{{}{lit}|dump}}}}", if lit.starts_with('-') { " " } else { "" }), 0),
    }
}

fn c07(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Token, 70_000)], Judge { accept: true, ..Judge::result() }) {
        return x;
    }
    let idx = ctx.idx;
    let r = &mut ctx.rng;
    match idx % 3 {
        0 => {
            // Every short number-like text, then longer ones.
            let text = number_text(idx / 3, r);
            let (src, _) = match r.below(3) {
                0 => (format!("{{{{ {text} | dump }}}}"), 0),
                1 => (format!("{{{{ 1 | pair: {text} | dump }}}}"), 0),
                _ => (format!("{{% with {text} as q %}}{{{{ q | dump }}}}{{% endwith %}}"), 0),
            };
            let case = Case::simple(src, Value::Map(Map::new()));
            if ctx.verbose {
                println!("{}", case.describe());
            }
            let (want, got) = differ(&case, Judge { accept: true, ..Judge::result() })?;
            ctx.count("number texts");
            ctx.count(if want.root.is_ok() { "number texts accepted" } else { "number texts rejected" });
            let _ = got;
            ctx.case(&text, true);
        }
        1 => {
            // A value written as a literal denotes that value.
            let v = match r.below(6) {
                0 => Value::Bool(r.bool()),
                1 | 2 => Value::Integer(gen::int(r)),
                3 => loop {
                    let f = gen::float(r);
                    if f.is_finite() {
                        break Value::Float(f);
                    }
                },
                _ => {
                    let mut s = gen::string(r);
                    for _ in 0..r.below(5) {
                        let c = gen::any_char(r);
                        s.push(c);
                    }
                    if r.one_in(50) {
                        s = s.repeat(dict::size(r, 300));
                    }
                    Value::String(s)
                }
            };
            let lit = gen::literal(r, &v).unwrap();
            let (src, how) = place(r, &lit);
            let mut case = Case::simple(src, Value::Map(Map::new()));
            case.templates.push(("show".into(), "{{ q | dump }}".into()));
            let want = match how {
                0 => dump(&v),
                1 => dump(&Value::List(vec![Value::Bool(true), v.clone()])),
                _ => {
                    // Through a filter into an include context.
                    case.root = Root::Anon(format!("{{% with {lit} | pair: {lit} as q %}}{{% include \"show\" %}}{{% endwith %}}"));
                    dump(&Value::List(vec![v.clone(), v.clone()]))
                }
            };
            let got = run_real(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
            let out = got.render.as_ref().and_then(|r| r.out.clone());
            if out.as_deref() != Some(want.as_str()) {
                return Err(format!(
                    "the literal {lit} must denote {}: compile {}; render {:?}\n{}",
                    dump(&v),
                    got.root.brief(),
                    got.render.map(|r| r.res.brief() + &format!(" {out:?}")),
                    case.describe()
                ));
            }
            ctx.count("values written and read back");
            ctx.case(&lit, true);
        }
        _ => {
            // Strings: every escape, and every character unchanged.
            let n = idx / 3;
            let body = match n {
                0..=0x2fff => format!("\\{}", char::from_u32(n as u32).unwrap()),
                0x3000..=0x5fff => format!("<{}>", char::from_u32(n as u32 - 0x3000).unwrap()),
                _ => {
                    let mut s = String::new();
                    for _ in 0..r.range(1, 12) {
                        match r.below(8) {
                            0 => s.push('\\'),
                            1 => s.push('"'),
                            2 => s.push_str(r.pick(&["\\n", "\\r", "\\t", "\\\\", "\\\""])),
                            3 => s.push(gen::any_char(r)),
                            4 => s.push_str(r.pick(&["}}", "{{", "-}}", "%}", "#}", "{#"])),
                            5 => s.push_str(r.pick(&["\n", "\r", "\\x41", "\\u{41}", "\\0", "\\'", "n", "t"])),
                            _ => s.push_str(r.pick(gen::WORDS)),
                        }
                    }
                    s
                }
            };
            let case = Case::simple(format!("{{{{ \"{body}\" | dump }}}}"), Value::Map(Map::new()));
            if ctx.verbose {
                println!("{}", case.describe());
            }
            let (want, _) = differ(&case, Judge { accept: true, ..Judge::result() })?;
            ctx.count(if want.root.is_ok() { "string texts accepted" } else { "string texts rejected" });
            ctx.case(&body, true);
        }
    }
    Ok(())
}

const ASSUME: &[&str] = &["sources are drawn from the generators described in DESIGN.md; behaviour outside their reach is not observed"];

pub fn props() -> Vec<Prop> {
    let _ = (Fmt::Builtin, CtxMode::Ref, compare as usize, run_model as usize, same as usize, program as usize);
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "token soups, mutated and truncated programs, almost-valid tags and block structures, random Unicode and long inputs, under default, clean, overlapping and duplicate delimiters; each compiled twice through compile (borrowed, owned) or add_template with a panic monitor, a process monitor for aborts and hangs, and every error formatted in four forms; distinct by delimiters and source, non-trivial when the source contains a delimiter",
            quick: 400_000,
            thorough: 12_000_000,
            run: c01,
            mins: &[("compiled", 50_000), ("rejected", 100_000), ("non-ASCII sources", 50_000), ("custom delimiters", 100_000)],
            assumptions: ASSUME,
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "texts of arbitrary Unicode, control characters and delimiter fragments without any complete delimiter, alone or interleaved with comments (arbitrary content) and literal expressions, under many delimiters; the expected output is the concatenation of the texts; distinct by source, non-trivial when not empty",
            quick: 900_000,
            thorough: 10_000_000,
            run: c03,
            mins: &[("plain texts", 50_000), ("mixed texts", 40_000), ("comments", 40_000)],
            assumptions: ASSUME,
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "sequences of texts (all 25 Unicode White_Space characters and look-alikes) and expression, comment, if/else, with and for tags with every combination of trim markers, adjacent tags and whitespace-only texts included; the expected output is computed from the pieces; distinct by source, non-trivial when some delimiter trims",
            quick: 1_200_000,
            thorough: 10_000_000,
            run: c04,
            mins: &[("trimming delimiters", 400_000), ("whitespace bytes expected to be removed", 200_000)],
            assumptions: ASSUME,
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "(a) arbitrary, overlapping, prefix-sharing, single-character, multi-byte and keyword-like delimiters, kinds left unconfigured, on soups, delimiter-dense texts and programs, compared with a naive leftmost-longest search and the reference semantics; (b) generated programs printed with two delimiter sets, compared with each other; distinct by sources and data, non-trivial when a tag was evaluated or rejected",
            quick: 300_000,
            thorough: 10_000_000,
            run: c05,
            mins: &[("odd delimiter cases", 100_000), ("odd delimiter cases with tags that compile", 10_000), ("renamed programs rendered", 15_000), ("programs compiled by two engines with different delimiters", 10_000), ("cases with an unconfigured kind of tag", 20_000)],
            assumptions: ASSUME,
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "every Unicode character in the places of a name, and almost-valid single tags, almost-balanced block structures, valid programs with varied spacing, mutated programs and token soups; acceptance, and the rendering of what is accepted, compared with a recursive-descent reference parser and the reference semantics; distinct by source and data, non-trivial when a tag was evaluated or the source rejected",
            quick: 400_000,
            thorough: 12_000_000,
            run: c06,
            mins: &[("renders ok", 25_000), ("templates rejected", 100_000), ("single tags", 80_000), ("characters placed in names", 1_100_000), ("block structures", 30_000), ("mutated programs", 40_000)],
            assumptions: ASSUME,
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "all texts of up to four characters over a 16-letter numeric alphabet, limits of the type in every base, long digit strings, floats in three notations; every escape and every character up to U+2FFF in a string, and random string bodies; values written as literals in several positions and read back through a formatter that shows them exactly; distinct by literal",
            quick: 900_000,
            thorough: 9_000_000,
            run: c07,
            mins: &[("number texts accepted", 5_000), ("number texts rejected", 20_000), ("values written and read back", 60_000), ("string texts accepted", 20_000), ("string texts rejected", 10_000)],
            assumptions: ASSUME,
        },
    ]
}
