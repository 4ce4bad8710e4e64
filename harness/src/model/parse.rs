//! The reference parser: text -> tree, or a syntax error with its span.

use super::syn::{find, here, Hit, Pat, K};
use crate::val::Value;
use std::rc::Rc;

pub type Sp = (usize, usize);

#[derive(Clone, Debug)]
pub struct SynErr {
    pub span: Sp,
    pub what: String,
}

#[derive(Clone, Debug)]
pub struct Tpl {
    pub src: Rc<str>,
    pub nodes: Vec<Node>,
}

#[derive(Clone, Debug)]
pub enum Node {
    Raw(String),
    Emit(Expr),
    If(If),
    For(For),
    With(With),
    Include(Include),
}

#[derive(Clone, Debug)]
pub struct If {
    /// Condition arms: (negated, condition, body).
    pub arms: Vec<(bool, Expr, Vec<Node>)>,
    pub other: Vec<Node>,
}

#[derive(Clone, Debug)]
pub struct For {
    pub vars: Vec<(String, Sp)>,
    pub iter: Expr,
    pub body: Vec<Node>,
}

#[derive(Clone, Debug)]
pub struct With {
    pub expr: Expr,
    pub name: String,
    pub body: Vec<Node>,
}

#[derive(Clone, Debug)]
pub struct Include {
    pub name: String,
    pub span: Sp,
    pub with: Option<Expr>,
}

#[derive(Clone, Debug)]
pub struct Expr {
    pub base: Base,
    pub calls: Vec<Call>,
    pub span: Sp,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub name: String,
    pub name_span: Sp,
    /// `None` if there was no colon.
    pub args: Option<Vec<Base>>,
}

#[derive(Clone, Debug)]
pub enum Base {
    Lit(Value, Sp),
    Path(Vec<Seg>, Sp),
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub opt: bool,
    pub key: Key,
    /// Includes the access operator.
    pub span: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Name(String),
    Idx(usize),
}

impl Base {
    pub fn span(&self) -> Sp {
        match self {
            Base::Lit(_, s) | Base::Path(_, s) => *s,
        }
    }
}

// ---------------------------------------------------------------------------
// Tokens
// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum T {
    Raw(String),
    Open(K),
    Close(K),
    Dot,
    QDot,
    Pipe,
    Comma,
    Colon,
    Plus,
    Minus,
    Kw(&'static str),
    Ident,
    Index,
    Number,
    Str,
    Fail(String),
    End,
}

const KEYWORDS: [&str; 13] = [
    "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "true", "false",
];

pub fn keywords() -> &'static [&'static str] {
    &KEYWORDS
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub unicode: bool,
}

pub fn ident_start(c: char, o: Opts) -> bool {
    if o.unicode {
        c == '_' || unicode_ident::is_xid_start(c)
    } else {
        c == '_' || c.is_ascii_alphanumeric()
    }
}

pub fn ident_cont(c: char, o: Opts) -> bool {
    if o.unicode {
        unicode_ident::is_xid_continue(c)
    } else {
        c == '_' || c.is_ascii_alphanumeric()
    }
}

/// Splits the source into tokens, ending in `Fail` or `End`.
fn tokens(pats: &[Pat], src: &str, o: Opts) -> Vec<(T, Sp)> {
    let n = src.len();
    let mut out: Vec<(T, Sp)> = vec![];
    let mut pos = 0;
    let mut trim_next = false;
    macro_rules! fail {
        ($a:expr, $b:expr, $m:expr) => {{
            out.push((T::Fail($m.to_string()), ($a, $b)));
            return out;
        }};
    }
    'text: loop {
        if pos == n {
            break;
        }
        // Text up to the next delimiter.
        let hit = find(pats, src, pos);
        let stop = hit.as_ref().map_or(n, |h| h.start);
        if let Some(h) = &hit {
            if !h.begin {
                fail!(h.start, h.end, "unexpected end");
            }
        }
        if stop > pos {
            let mut text = &src[pos..stop];
            if hit.as_ref().is_some_and(|h| h.trim) {
                text = text.trim_end_matches(char::is_whitespace);
            }
            if trim_next {
                text = text.trim_start_matches(char::is_whitespace);
            }
            out.push((T::Raw(text.to_string()), (pos, stop)));
        }
        trim_next = false;
        let Some(open) = hit else { break };
        let Hit { kind, start, end, .. } = open;
        let open_span = (start, end);
        out.push((T::Open(kind), open_span));
        pos = end;

        if kind == K::Comment {
            if pos == n {
                break;
            }
            match find(pats, src, pos) {
                None => {
                    out.push((T::Raw(String::new()), (pos, n)));
                    break;
                }
                Some(h) if h.begin => fail!(start, end, "unclosed begin"),
                Some(h) if h.kind != K::Comment => fail!(h.start, h.end, "unexpected end"),
                Some(h) => {
                    if h.start > pos {
                        out.push((T::Raw(String::new()), (pos, h.start)));
                    }
                    out.push((T::Close(K::Comment), (h.start, h.end)));
                    trim_next = h.trim;
                    pos = h.end;
                    continue 'text;
                }
            }
        }

        // Inside an expression or block tag.
        let mut in_path = false;
        loop {
            if pos == n {
                break 'text;
            }
            if let Some(h) = here(pats, src, pos) {
                if h.begin {
                    fail!(start, end, "unclosed begin");
                }
                if h.kind != kind {
                    fail!(h.start, h.end, "unexpected end");
                }
                out.push((T::Close(kind), (h.start, h.end)));
                trim_next = h.trim;
                pos = h.end;
                continue 'text;
            }
            let rest = &src[pos..];
            let c = rest.chars().next().unwrap();
            let take = |pred: &dyn Fn(char) -> bool| -> usize {
                rest.char_indices().find(|(_, c)| !pred(*c)).map_or(n, |(d, _)| pos + d)
            };
            let (t, end) = match c {
                ' ' | '\t' => {
                    pos += 1;
                    continue;
                }
                '.' => (T::Dot, pos + 1),
                '|' => (T::Pipe, pos + 1),
                ',' => (T::Comma, pos + 1),
                ':' => (T::Colon, pos + 1),
                '+' => (T::Plus, pos + 1),
                '-' => (T::Minus, pos + 1),
                '?' => match rest[1..].chars().next() {
                    Some('.') => (T::QDot, pos + 2),
                    Some(c) => fail!(pos, pos + 1 + c.len_utf8(), "unexpected character"),
                    None => fail!(pos, n, "unexpected character"),
                },
                '"' => {
                    let mut it = rest.char_indices().skip(1);
                    let end = loop {
                        match it.next() {
                            None => fail!(pos, n, "undelimited string"),
                            Some((d, '\n' | '\r')) => fail!(pos, pos + d, "undelimited string"),
                            Some((d, '"')) => break pos + d + 1,
                            Some((_, '\\')) => {
                                // The escaped character belongs to the escape, unless it ends the line.
                                match it.next() {
                                    None => fail!(pos, n, "undelimited string"),
                                    Some((d, '\n' | '\r')) => fail!(pos, pos + d, "undelimited string"),
                                    Some(_) => {}
                                }
                            }
                            Some(_) => {}
                        }
                    };
                    (T::Str, end)
                }
                c if c.is_ascii_digit() && in_path => (T::Index, take(&|c| c.is_ascii_digit())),
                c if c.is_ascii_digit() => {
                    let mut e = pos + 1;
                    let b = src.as_bytes();
                    while e < n {
                        let ch = b[e];
                        if !(ch.is_ascii_alphanumeric() || matches!(ch, b'_' | b'+' | b'-' | b'.')) {
                            break;
                        }
                        if !ch.is_ascii_alphanumeric() && here(pats, src, e).is_some() {
                            break;
                        }
                        e += 1;
                    }
                    (T::Number, e)
                }
                c if ident_start(c, o) => {
                    let e = take(&|c| ident_cont(c, o));
                    match KEYWORDS.iter().find(|k| **k == &src[pos..e]) {
                        Some(k) => (T::Kw(k), e),
                        None => (T::Ident, e),
                    }
                }
                c => fail!(pos, pos + c.len_utf8(), "unexpected character"),
            };
            match t {
                T::Ident => in_path = true,
                T::Pipe | T::Comma | T::Colon | T::Kw(_) => in_path = false,
                _ => {}
            }
            out.push((t, (pos, end)));
            pos = end;
        }
    }
    out.push((T::End, (n, n)));
    out
}

// ---------------------------------------------------------------------------
// Parser
// ---------------------------------------------------------------------------

struct P<'a> {
    src: &'a str,
    toks: &'a [(T, Sp)],
    i: usize,
}

type R<X> = Result<X, SynErr>;

fn join(a: Sp, b: Sp) -> Sp {
    (a.0.min(b.0), a.1.max(b.1))
}

fn err<X>(span: Sp, what: impl Into<String>) -> R<X> {
    Err(SynErr { span, what: what.into() })
}

enum Tag {
    If(bool, Expr),
    Else,
    ElseIf(bool, Expr),
    EndIf,
    For(Vec<(String, Sp)>, Expr),
    EndFor,
    With(Expr, String),
    EndWith,
    Include(Include),
}

/// How a sequence of nodes ended.
enum Stop {
    Eof,
    Tag(Tag, Sp),
}

#[derive(Clone, Copy, PartialEq)]
enum Within {
    Root,
    If,
    Else,
    For,
    With,
}

pub fn parse(pats: &[Pat], src: &str, o: Opts) -> R<Tpl> {
    let toks = tokens(pats, src, o);
    let mut p = P { src, toks: &toks, i: 0 };
    let mut open: Vec<(Within, Sp)> = vec![];
    let (nodes, stop) = p.nodes(Within::Root, &mut open)?;
    match stop {
        Stop::Eof => Ok(Tpl { src: Rc::from(src), nodes }),
        Stop::Tag(_, sp) => err(sp, "unexpected block"),
    }
}

impl<'a> P<'a> {
    fn text(&self, s: Sp) -> &'a str {
        &self.src[s.0..s.1]
    }

    /// The next token; a lexing failure surfaces when it is looked at.
    fn peek(&self) -> R<&'a (T, Sp)> {
        let t = &self.toks[self.i];
        match &t.0 {
            T::Fail(m) => err(t.1, m.clone()),
            _ => Ok(t),
        }
    }

    fn next(&mut self) -> R<&'a (T, Sp)> {
        let t = self.peek()?;
        if t.0 != T::End {
            self.i += 1;
        }
        Ok(t)
    }

    fn eat(&mut self, t: &T) -> R<bool> {
        if self.peek()?.0 == *t {
            self.i += 1;
            return Ok(true);
        }
        Ok(false)
    }

    fn need(&mut self, t: &T) -> R<Sp> {
        let (got, sp) = self.next()?;
        if got == t {
            Ok(*sp)
        } else {
            err(*sp, format!("expected {t:?}"))
        }
    }

    /// Parses nodes until a tag that ends the current body, or the end of the source.
    ///
    /// `open` is the stack of open blocks with the span of their opening tag.
    fn nodes(&mut self, within: Within, open: &mut Vec<(Within, Sp)>) -> R<(Vec<Node>, Stop)> {
        let mut out = vec![];
        loop {
            let (t, sp) = self.next()?;
            match t {
                T::End => {
                    return match open.first() {
                        Some((_, sp)) => err(*sp, "unclosed block"),
                        None => Ok((out, Stop::Eof)),
                    };
                }
                T::Raw(s) => out.push(Node::Raw(s.clone())),
                T::Open(K::Comment) => {
                    if let T::Raw(_) = self.peek()?.0 {
                        self.i += 1;
                    }
                    self.need(&T::Close(K::Comment))?;
                }
                T::Open(K::Expr) => {
                    let e = self.expr()?;
                    self.need(&T::Close(K::Expr))?;
                    out.push(Node::Emit(e));
                }
                T::Open(K::Block) => {
                    let tag = self.tag()?;
                    let end = self.need(&T::Close(K::Block))?;
                    let span = join(*sp, end);
                    match tag {
                        Tag::Include(i) => out.push(Node::Include(i)),
                        Tag::If(not, cond) => out.push(Node::If(self.if_rest(not, cond, span, open)?)),
                        Tag::For(vars, iter) => {
                            open.push((Within::For, span));
                            let (body, stop) = self.nodes(Within::For, open)?;
                            open.pop();
                            match stop {
                                Stop::Tag(Tag::EndFor, _) => {}
                                _ => unreachable!(),
                            }
                            out.push(Node::For(For { vars, iter, body }));
                        }
                        Tag::With(expr, name) => {
                            open.push((Within::With, span));
                            let (body, stop) = self.nodes(Within::With, open)?;
                            open.pop();
                            match stop {
                                Stop::Tag(Tag::EndWith, _) => {}
                                _ => unreachable!(),
                            }
                            out.push(Node::With(With { expr, name, body }));
                        }
                        tag => {
                            let fits = match (&tag, within) {
                                (Tag::Else | Tag::ElseIf(..), Within::If) => true,
                                (Tag::EndIf, Within::If | Within::Else) => true,
                                (Tag::EndFor, Within::For) => true,
                                (Tag::EndWith, Within::With) => true,
                                _ => false,
                            };
                            if !fits {
                                return err(span, "unexpected block");
                            }
                            return Ok((out, Stop::Tag(tag, span)));
                        }
                    }
                }
                other => unreachable!("{other:?}"),
            }
        }
    }

    fn if_rest(&mut self, not: bool, cond: Expr, span: Sp, open: &mut Vec<(Within, Sp)>) -> R<If> {
        let mut arms = vec![];
        let mut cur = (not, cond);
        open.push((Within::If, span));
        loop {
            let (body, stop) = self.nodes(Within::If, open)?;
            arms.push((cur.0, cur.1, body));
            match stop {
                Stop::Tag(Tag::EndIf, _) => {
                    open.pop();
                    return Ok(If { arms, other: vec![] });
                }
                Stop::Tag(Tag::ElseIf(n, c), _) => cur = (n, c),
                Stop::Tag(Tag::Else, _) => {
                    let (other, stop) = self.nodes(Within::Else, open)?;
                    match stop {
                        Stop::Tag(Tag::EndIf, _) => {}
                        _ => unreachable!(),
                    }
                    open.pop();
                    return Ok(If { arms, other });
                }
                _ => unreachable!(),
            }
        }
    }

    fn keyword(&mut self) -> R<(&'static str, Sp)> {
        match self.next()? {
            (T::Kw(k), sp) => Ok((k, *sp)),
            (_, sp) => err(*sp, "expected keyword"),
        }
    }

    fn need_kw(&mut self, kw: &str) -> R<()> {
        let (k, sp) = self.keyword()?;
        if k == kw {
            Ok(())
        } else {
            err(sp, format!("expected keyword {kw}"))
        }
    }

    fn eat_kw(&mut self, kw: &'static str) -> R<bool> {
        self.eat(&T::Kw(kw))
    }

    fn ident(&mut self) -> R<(String, Sp)> {
        let sp = self.need(&T::Ident)?;
        Ok((self.text(sp).to_string(), sp))
    }

    fn cond(&mut self) -> R<(bool, Expr)> {
        let not = self.eat_kw("not")?;
        Ok((not, self.expr()?))
    }

    fn tag(&mut self) -> R<Tag> {
        let (kw, sp) = self.keyword()?;
        Ok(match kw {
            "if" => {
                let (n, e) = self.cond()?;
                Tag::If(n, e)
            }
            "else" => {
                if self.eat_kw("if")? {
                    let (n, e) = self.cond()?;
                    Tag::ElseIf(n, e)
                } else {
                    Tag::Else
                }
            }
            "endif" => Tag::EndIf,
            "for" => {
                let mut vars = vec![self.ident()?];
                if self.eat(&T::Comma)? {
                    vars.push(self.ident()?);
                }
                self.need_kw("in")?;
                Tag::For(vars, self.expr()?)
            }
            "endfor" => Tag::EndFor,
            "with" => {
                let e = self.expr()?;
                self.need_kw("as")?;
                Tag::With(e, self.ident()?.0)
            }
            "endwith" => Tag::EndWith,
            "include" => {
                let span = self.need(&T::Str)?;
                let name = self.string(span)?;
                let with = if self.eat_kw("with")? { Some(self.expr()?) } else { None };
                Tag::Include(Include { name, span, with })
            }
            _ => return err(sp, "unexpected keyword"),
        })
    }

    fn expr(&mut self) -> R<Expr> {
        let base = self.base()?;
        let mut span = base.span();
        let mut calls = vec![];
        while self.eat(&T::Pipe)? {
            let (name, name_span) = self.ident()?;
            let mut end = name_span;
            let mut args = None;
            if self.eat(&T::Colon)? {
                let mut xs = vec![self.base()?];
                while self.eat(&T::Comma)? {
                    xs.push(self.base()?);
                }
                end = xs.last().unwrap().span();
                args = Some(xs);
            }
            span = join(span, end);
            calls.push(Call { name, name_span, args });
        }
        Ok(Expr { base, calls, span })
    }

    fn base(&mut self) -> R<Base> {
        let (t, sp) = self.next()?;
        let sp = *sp;
        match t {
            T::Kw("true") => Ok(Base::Lit(Value::Bool(true), sp)),
            T::Kw("false") => Ok(Base::Lit(Value::Bool(false), sp)),
            T::Kw(_) => err(sp, "unexpected keyword"),
            T::Plus | T::Minus => {
                let d = self.need(&T::Number)?;
                self.number(d, join(sp, d), *t == T::Minus)
            }
            T::Number => self.number(sp, sp, false),
            T::Str => Ok(Base::Lit(Value::String(self.string(sp)?), sp)),
            T::Ident => {
                let mut segs = vec![Seg { opt: false, key: Key::Name(self.text(sp).to_string()), span: sp }];
                loop {
                    let (t, op) = self.peek()?;
                    let opt = match t {
                        T::Dot => false,
                        T::QDot => true,
                        _ => break,
                    };
                    self.i += 1;
                    let (t, s) = self.next()?;
                    let key = match t {
                        T::Ident => Key::Name(self.text(*s).to_string()),
                        T::Index => match self.text(*s).parse::<usize>() {
                            Ok(i) => Key::Idx(i),
                            Err(_) => return err(*s, "index out of range"),
                        },
                        _ => return err(*s, "expected identifier or index"),
                    };
                    segs.push(Seg { opt, key, span: join(*op, *s) });
                }
                let span = join(sp, segs.last().unwrap().span);
                Ok(Base::Path(segs, span))
            }
            _ => err(sp, "expected expression"),
        }
    }

    fn number(&self, digits: Sp, span: Sp, neg: bool) -> R<Base> {
        let raw = self.text(digits);
        match integer(raw, neg) {
            Ok(i) => Ok(Base::Lit(Value::Integer(i), span)),
            Err(at) => {
                // Rust's float grammar decides what is a float.
                if let Ok(f) = raw.parse::<f64>() {
                    return Ok(Base::Lit(Value::Float(if neg { -f } else { f }), span));
                }
                match at {
                    Some(k) if !raw.contains(['.', '+', '-']) => {
                        err((digits.0 + k, digits.0 + k + 1), "invalid digit")
                    }
                    _ => err(span, "invalid number"),
                }
            }
        }
    }

    fn string(&self, sp: Sp) -> R<String> {
        let inner = &self.src[sp.0 + 1..sp.1 - 1];
        let mut out = String::new();
        let mut it = inner.char_indices();
        while let Some((_, c)) = it.next() {
            if c != '\\' {
                out.push(c);
                continue;
            }
            let (d, e) = it.next().expect("escape is never last");
            out.push(match e {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '\\' => '\\',
                '"' => '"',
                _ => {
                    let a = sp.0 + 1 + d;
                    return err((a, a + e.len_utf8()), "unknown escape character");
                }
            });
        }
        Ok(out)
    }
}

/// Err(Some(offset)) for an invalid digit, Err(None) if out of range.
fn integer(raw: &str, neg: bool) -> Result<i64, Option<usize>> {
    let (skip, radix) = if raw.starts_with("0b") {
        (2, 2)
    } else if raw.starts_with("0o") {
        (2, 8)
    } else if raw.starts_with("0x") {
        (2, 16)
    } else {
        (0, 10)
    };
    if raw[skip..].chars().all(|c| c == '_') {
        return Err(None);
    }
    let limit: i128 = if neg { 1 << 63 } else { (1 << 63) - 1 };
    let mut acc: i128 = 0;
    for (k, c) in raw.char_indices().skip(skip) {
        if c == '_' {
            continue;
        }
        let Some(d) = c.to_digit(radix) else { return Err(Some(k)) };
        acc = acc * radix as i128 + d as i128;
        if acc > limit {
            return Err(None);
        }
    }
    Ok(if neg { -acc } else { acc } as i64)
}
