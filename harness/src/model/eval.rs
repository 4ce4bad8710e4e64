//! The reference evaluator: a tree walk with an environment, producing output, a callback
//! trace, and at most one error.

use super::parse::*;
use crate::funcs::{self, Cb, Fmt, Func, Ty};
use crate::val::{dump, kind_name, Map, Value};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Syntax,
    Render,
    Filter,
    Format,
    Serialize,
    Io,
}

#[derive(Clone, Debug)]
pub struct MErr {
    pub kind: Kind,
    /// The exact reason, if it comes from a callback.
    pub user: Option<String>,
    /// Whether a reason is shown at all.
    pub has_reason: bool,
    /// Texts that the reason must mention.
    pub hints: Vec<String>,
    /// Source and span of the offending construct.
    pub at: Option<(Rc<str>, Sp)>,
    /// Name of the template the error is in.
    pub template: Option<String>,
    /// What happened, for humans.
    pub what: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CtxMode {
    /// Serialized from data.
    Serde,
    /// By reference.
    Ref,
    /// Through a value function answering from the data.
    Fn,
}

pub struct World {
    pub funcs: BTreeMap<String, Func>,
    pub default_fmt: Fmt,
    pub templates: BTreeMap<String, Rc<Tpl>>,
    pub max_depth: usize,
    /// Includes go through a resolver function.
    pub resolver: bool,
}

/// A value and whether it is held by value (affects string reference parameters only).
#[derive(Clone)]
pub struct Held {
    pub v: Rc<Value>,
    pub owned: bool,
}

enum Frame {
    Data(Held),
    Func,
    Var(String, Held),
    Loop(LoopFrame),
    Wall,
}

struct LoopFrame {
    names: Vec<String>,
    /// Key (maps only) and item.
    cur: (Option<String>, Rc<Value>),
    owned: bool,
    index: usize,
    len: usize,
}

pub struct Eval<'w> {
    w: &'w World,
    mode: CtxMode,
    data: Rc<Value>,
    frames: Vec<Frame>,
    active: usize,
    pub out: String,
    pub cb: Cb,
    /// Number of evaluation steps, for bounding.
    pub steps: u64,
    pub limit: u64,
    pub max_active: usize,
    pub over_budget: bool,
}

type R<X> = Result<X, Box<MErr>>;

struct Cur {
    tpl: Rc<Tpl>,
    name: Option<String>,
}

pub fn truthy(v: &Value) -> bool {
    !match v {
        Value::None => true,
        Value::Bool(b) => !b,
        Value::Integer(i) => *i == 0,
        Value::Float(f) => *f == 0.0,
        Value::String(s) => s.is_empty(),
        Value::List(l) => l.is_empty(),
        Value::Map(m) => m.is_empty(),
    }
}

/// Largest value a filter may make, roughly in bytes.
const MAX_VALUE: i64 = 1 << 20;

fn measure(v: &Value, room: &mut i64) {
    *room -= 16;
    match v {
        Value::String(s) => *room -= s.len() as i64,
        Value::List(l) => l.iter().for_each(|v| {
            if *room > 0 {
                measure(v, room)
            }
        }),
        Value::Map(m) => m.iter().for_each(|(k, v)| {
            if *room > 0 {
                *room -= k.len() as i64;
                measure(v, room)
            }
        }),
        _ => {}
    }
}

enum Access {
    Absent,
    Bad(String),
}

/// Applies one segment to a value.
fn access(v: &Value, seg: &Seg) -> Result<Value, Access> {
    let r = match (v, &seg.key) {
        (Value::List(l), Key::Idx(i)) => match l.get(*i) {
            Some(v) => return Ok(v.clone()),
            None => format!("{}", l.len()),
        },
        (Value::Map(m), Key::Name(k)) => match m.get(k) {
            Some(v) => return Ok(v.clone()),
            None => String::new(),
        },
        (v, _) => return Err(Access::Bad(kind_name(v).to_string())),
    };
    if seg.opt {
        Err(Access::Absent)
    } else {
        Err(Access::Bad(r))
    }
}

/// What the harness's value function answers for a path.
pub fn answer(data: &Value, segs: &[(bool, Key)]) -> Result<Value, String> {
    let mut cur = data;
    for (opt, key) in segs {
        let next = match (cur, key) {
            (Value::List(l), Key::Idx(i)) => l.get(*i),
            (Value::Map(m), Key::Name(k)) => m.get(k),
            _ => return Err(format!("value function: {} at {}", kind_name(cur), path_text(segs))),
        };
        match next {
            Some(v) => cur = v,
            None if *opt => return Ok(Value::None),
            None => return Err(format!("value function: no {}", path_text(segs))),
        }
    }
    Ok(cur.clone())
}

pub fn path_text(segs: &[(bool, Key)]) -> String {
    let mut s = String::new();
    for (i, (opt, key)) in segs.iter().enumerate() {
        if i > 0 || *opt {
            s.push_str(if *opt { "?." } else { "." });
        }
        match key {
            Key::Name(k) => s.push_str(k),
            Key::Idx(i) => s.push_str(&format!("#{i}")),
        }
    }
    s
}

impl<'w> Eval<'w> {
    fn event(&mut self, event: String) -> Option<String> {
        self.cb.marks.push(self.out.len());
        self.cb.enter(event)
    }

    pub fn new(w: &'w World, mode: CtxMode, data: Rc<Value>, cb: Cb) -> Self {
        let root = match mode {
            CtxMode::Fn => Frame::Func,
            _ => Frame::Data(Held { v: data.clone(), owned: false }),
        };
        Eval {
            w,
            mode,
            data,
            frames: vec![root],
            active: 0,
            out: String::new(),
            cb,
            steps: 0,
            limit: 2_000_000,
            max_active: 0,
            over_budget: false,
        }
    }

    pub fn run(&mut self, tpl: Rc<Tpl>, name: Option<String>) -> Result<(), Box<MErr>> {
        let _ = self.mode;
        self.active = 1;
        self.max_active = 1;
        self.nodes(&tpl.nodes, &Cur { tpl: tpl.clone(), name })
    }

    fn fail<X>(&self, cur: &Cur, kind: Kind, span: Option<Sp>, what: &str) -> R<X> {
        Err(Box::new(MErr {
            kind,
            user: None,
            has_reason: true,
            hints: vec![],
            at: span.map(|s| (cur.tpl.src.clone(), s)),
            template: cur.name.clone(),
            what: what.to_string(),
        }))
    }

    fn fail_hint<X>(&self, cur: &Cur, span: Sp, what: &str, hints: &[&str]) -> R<X> {
        self.fail(cur, Kind::Render, Some(span), what).map_err(|mut e: Box<MErr>| {
            e.hints = hints.iter().filter(|h| !h.is_empty()).map(|h| h.to_string()).collect();
            e
        })
    }

    fn fail_user<X>(&self, cur: &Cur, kind: Kind, span: Sp, msg: Option<String>) -> R<X> {
        Err(Box::new(MErr {
            kind,
            has_reason: msg.is_some(),
            user: msg,
            hints: vec![],
            at: Some((cur.tpl.src.clone(), span)),
            template: cur.name.clone(),
            what: "callback failed".into(),
        }))
    }

    fn nodes(&mut self, nodes: &[Node], cur: &Cur) -> R<()> {
        for n in nodes {
            self.steps += 1;
            if self.steps > self.limit || self.out.len() > 8_000_000 {
                self.over_budget = true;
                return self.fail(cur, Kind::Render, None, "model budget exhausted");
            }
            match n {
                Node::Raw(s) => self.out.push_str(s),
                Node::Emit(e) => self.emit(e, cur)?,
                Node::If(i) => {
                    let mut done = false;
                    for (not, cond, body) in &i.arms {
                        let v = self.expr(cond, cur)?;
                        if truthy(&v.v) != *not {
                            self.nodes(body, cur)?;
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        self.nodes(&i.other, cur)?;
                    }
                }
                Node::With(w) => {
                    let v = self.expr(&w.expr, cur)?;
                    self.frames.push(Frame::Var(w.name.clone(), v));
                    self.nodes(&w.body, cur)?;
                    self.frames.pop();
                }
                Node::For(f) => self.loop_(f, cur)?,
                Node::Include(inc) => self.include(inc, cur)?,
            }
        }
        Ok(())
    }

    fn loop_(&mut self, f: &For, cur: &Cur) -> R<()> {
        let it = self.expr(&f.iter, cur)?;
        let items: Vec<(Option<String>, Rc<Value>)> = match &*it.v {
            Value::List(l) => {
                if f.vars.len() != 1 {
                    return self.fail(cur, Kind::Render, Some((f.vars[0].1 .0, f.vars[1].1 .1)), "list with two variables");
                }
                l.iter().map(|v| (None, Rc::new(v.clone()))).collect()
            }
            Value::Map(m) => {
                if f.vars.len() != 2 {
                    return self.fail(cur, Kind::Render, Some(f.vars[0].1), "map with one variable");
                }
                m.iter().map(|(k, v)| (Some(k.clone()), Rc::new(v.clone()))).collect()
            }
            v => {
                let k = kind_name(v);
                return self.fail_hint(cur, f.iter.span, "not iterable", &[k]);
            }
        };
        let len = items.len();
        let names: Vec<String> = f.vars.iter().map(|v| v.0.clone()).collect();
        for (index, item) in items.into_iter().enumerate() {
            self.frames.push(Frame::Loop(LoopFrame { names: names.clone(), cur: item, owned: it.owned, index, len }));
            self.nodes(&f.body, cur)?;
            self.frames.pop();
        }
        Ok(())
    }

    fn include(&mut self, inc: &Include, cur: &Cur) -> R<()> {
        let with = match &inc.with {
            Some(e) => Some(self.expr(e, cur)?),
            None => None,
        };
        if self.w.resolver {
            if let Some(msg) = self.event(format!("I {}", inc.name)) {
                return self.fail_user(cur, Kind::Render, inc.span, Some(msg));
            }
        }
        let Some(tpl) = self.w.templates.get(&inc.name).cloned() else {
            if self.w.resolver {
                return self.fail_user(cur, Kind::Render, inc.span, Some(funcs::resolver_msg(&inc.name)));
            }
            return self.fail(cur, Kind::Render, Some(inc.span), "unknown template");
        };
        if self.active + 1 > self.w.max_depth {
            let mut e = *self.fail::<()>(cur, Kind::Render, None, "depth").unwrap_err();
            e.template = None;
            e.hints = vec![self.w.max_depth.to_string()];
            return Err(Box::new(e));
        }
        self.active += 1;
        self.max_active = self.max_active.max(self.active);
        let isolated = with.is_some();
        if let Some(v) = with {
            self.frames.push(Frame::Wall);
            self.frames.push(Frame::Data(v));
        }
        self.nodes(&tpl.nodes, &Cur { tpl: tpl.clone(), name: Some(inc.name.clone()) })?;
        if isolated {
            self.frames.pop();
            self.frames.pop();
        }
        self.active -= 1;
        Ok(())
    }

    fn emit(&mut self, e: &Expr, cur: &Cur) -> R<()> {
        // A last step without arguments may name a formatter.
        if let Some((last, init)) = e.calls.split_last() {
            if last.args.is_none() {
                let v = self.chain(&e.base, init, cur)?;
                return match self.w.funcs.get(&last.name).copied() {
                    None => self.fail(cur, Kind::Render, Some(last.name_span), "unknown filter or formatter"),
                    Some(Func::Formatter(f)) => self.format(f, Some(&last.name), &v.v, last.name_span, cur),
                    Some(Func::Filter(_)) => {
                        let v = self.call(v, last, cur)?;
                        self.format(self.w.default_fmt, None, &v.v, e.span, cur)
                    }
                };
            }
        }
        let v = self.expr(e, cur)?;
        self.format(self.w.default_fmt, None, &v.v, e.span, cur)
    }

    fn format(&mut self, f: Fmt, name: Option<&str>, v: &Value, span: Sp, cur: &Cur) -> R<()> {
        if f != Fmt::Builtin {
            if let Some(msg) = self.event(format!("M {} {}", name.unwrap_or("*"), dump(v))) {
                return self.fail_user(cur, Kind::Format, span, Some(msg));
            }
        }
        let (pieces, res) = funcs::format_plan(f, v);
        for p in pieces {
            self.out.push_str(&p.text());
        }
        match res {
            Ok(()) => Ok(()),
            Err(funcs::FmtErr::Unsupported(kind)) => {
                self.fail::<()>(cur, Kind::Format, Some(span), "unformattable").map_err(|mut e| {
                    e.hints = vec![kind.to_string()];
                    e
                })
            }
            Err(funcs::FmtErr::Msg(m)) => self.fail_user(cur, Kind::Format, span, m),
        }
    }

    fn expr(&mut self, e: &Expr, cur: &Cur) -> R<Held> {
        self.chain(&e.base, &e.calls, cur)
    }

    fn chain(&mut self, base: &Base, calls: &[Call], cur: &Cur) -> R<Held> {
        let mut v = self.base(base, cur)?;
        for c in calls {
            v = self.call(v, c, cur)?;
        }
        Ok(v)
    }

    fn call(&mut self, v: Held, c: &Call, cur: &Cur) -> R<Held> {
        let f = match self.w.funcs.get(&c.name).copied() {
            None => return self.fail(cur, Kind::Render, Some(c.name_span), "unknown filter"),
            Some(Func::Formatter(_)) => {
                return self.fail(cur, Kind::Render, Some(c.name_span), "formatter in the middle")
            }
            Some(Func::Filter(f)) => f,
        };
        let sig = f.sig();
        let args: &[Base] = c.args.as_deref().unwrap_or(&[]);
        if args.len() != sig.len() - 1 {
            let n = (sig.len() - 1).to_string();
            return self.fail_hint(cur, c.name_span, "wrong argument count", &[&n]);
        }
        let mut got = vec![];
        match convert(sig[0], &v.v, None) {
            Ok(x) => got.push(x),
            Err(h) => {
                let h: Vec<&str> = h.iter().map(|s| s.as_str()).collect();
                return self.fail_hint(cur, c.name_span, "piped value does not convert", &h);
            }
        }
        for (a, ty) in args.iter().zip(&sig[1..]) {
            let lit = matches!(a, Base::Lit(..));
            let h = self.base(a, cur)?;
            match convert(*ty, &h.v, Some(h.owned && !lit)) {
                Ok(x) => got.push(x),
                Err(hs) => {
                    let hs: Vec<&str> = hs.iter().map(|s| s.as_str()).collect();
                    return self.fail_hint(cur, a.span(), "argument does not convert", &hs);
                }
            }
        }
        if let Some(msg) = self.event(funcs::filter_event(f.name(), &got)) {
            return self.fail_user(cur, Kind::Filter, c.name_span, Some(msg));
        }
        match f.apply(&got) {
            Ok(v) => {
                // Values that double again and again are of no use here.
                let mut room = MAX_VALUE;
                measure(&v, &mut room);
                self.steps += (MAX_VALUE - room.max(0)) as u64 / 64;
                if room <= 0 {
                    self.over_budget = true;
                    return self.fail(cur, Kind::Render, None, "model budget exhausted");
                }
                Ok(Held { v: Rc::new(v), owned: true })
            }
            Err(m) => self.fail_user(cur, Kind::Filter, c.name_span, Some(m)),
        }
    }

    fn base(&mut self, b: &Base, cur: &Cur) -> R<Held> {
        match b {
            Base::Lit(v, _) => Ok(Held { v: Rc::new(v.clone()), owned: true }),
            Base::Path(segs, span) => self.path(segs, *span, cur),
        }
    }

    fn follow(&self, start: Held, segs: &[Seg], cur: &Cur) -> R<Held> {
        let mut v = start;
        for s in segs {
            match access(&v.v, s) {
                Ok(x) => v.v = Rc::new(x),
                Err(Access::Absent) => return Ok(Held { v: Rc::new(Value::None), owned: false }),
                Err(Access::Bad(h)) => return self.fail_hint(cur, s.span, "no such member", &[&h]),
            }
        }
        Ok(v)
    }

    fn path(&mut self, segs: &[Seg], span: Sp, cur: &Cur) -> R<Held> {
        let Key::Name(name) = &segs[0].key else { unreachable!() };
        for i in (0..self.frames.len()).rev() {
            match &self.frames[i] {
                Frame::Wall => break,
                Frame::Var(n, v) => {
                    if n == name {
                        return self.follow(v.clone(), &segs[1..], cur);
                    }
                }
                Frame::Loop(l) => {
                    if name == "loop" {
                        let info = Value::Map(Map::from([
                            ("index".to_string(), Value::Integer(l.index as i64)),
                            ("first".to_string(), Value::Bool(l.index == 0)),
                            ("last".to_string(), Value::Bool(l.index + 1 == l.len)),
                        ]));
                        return self.loop_info(info, segs, cur);
                    }
                    if let Some(k) = l.names.iter().position(|n| n == name) {
                        if let (0, Some(key)) = (k, &l.cur.0) {
                            let h = Held { v: Rc::new(Value::String(key.clone())), owned: true };
                            if let Some(s) = segs.get(1) {
                                return self.fail_hint(cur, s.span, "string member", &["string"]);
                            }
                            return Ok(h);
                        }
                        return self.follow(Held { v: l.cur.1.clone(), owned: l.owned }, &segs[1..], cur);
                    }
                }
                Frame::Data(d) => {
                    if let Ok(first) = access(&d.v, &segs[0]) {
                        return self.follow(Held { v: Rc::new(first), owned: d.owned }, &segs[1..], cur);
                    }
                }
                Frame::Func => {
                    let p: Vec<(bool, Key)> = segs.iter().map(|s| (s.opt, s.key.clone())).collect();
                    if let Some(msg) = self.event(format!("V {}", path_text(&p))) {
                        return self.fail_user(cur, Kind::Render, span, Some(msg));
                    }
                    return match answer(&self.data, &p) {
                        Ok(v) => Ok(Held { v: Rc::new(v), owned: true }),
                        Err(m) => self.fail_user(cur, Kind::Render, span, Some(m)),
                    };
                }
            }
        }
        self.fail(cur, Kind::Render, Some(segs[0].span), "not in scope")
    }

    fn loop_info(&self, info: Value, segs: &[Seg], cur: &Cur) -> R<Held> {
        self.follow(Held { v: Rc::new(info), owned: true }, &segs[1..], cur)
    }
}

/// Converts a value to a parameter type. `owned` is `None` for the piped value.
pub fn convert(ty: Ty, v: &Value, owned: Option<bool>) -> Result<Value, Vec<String>> {
    let bad = || Err(vec![kind_name(v).to_string()]);
    let int = |lo: i128, hi: i128| match v {
        Value::Integer(i) => {
            if (*i as i128) < lo || (*i as i128) > hi {
                Err(vec![i.to_string(), ty.name().to_string()])
            } else {
                Ok(v.clone())
            }
        }
        _ => bad(),
    };
    let byref = owned == Some(true);
    match (ty, v) {
        (Ty::Unit, Value::None) => Ok(Value::None),
        (Ty::Bool, Value::Bool(_)) => Ok(v.clone()),
        (Ty::U8, _) => int(0, u8::MAX as i128),
        (Ty::U16, _) => int(0, u16::MAX as i128),
        (Ty::U32, _) => int(0, u32::MAX as i128),
        (Ty::U64 | Ty::U128 | Ty::Usize, _) => int(0, i128::MAX),
        (Ty::I8, _) => int(i8::MIN as i128, i8::MAX as i128),
        (Ty::I16, _) => int(i16::MIN as i128, i16::MAX as i128),
        (Ty::I32, _) => int(i32::MIN as i128, i32::MAX as i128),
        (Ty::I64 | Ty::I128 | Ty::Isize, _) => int(i128::MIN, i128::MAX),
        (Ty::F32, Value::Float(f)) => Ok(Value::Float(*f as f32 as f64)),
        (Ty::F64, Value::Float(_)) => Ok(v.clone()),
        (Ty::Str, Value::String(_)) => Ok(v.clone()),
        (Ty::List, Value::List(_)) => Ok(v.clone()),
        (Ty::Map, Value::Map(_)) => Ok(v.clone()),
        (Ty::Val, _) => Ok(v.clone()),
        (Ty::StrRef, Value::String(_)) | (Ty::ListRef, Value::List(_)) | (Ty::MapRef, Value::Map(_)) | (Ty::ValRef, _) => {
            if byref {
                Err(vec![])
            } else {
                Ok(v.clone())
            }
        }
        _ => bad(),
    }
}
