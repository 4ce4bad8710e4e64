//! C21, C32: what reaches the writer, and what it costs.

use super::common::{key_of, program, Opt};
use crate::alloc;
use crate::check::{Ctx, Prop};
use crate::funcs::{self, Cb, CbPanic};
use crate::gen::Profile;
use crate::model::eval::{CtxMode, Kind};
use crate::obs::{self, build, guard, render, render_to, run_model, Boom, Case, Res, Root};
use crate::rng::{mix, Rng};
use crate::val::{s, Map, Value};
use std::error::Error as _;
use std::io::{self, ErrorKind, Write};

// ---------------------------------------------------------------------------
// C21
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum When {
    Never,
    /// The n-th write (not counting interrupted ones).
    Call(usize),
    /// After this many bytes.
    Byte(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum How {
    /// An error carrying our own payload.
    Tagged(ErrorKind, u64),
    Simple(ErrorKind),
    Os(i32),
    /// Accepts nothing.
    Zero,
    Panic,
}

impl How {
    pub(super) fn fail(self) -> io::Result<usize> {
        match self {
            How::Tagged(kind, t) => Err(io::Error::new(kind, Tag(t))),
            How::Simple(kind) => Err(kind.into()),
            How::Os(c) => Err(io::Error::from_raw_os_error(c)),
            How::Zero => Ok(0),
            How::Panic => std::panic::resume_unwind(Box::new(CbPanic)),
        }
    }
}

#[derive(Debug)]
struct Tag(u64);

impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "tag {}", self.0)
    }
}

impl std::error::Error for Tag {}

/// A writer with a plan.
struct Faulty {
    when: When,
    how: How,
    /// Fails once only; later writes would succeed.
    transient: bool,
    /// Largest number of bytes accepted by one write.
    chunk: usize,
    /// Percentage of interrupted writes.
    intr: usize,
    rng: Rng,
    calls: usize,
    sizes: Vec<usize>,
    got: Vec<u8>,
    failed: bool,
    after: usize,
    interrupts: usize,
    shorts: usize,
}

impl Faulty {
    fn new(when: When, how: How) -> Faulty {
        Faulty {
            when,
            how,
            transient: true,
            chunk: usize::MAX,
            intr: 0,
            rng: Rng::new(1),
            calls: 0,
            sizes: vec![],
            got: vec![],
            failed: false,
            after: 0,
            interrupts: 0,
            shorts: 0,
        }
    }
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after += 1;
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.intr > 0 && self.rng.pct(self.intr) {
            self.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let k = self.calls;
        self.calls += 1;
        let mut n = b.len();
        if self.chunk < usize::MAX {
            n = n.min(self.rng.range(1, self.chunk));
        }
        let now = match self.when {
            When::Never => false,
            When::Call(c) => c == k,
            When::Byte(x) => {
                n = n.min(x.saturating_sub(self.got.len()));
                n == 0
            }
        };
        if now && !(self.failed && self.transient) {
            self.failed = true;
            return self.how.fail();
        }
        if now {
            n = b.len();
        }
        if n < b.len() {
            self.shorts += 1;
        }
        self.sizes.push(n);
        self.got.extend(&b[..n]);
        funcs::wrote(n);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::QuotaExceeded,
    ErrorKind::Other,
];

pub(super) fn any_how(r: &mut Rng) -> How {
    match r.below(10) {
        0 => How::Zero,
        1 => How::Panic,
        2 | 3 => How::Simple(*r.pick(KINDS)),
        4 => How::Os(*r.pick(&[28, 32, 5, 11, 104])),
        _ => How::Tagged(*r.pick(KINDS), r.u64()),
    }
}

/// Is this the error the writer returned?
pub(super) fn identity(how: How, e: &io::Error) -> bool {
    match how {
        How::Tagged(k, t) => e.kind() == k && e.get_ref().and_then(|x| x.downcast_ref::<Tag>()).is_some_and(|x| x.0 == t),
        How::Simple(k) => e.kind() == k && e.get_ref().is_none() && e.raw_os_error().is_none(),
        How::Os(c) => e.raw_os_error() == Some(c),
        How::Zero => e.kind() == ErrorKind::WriteZero,
        How::Panic => false,
    }
}

struct Broken;

impl serde::Serialize for Broken {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("cannot"))
    }
}

fn c21(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let o = Opt {
        profile: Profile { err: *r.pick(&[0, 0, 1, 3]), bad_fn: *r.pick(&[0, 0, 5, 20]), filters: 25, fmt: 35, raw: 6, ..Default::default() },
        modes: &[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn],
        resolver: 20,
        fmt: 40,
        fail: 20,
        faulty: true,
        stretch: 1,
        budget: 40,
        ..Default::default()
    };
    let large = ctx.idx % 120 == 60;
    let (mut case, feats) = if large {
        // Texts and values that are long in one piece.
        use super::scale::{self, G};
        let n = *r.pick(&[9_000, 33_000, 66_000, 70_000, 132_000, 260_000]);
        ctx.count("long texts and values");
        let g = *r.pick(&[G::Text, G::Text, G::Out]);
        (scale::program(r, g, n), Default::default())
    } else {
        program(r, &o)
    };
    case.writer = false;
    if ctx.verbose {
        println!("{}", case.describe());
    }
    let want = run_model(&case);
    let Some(w) = &want.render else { return Ok(()) };
    if w.over_budget || (w.out.len() > 50_000 && !large) {
        return Ok(());
    }
    let b = build(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
    if obs::root_of(&case, &b).is_none() {
        return Ok(()); // judged elsewhere
    }
    let cb = || Cb { fail_at: case.fail_at, ..Default::default() };
    let desc = |p: &Faulty| {
        format!(
            "writer: {:?} {:?} transient={} chunk={} interrupted={}%\n{}",
            p.when,
            p.how,
            p.transient,
            p.chunk,
            p.intr,
            case.describe()
        )
    };

    // The string.
    let (sres, sout, _) = render(&case, &b, cb(), &case.data).unwrap();
    if let Res::Boom(x) = &sres {
        return Err(format!("panic {x:?}\n{}", case.describe()));
    }
    // What has to reach a writer that accepts everything: the string, or, if rendering fails, what
    // comes before the failing construct.
    let full: Vec<u8> = match (&sres, &w.res) {
        (Res::Ok, _) => sout.unwrap().into_bytes(),
        (_, Err(_)) => w.out.clone().into_bytes(),
        _ => return Ok(()), // judged elsewhere
    };
    let run = |mut p: Faulty| -> (Res, Option<upon::Error>, Faulty, Cb) {
        let (res, e, cb) = render_to(&case, &b, cb(), &mut p).unwrap();
        (res, e, p, cb)
    };
    let same_result = |res: &Res| match (res, &sres) {
        (Res::Ok, Res::Ok) => true,
        (Res::Err(a), Res::Err(b)) => a == b,
        _ => false,
    };

    let (res, _, p, whole) = run(Faulty::new(When::Never, How::Zero));
    if !same_result(&res) {
        return Err(format!("to a writer: {}\nto a string: {}\n{}", res.brief(), sres.brief(), desc(&p)));
    }
    let differs = |got: &[u8], want: &[u8], what: &str, p: &Faulty| {
        format!("{what}: {}\n{}", obs::diff(&String::from_utf8_lossy(want), &String::from_utf8_lossy(got)), desc(p))
    };
    if p.got != full {
        return Err(differs(&p.got, &full, "what was written", &p));
    }
    let sizes = p.sizes.clone();
    // A formatter that ignores the failure of a write may go on.
    let careless = whole.careless;
    ctx.add("bytes compared", full.len() as u64);
    if !sres.ok() {
        ctx.count("rendering failures with a writer");
    }

    // Short and interrupted writes.
    for _ in 0..3 {
        let mut p = Faulty::new(When::Never, How::Zero);
        p.chunk = *r.pick(&[1, 2, 3, 7, 1000, usize::MAX]);
        p.intr = *r.pick(&[0, 20, 50, 80]);
        p.rng = r.fork();
        let (res, _, p, _) = run(p);
        if !same_result(&res) {
            return Err(format!("to a slow writer: {}\nto a string: {}\n{}", res.brief(), sres.brief(), desc(&p)));
        }
        if p.got != full {
            return Err(differs(&p.got, &full, "what was written", &p));
        }
        ctx.add("interrupted writes", p.interrupts as u64);
        ctx.add("short writes", p.shorts as u64);
    }

    // Every write fails in turn (some of them, if there are very many).
    let mut plans: Vec<Faulty> = vec![];
    let starts: Vec<usize> = sizes.iter().scan(0, |a, n| { let x = *a; *a += n; Some(x) }).collect();
    let calls: Vec<usize> = if sizes.len() <= 60 { (0..sizes.len()).collect() } else { (0..60).map(|_| r.below(sizes.len())).collect() };
    for k in calls {
        let mut p = Faulty::new(When::Call(k), any_how(r));
        p.transient = r.pct(70);
        plans.push(p);
    }
    let bytes: Vec<usize> = if full.len() <= 40 { (0..=full.len()).collect() } else { (0..40).map(|_| r.below(full.len() + 1)).collect() };
    for k in bytes {
        let mut p = Faulty::new(When::Byte(k), any_how(r));
        p.transient = r.pct(70);
        p.chunk = *r.pick(&[1, 2, 5, usize::MAX, usize::MAX]);
        p.intr = *r.pick(&[0, 0, 30]);
        p.rng = r.fork();
        plans.push(p);
    }
    for p in plans {
        let (res, e, p, cb) = run(p);
        let cut = match p.when {
            When::Call(k) => Some(starts[k]),
            When::Byte(k) if k < full.len() => Some(k),
            _ => None,
        };
        let Some(cut) = cut else {
            if !same_result(&res) || p.got != full {
                return Err(format!("a fault that was not reached changed the result: {}\n{}", res.brief(), desc(&p)));
            }
            continue;
        };
        if p.got != full[..cut] {
            return Err(differs(&p.got, &full[..cut], "the writer accepted", &p));
        }
        if p.after > 0 {
            return Err(format!("{} more writes after the failure\n{}", p.after, desc(&p)));
        }
        // Rendering stops where the writer failed: what was called until then, and nothing else.
        let reached = whole.marks.iter().filter(|m| **m <= cut).count();
        if !careless {
            if cb.trace != whole.trace[..reached] {
                return Err(format!("callbacks until the writer failed: expected {:?}, observed {:?}\n{}", &whole.trace[..reached], cb.trace, desc(&p)));
            }
            ctx.add("callbacks that did not follow a failure", (whole.trace.len() - reached) as u64);
        }
        match (&res, p.how) {
            (Res::Boom(Boom::Injected), How::Panic) => ctx.count("writer panics"),
            (Res::Boom(x), _) => return Err(format!("panic {x:?}\n{}", desc(&p))),
            (Res::Err(o), how) if how != How::Panic => {
                let src = e.as_ref().and_then(|e| e.source()).and_then(|s| s.downcast_ref::<io::Error>());
                if o.kind != Some(Kind::Io) || !src.is_some_and(|e| identity(how, e)) {
                    return Err(format!("expected the writer's own error as an io error, observed {:?} with the source {src:?}\n{}", o.plain, desc(&p)));
                }
                ctx.count(match p.when {
                    When::Call(_) => "failures at a write",
                    _ => "failures at a byte",
                });
                if !sres.ok() {
                    ctx.count("io failure before a rendering failure");
                }
            }
            (res, _) => return Err(format!("the writer failed, the result is {}\n{}", res.brief(), desc(&p))),
        }
    }

    // Writers of the standard library, by value.
    if r.one_in(4) {
        let mut got = vec![];
        let size = r.range(1, 40);
        let (res, _, _) = render_to(&case, &b, cb(), io::BufWriter::with_capacity(size, &mut got)).unwrap();
        if !same_result(&res) || got != full {
            return Err(format!("through a buffered writer: {}\n{}", res.brief(), case.describe()));
        }
        let mut room = vec![0u8; r.below(full.len() + 2)];
        let n = room.len().min(full.len());
        let mut cur = io::Cursor::new(&mut room[..]);
        let (res, e, _) = render_to(&case, &b, cb(), &mut cur).unwrap();
        let at = cur.position() as usize;
        let fine = if full.len() > room.len() {
            e.as_ref().and_then(|e| e.source()).and_then(|s| s.downcast_ref::<io::Error>()).is_some_and(|e| e.kind() == ErrorKind::WriteZero)
        } else {
            same_result(&res)
        };
        if !fine || at != n || room[..n] != full[..n] {
            return Err(format!("into {} bytes of room: {at} written, {}\n{}", room.len(), res.brief(), case.describe()));
        }
        ctx.count("standard writers");
    }

    // A context that cannot be serialized: nothing is written.
    if r.one_in(50) {
        if let Some(t) = &b.root {
            let mut p = Faulty::new(When::Never, How::Zero);
            let (x, _) = obs::res(guard(|| t.render(&b.engine, Broken).to_writer(&mut p)));
            if x.err().and_then(|e| e.kind) != Some(Kind::Serialize) || p.calls > 0 {
                return Err(format!("context that cannot be serialized: {} after {} writes\n{}", x.brief(), p.calls, case.describe()));
            }
            ctx.count("contexts that cannot be serialized");
        }
    }
    ctx.feats(&feats);
    ctx.case(&key_of(&case), full.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------------------
// C32
// ---------------------------------------------------------------------------

/// Accepts everything, keeps nothing.
struct Null(usize);

impl Write for Null {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len();
        funcs::wrote(b.len());
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c32(ctx: &mut Ctx) -> Result<(), String> {
    // Leaked messages would count as leaks.
    crate::funcs::set_slices(false);
    crate::funcs::set_nested(false);
    match mix(ctx.idx) % 16 {
        0..=1 => growth(ctx),
        15 => strings(ctx),
        2..=3 => copies(ctx),
        4..=8 => leaks(ctx),
        _ => streaming(ctx),
    }
}

/// Memory held while rendering with `data`, above what was there before.
fn held(case: &Case, b: &obs::Built) -> (i64, Res, usize) {
    let cb = Cb { quiet: true, ..Default::default() };
    let mut w = Null(0);
    let before = alloc::reset_peak();
    let (res, _, _) = render_to(case, b, cb, &mut w).unwrap();
    (alloc::peak() - before, res, w.0)
}

/// Rendering to a string holds the string, and no more than a little beyond it.
fn strings(ctx: &mut Ctx) -> Result<(), String> {
    let r = &mut ctx.rng;
    let sizes = [0, 10, 1_000, 30_000, 300_000];
    let (hidden, shown, times) = (*r.pick(&sizes), *r.pick(&[0, 1, 5_000, 80_000]), *r.pick(&[0, 1, 40]));
    let mut engine = upon::Engine::new();
    let part = match r.below(3) {
        0 => format!("{{# {} #}}", "x".repeat(hidden)),
        1 => format!("{{% if no %}}{}{{% endif %}}", "text ".repeat(hidden / 5)),
        _ => format!("{{% if no %}}{}{{% endif %}}", "{{ no }}".repeat(hidden / 8)),
    };
    let body = format!("{{% for x in l %}}{}{{{{ x }}}}{{% endfor %}}", "o".repeat(shown));
    let src = if r.bool() { format!("{part}{body}") } else { format!("{body}{part}") };
    let data = crate::val::map([("no", Value::Bool(false)), ("l", Value::List(vec![s("item"); times]))]);
    let named = r.bool();
    engine.add_template("t", src.clone()).map_err(|e| format!("{e:#}"))?;
    let t = engine.compile(src.clone()).map_err(|e| format!("{e:#}"))?;
    let want = (shown + 4) * times;
    let before = alloc::reset_peak();
    let out = match named {
        true => engine.template("t").render_from(&data).to_string(),
        false => t.render_from(&engine, &data).to_string(),
    };
    let held = alloc::peak() - before;
    let out = out.map_err(|e| format!("{e:#}"))?;
    if out.len() != want {
        return Ok(()); // judged elsewhere
    }
    let bound = 4 * (src.len() + want) as i64 + 20_000;
    if held > bound {
        return Err(format!("rendering {} bytes of source to a string of {want} bytes holds {held} bytes", src.len()));
    }
    ctx.count("strings measured");
    ctx.case(&format!("string {hidden} {shown} {times} {}", &src[..2]), want > 0);
    Ok(())
}

/// The number of iterations does not matter.
fn growth(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    // With a value function, every list is the loop's own: the same three lists, more often.
    let by_fn = r.one_in(3);
    let o = Opt {
        profile: Profile { err: 0, bad_fn: 0, filters: 25, fmt: 30, depth: 3, nodes: (1, 5), ..Default::default() },
        modes: if by_fn { &[CtxMode::Fn] } else { &[CtxMode::Ref] },
        resolver: 20,
        stretch: 0,
        budget: 25,
        syn: 0,
        ..Default::default()
    };
    let (mut case, feats) = program(r, &o);
    let as_map = r.one_in(3);
    let wrap = |t: &str| match as_map {
        _ if by_fn => format!("{{% for a9 in out9 %}}{{% for b9 in mid9 %}}{{% for c9 in mid9 %}}{{% with elem9 as q9 %}}{t}{{% endwith %}}{{% endfor %}}{{% endfor %}}{{% endfor %}}"),
        false => format!("{{% for q9 in big9 %}}{t}{{% endfor %}}"),
        true => format!("{{% for k9, q9 in big9 %}}{{{{ k9 }}}}{t}{{% endfor %}}"),
    };
    match &mut case.root {
        Root::Anon(t) => *t = wrap(t),
        Root::Named(n) => {
            for (m, t) in &mut case.templates {
                if m == n {
                    *t = wrap(t);
                }
            }
        }
    }
    let elem = crate::gen::value(r, 2);
    let set = |case: &mut Case, n: usize| {
        let Value::Map(m) = &mut case.data else { unreachable!() };
        if by_fn {
            let ints = |n: usize| Value::List((0..n).map(|i| Value::Integer(i as i64)).collect());
            m.insert("out9".into(), ints((n / 1000).max(1)));
            m.insert("mid9".into(), ints(if n < 1000 { 2 } else { 33 }));
            m.insert("elem9".into(), elem.clone());
            return;
        }
        let l = match as_map {
            false => Value::List(vec![elem.clone(); n]),
            true => Value::Map((0..n).map(|i| (format!("k{i:06}"), elem.clone())).collect()),
        };
        m.insert("big9".into(), l);
    };
    set(&mut case, 3);
    let want = run_model(&case);
    let Some(w) = &want.render else { return Ok(()) };
    if w.over_budget || w.res.is_err() || w.steps > 600 {
        return Ok(());
    }
    let b = build(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
    if obs::root_of(&case, &b).is_none() {
        return Ok(());
    }
    let mut seen = vec![];
    for n in [1100, 1100, 4400] {
        set(&mut case, n);
        let (peak, res, bytes) = held(&case, &b);
        if !res.ok() {
            return Ok(()); // judged elsewhere
        }
        seen.push((n, peak, bytes));
    }
    set(&mut case, 3);
    if seen[2].1 > seen[1].1 + 600 {
        return Err(format!("memory held grows with the number of iterations (iterations, bytes held, bytes written): {seen:?}\n{}", case.describe()));
    }
    ctx.count("loops measured");
    if by_fn {
        ctx.count("loops measured with a value function");
    }
    ctx.add("iterations measured", 6600);
    ctx.max("bytes written in one render", seen[2].2 as u64);
    ctx.max("bytes held in one render", seen[2].1 as u64);
    ctx.feats(&feats);
    ctx.case(&format!("growth {}", key_of(&case)), true);
    Ok(())
}

const PER: usize = 1200;

thread_local! {
    static HUGE: Value = {
        let name = |i: usize| format!("{i:05} {}", "lorem ipsum ".repeat(12));
        let item = |i: usize| Value::Map(Map::from([
            ("x".to_string(), Value::Integer(i as i64)),
            ("name".to_string(), s(name(i))),
            ("tags".to_string(), Value::List(vec![s("a"), s("b"), Value::None])),
            ("sub".to_string(), Value::Map(Map::from([("y".to_string(), Value::Bool(i % 2 == 0))]))),
        ]));
        let list = || Value::List((0..PER).map(item).collect());
        let map = || Value::Map((0..PER).map(|i| (format!("k{i:05}"), item(i))).collect());
        let text = || s("text & <tags> ".repeat(40_000));
        let boxed = || Map::from([("huge".to_string(), list()), ("hugemap".to_string(), map()), ("s".to_string(), text())]);
        let mut m = boxed();
        m.insert("box".to_string(), Value::Map(boxed()));
        m.insert("list".to_string(), Value::List(vec![Value::Map(boxed()), list(), text()]));
        // The same far down: deep.d.0.d.0 and so on.
        let mut deep = Value::Map(boxed());
        for _ in 0..6 {
            deep = Value::Map(Map::from([("d".to_string(), Value::List(vec![deep]))]));
        }
        m.insert("deep".to_string(), deep);
        Value::Map(m)
    };
}

const FAR: &str = "deep.d.0.d?.0.d.0?.d.0.d?.0.d.0.";

/// Something that looks at the large data without having to own any of it.
fn look(r: &mut Rng, depth: usize, out: &mut String) {
    let base = *r.pick(&["", "", "box.", "list.0.", FAR, FAR]);
    let i = r.below(PER);
    match r.below(if depth == 0 { 12 } else { 18 }) {
        0 => out.push_str(&format!("{{{{ {base}s }}}}")),
        1 => out.push_str(&format!("{{{{ {base}huge.{i}.name }}}}")),
        2 => out.push_str(&format!("{{{{ {base}hugemap.k{i:05}?.sub.y }}}}")),
        3 => out.push_str(&format!("{{{{ {base}s | len }}}} {{{{ {base}hugemap | len }}}} {{{{ list | len }}}}")),
        4 => out.push_str(&format!("{{{{ {base}s | nothing }}}}{{{{ {base}huge | nothing }}}}")),
        5 => out.push_str(&format!("{{{{ {base}s | l2: {}s }}}}", r.pick(&["", "box.", "list.0."]))),
        6 => out.push_str(&format!("{{{{ {base}huge | ll }}}}{{{{ {base}hugemap | ml: {base}s }}}}")),
        7 => out.push_str(&format!("{{% for a in {base}huge %}}{{{{ a.x }}}}{{{{ a.name }}}}{{% for t in a.tags %}}{{% if t %}}{{{{ t }}}}{{% endif %}}{{% endfor %}}{{% endfor %}}")),
        8 => out.push_str(&format!("{{% for k, v in {base}hugemap %}}{{{{ loop.index }}}} {{{{ k }}}}{{% with v.sub as n %}}{{{{ n.y }}}}{{% endwith %}}{{% endfor %}}")),
        9 => out.push_str(&format!("{{% if {base}huge %}}yes{{% else %}}{{{{ {base}s }}}}{{% endif %}}{{% if not {base}hugemap %}}no{{% endif %}}")),
        10 => out.push_str(&format!("{{% include \"{}\" with {} %}}", r.pick(&["i1", "i2"]), r.pick(&["box", "list.0", &FAR[..FAR.len() - 1]]))),
        11 => out.push_str("{% include \"i1\" %}"),
        12 | 13 => {
            let (v, e) = *r.pick(&[("box", "box"), ("huge", "huge"), ("list", "list"), ("s", "s"), ("w", "box.huge"), ("z", "list.2"), ("deep", "deep"), ("x", &FAR[..FAR.len() - 1]), ("x", "deep.d"), ("x", "deep?.d.0.d.0")]);
            out.push_str(&format!("{{% with {e} as {v} %}}"));
            look(r, depth - 1, out);
            out.push_str("{% endwith %}");
        }
        14 | 15 => {
            out.push_str("{% for q in list %}");
            look(r, depth - 1, out);
            out.push_str("{% if loop.last %}.{% endif %}{% endfor %}");
        }
        16 => {
            out.push_str(*r.pick(&["{% for q in box %}", "{% for q in deep.d.0.d %}", "{% for q in deep.d.0.d.0.d?.0.d.0.d %}"]));
            look(r, depth - 1, out);
            out.push_str("{% endfor %}");
        }
        _ => {
            out.push_str(&format!("{{% if {base}s %}}"));
            look(r, depth - 1, out);
            out.push_str("{% endif %}");
        }
    }
}

/// A borrowed context is not copied, whatever is done with it.
fn copies(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut src = String::new();
    for _ in 0..r.range(1, 4) {
        look(r, 2, &mut src);
        src.push_str(*r.pick(&[" ", "\n", "text"]));
    }
    if src.len() > 4000 {
        return Ok(());
    }
    if ctx.verbose {
        println!("{src}");
    }
    let mut e = upon::Engine::new();
    e.add_filter("len", |v: &Value| -> i64 {
        match v {
            Value::String(s) => s.len() as i64,
            Value::List(l) => l.len() as i64,
            Value::Map(m) => m.len() as i64,
            _ => -1,
        }
    });
    e.add_filter("l2", |a: &str, b: &str| -> i64 { (a.len() + b.len()) as i64 });
    e.add_filter("ll", |a: &[Value]| -> i64 { a.len() as i64 });
    e.add_filter("ml", |a: &Map, b: &str| -> i64 { (a.len() + b.len()) as i64 });
    e.add_formatter("nothing", |_: &mut upon::fmt::Formatter<'_>, _: &Value| Ok(()));
    e.add_template("i1", "{{ huge.3.name }}{% for a in huge %}{{ a.x }}{% endfor %}{{ s }}").unwrap();
    e.add_template("i2", "{% include \"i1\" %}{% with hugemap as h %}{{ h.k00007.x }}{% endwith %}{{ s | len }}").unwrap();
    let t = e.compile(src.clone()).map_err(|e| format!("does not compile: {e:#}"))?;
    let named = r.bool();
    let (res, held, wrote) = HUGE.with(|data| {
        let mut w = Null(0);
        let before = alloc::reset_peak();
        let g = if named {
            drop(t);
            e.add_template("t", src.clone()).unwrap();
            alloc::reset_peak();
            guard(|| e.template("t").render_from(data).to_writer(&mut w))
        } else {
            guard(|| t.render_from(&e, data).to_writer(&mut w))
        };
        let peak = alloc::peak();
        (obs::res(g).0, peak - before, w.0)
    });
    if !res.ok() {
        // Binding over a name changes what later paths mean.
        ctx.count("renders of large data that failed");
        if matches!(res, Res::Boom(_)) {
            return Err(format!("panic {}\n{src}", res.brief()));
        }
    }
    // The values are at least 50 kB each; names are copied by nobody either.
    if held > 12_000 {
        return Err(format!("{held} bytes held while rendering borrowed data ({wrote} bytes written)\n{src}"));
    }
    ctx.count("renders of large data");
    ctx.add("bytes of large data written", wrote as u64);
    ctx.max("bytes held over large data", held.max(0) as u64);
    ctx.case(&format!("copies {src}"), wrote > 0);
    Ok(())
}

/// Everything is released.
fn leaks(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let o = Opt {
        profile: Profile { err: *r.pick(&[0, 2, 10]), bad_fn: *r.pick(&[0, 10]), filters: 30, fmt: 30, ..Default::default() },
        modes: &[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn],
        resolver: 25,
        fmt: 30,
        fail: 30,
        faulty: true,
        stretch: 3,
        ..Default::default()
    };
    let (mut case, feats) = program(r, &o);
    if r.pct(15) {
        // Something that may not compile.
        let t = crate::gen::soup(r, &case.syn);
        case.templates.push(("soup".into(), t.clone()));
        case.root = Root::Anon(t);
    }
    let want = run_model(&case);
    if want.over() {
        return Ok(());
    }
    let cut = r.below(60);
    let panic_at = if r.pct(30) { Some(r.below(6)) } else { None };
    let io_fault = r.pct(40);
    let mut outcome = String::new();
    let mut life = || -> Result<i64, String> {
        let before = alloc::live();
        {
            let b = build(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
            if obs::root_of(&case, &b).is_some() {
                let cb = Cb { fail_at: case.fail_at, panic_at, quiet: true, ..Default::default() };
                let res = if io_fault {
                    render_to(&case, &b, cb, Faulty::new(When::Byte(cut), How::Simple(ErrorKind::Other))).unwrap().0
                } else {
                    render(&case, &b, cb, &case.data).unwrap().0
                };
                outcome = match &res {
                    Res::Ok => "released after success".to_string(),
                    Res::Err(e) => format!("released after {:?}", e.kind.unwrap_or(Kind::Io)),
                    Res::Boom(_) => "released after a panic".to_string(),
                };
            } else {
                outcome = "released after Syntax".to_string();
            }
        }
        funcs::take();
        Ok(alloc::live() - before)
    };
    let first = life()?;
    let second = life()?;
    let third = life()?;
    if second != 0 || third != 0 {
        return Err(format!("{outcome}: bytes not released in three lives: {first} {second} {third}\n  cut {cut} io {io_fault} panic {panic_at:?}\n{}", case.describe()));
    }
    ctx.count(&outcome);
    ctx.count("lives measured");
    ctx.feats(&feats);
    ctx.case(&format!("leaks {}{outcome}", key_of(&case)), true);
    Ok(())
}

/// Output arrives as it is produced.
fn streaming(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let o = Opt {
        profile: Profile { err: *r.pick(&[0, 0, 2]), filters: 40, fmt: 40, ..Default::default() },
        modes: &[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn],
        resolver: 30,
        fmt: 60,
        fail: 10,
        stretch: 2,
        ..Default::default()
    };
    let (mut case, feats) = program(r, &o);
    case.writer = true;
    if ctx.verbose {
        println!("{}", case.describe());
    }
    let want = run_model(&case);
    let Some(w) = &want.render else { return Ok(()) };
    if w.over_budget {
        return Ok(());
    }
    let b = build(&case).map_err(|b| format!("panic {b:?}\n{}", case.describe()))?;
    let Some((res, _, cb)) = render_to(&case, &b, Cb { fail_at: case.fail_at, ..Default::default() }, Null(0)) else { return Ok(()) };
    if let Res::Boom(b) = res {
        return Err(format!("panic {b:?}\n{}", case.describe()));
    }
    if cb.trace != w.trace {
        return Ok(()); // judged elsewhere
    }
    if let Some(k) = (0..w.marks.len()).find(|k| w.marks[*k] != cb.marks[*k]) {
        return Err(format!(
            "at callback {k} ({}) {} bytes should have been written, {} were\n{}",
            w.trace[k],
            w.marks[k],
            cb.marks[k],
            case.describe()
        ));
    }
    ctx.count("streams followed");
    ctx.add("points of output compared", w.marks.len() as u64);
    ctx.feats(&feats);
    ctx.case(&format!("stream {}", key_of(&case)), w.marks.len() > 1);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            level: "fault_enumeration",
            rule: "random programs (all contexts, resolvers, formatters that ignore errors, failing callbacks); for each, a writer failing at every write and at every byte in turn (at most 60 and 40), with 21 error kinds, system errors, zero writes and panics, lasting and transient, short and interrupted writes; accepted bytes, later writes, callbacks until the failure and the error itself compared with the rendering that does not fail; distinct by program",
            quick: 60_000,
            thorough: 1_500_000,
            run: c21,
            mins: &[("failures at a write", 200_000), ("failures at a byte", 300_000), ("writer panics", 50_000), ("rendering failures with a writer", 5_000), ("io failure before a rendering failure", 20_000), ("short writes", 100_000), ("interrupted writes", 100_000), ("standard writers", 5_000)],
            assumptions: &["flush is not judged"],
        },
        Prop {
            id: "C32",
            level: "exploration",
            rule: "by turns: a random body looped over 1100 and 4400 equal elements under a counting allocator; random ways of looking at megabytes of borrowed data; whole lives of engines, templates and renders (succeeding, failing in every way, panicking) that must leave nothing allocated; the memory that rendering to a string takes, against the sizes of source and output; random programs whose output at every callback is compared with what the model has produced by then; distinct by program",
            quick: 30_000,
            thorough: 600_000,
            run: c32,
            mins: &[("loops measured", 1_500), ("strings measured", 1_000), ("renders of large data", 2_500), ("lives measured", 6_000), ("points of output compared", 50_000)],
            assumptions:  &["memory is counted per thread by the harness's allocator, callbacks of the harness included"],
        },
    ]
}
