//! C27: one engine, many threads.

use super::common::{key_of, program, Opt};
use crate::check::{Ctx, Prop};
use crate::funcs::{self, Cb};
use crate::gen::{self, Profile};
use crate::model::eval::CtxMode;
use crate::obs::{self, build, guard, render_with, res, Built, Case, RenderHow, Res};
use crate::rng::Rng;
use crate::val::{dump, Value};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

// ---------------------------------------------------------------------------
// Which types may be shared, found out without failing to compile
// ---------------------------------------------------------------------------

struct Probe<T: ?Sized>(PhantomData<T>);

trait Neither {
    const SYNC: bool = false;
}
trait Nor {
    const SEND: bool = false;
}
impl<T: ?Sized> Neither for Probe<T> {}
impl<T: ?Sized> Nor for Probe<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}
struct Probe2<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Nor for Probe2<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> Probe2<T> {
    const SEND: bool = true;
}

macro_rules! shared {
    ($($t:ty),* $(,)?) => { [$((stringify!($t), Probe::<$t>::SYNC, Probe2::<$t>::SEND)),*] };
}

fn assertions() -> Result<usize, String> {
    let l = shared![
        upon::Engine<'static>,
        upon::Template<'static>,
        upon::TemplateRef<'static>,
        upon::Value,
        upon::Syntax<'static>,
        upon::Error,
        upon::fmt::Error,
        upon::EngineFn,
        upon::ValueMember<'static>,
    ];
    // The probe can say no.
    assert!(!Probe::<Cell<u8>>::SYNC && !Probe2::<std::rc::Rc<u8>>::SEND);
    for (n, sync, send) in l {
        if !sync || !send {
            return Err(format!("{n}: Sync is {sync}, Send is {send}"));
        }
    }
    Ok(l.len())
}

/// Lets threads share what the type system might not.
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

// ---------------------------------------------------------------------------
// Jobs
// ---------------------------------------------------------------------------

enum Job {
    /// Program, data, how, failing callback, panicking callback.
    Render(usize, usize, RenderHow, Option<usize>, Option<usize>),
    Compile(usize, String),
    Convert(usize),
    Debug(usize),
}

#[derive(PartialEq, Clone, Debug)]
struct Outcome {
    res: Res,
    out: Option<String>,
    trace: Vec<String>,
}

struct World {
    cases: Vec<Case>,
    built: Vec<Built>,
    data: Vec<Value>,
    jobs: Vec<Job>,
}

thread_local! {
    /// The world of the running job, for callbacks that render.
    static NEST: Cell<(*const World, usize, usize)> = const { Cell::new((std::ptr::null(), 0, 0)) };
    static DEEP: Cell<usize> = const { Cell::new(0) };
}

/// A filter that renders another template of the same engine.
fn nested(name: &str) -> Result<String, String> {
    let (w, k, d) = NEST.with(|n| n.get());
    if w.is_null() || DEEP.with(|d| d.get()) >= 2 {
        return Ok("(too deep)".into());
    }
    DEEP.with(|d| d.set(d.get() + 1));
    // The world outlives every job.
    let w = unsafe { &*w };
    let r = match w.built[k].engine.get_template(name) {
        Some(t) => t.render_from(&w.data[d]).to_string().map_err(|e| e.to_string()),
        None => Err(format!("nothing called {name}")),
    };
    DEEP.with(|d| d.set(d.get() - 1));
    r
}

fn run_job(w: &World, k: usize) -> Outcome {
    match &w.jobs[k] {
        Job::Render(p, d, how, fail_at, panic_at) => {
            let (case, b) = (&w.cases[*p], &w.built[*p]);
            NEST.with(|n| n.set((w, *p, *d)));
            DEEP.with(|d| d.set(0));
            let local = BTreeMap::new();
            let local = if how.resolver { &b.local } else { &local };
            let o = match obs::root_of(case, b) {
                None => Outcome { res: b.root_res.clone(), out: None, trace: vec![] },
                Some(root) => {
                    let cb = Cb { fail_at: *fail_at, panic_at: *panic_at, ..Default::default() };
                    let (res, out, cb) = render_with(&b.engine, local, root, *how, cb, &w.data[*d]);
                    Outcome { res, out, trace: cb.trace }
                }
            };
            NEST.with(|n| n.set((std::ptr::null(), 0, 0)));
            o
        }
        Job::Compile(p, src) => {
            let e = &w.built[*p].engine;
            let (r, t) = res(guard(|| e.compile(src.as_str())));
            let out = t.as_ref().map(|t| format!("{t:?}"));
            Outcome { res: r, out, trace: vec![] }
        }
        Job::Convert(d) => {
            let (r, v) = res(guard(|| upon::to_value(obs::Ser(&w.data[*d]))));
            Outcome { res: r, out: v.map(|v| dump(&v)), trace: vec![] }
        }
        Job::Debug(p) => Outcome { res: Res::Ok, out: Some(format!("{:?}", w.built[*p].engine)), trace: vec![] },
    }
}

fn make(r: &mut Rng) -> Option<World> {
    let mut cases = vec![];
    let mut built = vec![];
    let mut data = vec![gen::context(r), gen::value(r, 3)];
    let mut jobs = vec![];
    for p in 0..2 {
        let o = Opt {
            profile: Profile { err: *r.pick(&[0, 2, 8]), bad_fn: *r.pick(&[0, 5]), filters: 40, fmt: 30, include: 16, ..Default::default() },
            modes: &[CtxMode::Ref],
            resolver: 30,
            fmt: 30,
            faulty: true,
            stretch: 2,
            budget: 40,
            ..Default::default()
        };
        let (mut case, _) = program(r, &o);
        if obs::run_model(&case).over() {
            return None;
        }
        data.push(case.data.clone());
        let names: Vec<String> = case.templates.iter().map(|t| t.0.clone()).collect();
        if !names.is_empty() && r.bool() && case.syn == Default::default() {
            let n = r.pick(&names).clone();
            let add = format!("{{{{ {} | nested | dump }}}}", gen::str_literal(r, &n));
            match &mut case.root {
                obs::Root::Anon(t) => t.push_str(&add),
                obs::Root::Named(m) => {
                    let m = m.clone();
                    case.templates.iter_mut().filter(|t| t.0 == m).for_each(|t| t.1.push_str(&add))
                }
            }
        }
        let mut b = build(&case).ok()?;
        b.engine.add_filter("nested", nested);
        for _ in 0..r.range(4, 10) {
            let how = RenderHow {
                mode: *r.pick(&[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn]),
                resolver: case.resolver,
                writer: r.bool(),
                depth: if r.one_in(4) { Some(r.below(5)) } else { None },
            };
            let d = if r.pct(70) { 2 + p } else { r.below(2 + p) };
            let fail = if r.one_in(4) { Some(r.below(6)) } else { None };
            let boom = if r.one_in(4) { Some(r.below(6)) } else { None };
            jobs.push(Job::Render(p, d, how, fail, boom));
        }
        for _ in 0..2 {
            let src = if r.bool() { gen::soup(r, &case.syn) } else { case.sources().next().unwrap_or("").to_string() };
            jobs.push(Job::Compile(p, src));
        }
        jobs.push(Job::Debug(p));
        cases.push(case);
        built.push(b);
    }
    jobs.push(Job::Convert(r.below(data.len())));
    Some(World { cases, built, data, jobs })
}

/// What a render that only reads may cost: nothing of it is proportional to this.
const STACK: usize = 64 << 20;

static RUNNING: AtomicUsize = AtomicUsize::new(0);

/// Where threads wait for each other, but not for ever.
struct Meet {
    on: AtomicBool,
    threads: usize,
    came: AtomicUsize,
}

impl Meet {
    fn wait(&self) {
        if !self.on.load(Ordering::SeqCst) {
            return;
        }
        let round = self.came.fetch_add(1, Ordering::SeqCst) / self.threads;
        let start = std::time::Instant::now();
        while self.came.load(Ordering::SeqCst) < (round + 1) * self.threads {
            // Somebody failed.
            if start.elapsed().as_secs() > 5 {
                self.on.store(false, Ordering::SeqCst);
            }
            if !self.on.load(Ordering::SeqCst) {
                return;
            }
            std::thread::yield_now();
        }
    }
}

/// Many threads at once, all of them inside a callback at the same time, deep in includes.
fn crowd(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let threads = *r.pick(&[9, 17, 33, 65, 70, 130, 140, 260]);
    let meet = Arc::new(Meet { on: AtomicBool::new(false), threads, came: AtomicUsize::new(0) });
    let limit = *r.pick(&[1, 2, 3, 8, 64]);
    let mut e = upon::Engine::new();
    e.set_max_include_depth(limit);
    let how = r.below(3);
    let m = meet.clone();
    match how {
        0 => drop(e.add_filter("meet", move |v: i64| {
            m.wait();
            v
        })),
        1 => drop(e.add_formatter("meet", move |f: &mut upon::fmt::Formatter<'_>, v: &Value| {
            m.wait();
            upon::fmt::default(f, v)
        })),
        _ => drop(e.add_filter("meet", move |v: i64| -> Result<i64, String> {
            m.wait();
            Err(format!("no {v}"))
        })),
    }
    // About as deep as is allowed.
    let depth = (limit + r.below(4)).saturating_sub(2).max(1);
    for i in 0..depth {
        let inner = if i + 1 == depth { "{{ x | meet }}".to_string() } else { format!("{{% include \"t{}\" %}}", i + 1) };
        e.add_template(format!("t{i}"), format!("<{{% for y in l %}}{{% with x as z %}}{inner}{{% endwith %}}{{% endfor %}}{{{{ x }}}}>")).map_err(|x| x.to_string())?;
    }
    let src = r.pick(&["{{ x | meet }}{% include \"t0\" %}", "{{ x }}{% include \"t0\" %}", "{% include \"t0\" with x %}{{ missing }}"]);
    let t = e.compile(*src).map_err(|x| x.to_string())?;
    let render = |t: &upon::Template<'_>, e: &upon::Engine<'_>, k: usize| {
        let data = Value::from([("x", Value::Integer(k as i64)), ("l", Value::List(vec![Value::None]))]);
        res(guard(|| t.render_from(e, &data).to_string()))
    };
    let alone: Vec<_> = (0..threads).map(|k| render(&t, &e, k)).collect();
    meet.on.store(true, Ordering::SeqCst);
    let rounds = 3;
    let shared = Force((t, e));
    let results: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (shared, alone) = (&shared, &alone);
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(s, move || {
                        let (t, e) = shared.get();
                        for _ in 0..rounds {
                            let got = render(t, e, k);
                            if got != alone[k] {
                                return Err(format!("thread {k} of {threads}, limit {limit}, depth {depth}, callback {how}:\n  alone:    {:?}\n  together: {got:?}", alone[k]));
                            }
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("a thread panicked: {}", obs::last_panic())))).collect()
    });
    for x in results {
        x?;
    }
    ctx.add("renders in a crowd", (threads * rounds) as u64);
    if meet.on.load(Ordering::SeqCst) && meet.came.load(Ordering::SeqCst) > 0 {
        ctx.max("threads inside a callback at once", threads as u64);
    }
    ctx.count("crowds");
    Ok(())
}

fn c27(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.idx % 100 == 7 {
        return crowd(ctx);
    }
    let n = assertions()?;
    ctx.add("types found shareable", n as u64);
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let Some(w) = make(r) else { return Ok(()) };
    let n = w.jobs.len();
    let alone: Vec<Outcome> = (0..n).map(|k| run_job(&w, k)).collect();
    let threads = if ctx.thorough { r.range(2, 16) } else { r.range(2, 8) };
    let rounds = if ctx.thorough { 6 } else { 3 };
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut l: Vec<usize> = (0..n * rounds).map(|k| k % n).collect();
            r.shuffle(&mut l);
            if r.one_in(3) {
                // The same jobs at the same time.
                l = (0..n * rounds).map(|k| k % n).collect();
            }
            l
        })
        .collect();
    let jitter: Vec<u64> = (0..threads).map(|_| if r.bool() { r.u64() } else { 0 }).collect();
    let barrier = Barrier::new(threads);
    let world = Force(w);
    let together = AtomicUsize::new(0);
    let results: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (order, jitter, barrier, alone, world, together) = (&orders[t], jitter[t], &barrier, &alone, &world, &together);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let w: &World = world.get();
                        funcs::jitter(jitter);
                        barrier.wait();
                        for k in order {
                            if RUNNING.fetch_add(1, Ordering::Relaxed) > 0 {
                                together.fetch_add(1, Ordering::Relaxed);
                            }
                            let got = run_job(w, *k);
                            RUNNING.fetch_sub(1, Ordering::Relaxed);
                            if got != alone[*k] {
                                return Err(format!("job {k} on thread {t}\n  alone:    {:?}\n  together: {:?}", alone[*k], got));
                            }
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("a thread panicked: {}", obs::last_panic())))).collect()
    });
    let w = world.get();
    let desc = || w.cases.iter().map(|c| c.describe()).collect::<String>();
    for x in results {
        x.map_err(|m| format!("{m}\n{}", desc()))?;
    }
    for k in 0..n {
        let got = run_job(w, k);
        if got != alone[k] {
            return Err(format!("job {k} afterwards\n  before: {:?}\n  after:  {:?}\n{}", alone[k], got, desc()));
        }
    }
    ctx.add("jobs run on threads", (n * rounds * threads) as u64);
    ctx.add("jobs started while others ran", together.load(Ordering::Relaxed) as u64);
    for o in &alone {
        ctx.count(match &o.res {
            Res::Ok => "jobs that succeed",
            Res::Err(_) => "jobs that fail",
            Res::Boom(_) => "jobs whose callback panics",
        });
        if let Res::Boom(obs::Boom::Own(m)) = &o.res {
            return Err(format!("panic {m}\n{}", desc()));
        }
    }
    ctx.add("nested renders", alone.iter().map(|o| o.out.as_deref().unwrap_or("").matches("(too deep)").count() as u64).sum());
    ctx.max("threads", threads as u64);
    ctx.case(&w.cases.iter().map(key_of).collect::<String>(), n > 4);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        level: "exploration",
        rule: "two random programs with their engines, contexts and some twenty jobs (renders of every kind, failing, panicking and nesting renders, compilations, conversions), run alone and then in random and in equal orders on two to eight threads with injected delays in the callbacks; every result compared with the one obtained alone; crowds of up to 260 threads held inside a callback at the same time; again in a build with ThreadSanitizer; distinct by programs",
        quick: 6_000,
        thorough: 40_000,
        run: c27,
        mins: &[("jobs run on threads", 700_000), ("jobs started while others ran", 300_000), ("jobs that fail", 5_000), ("jobs whose callback panics", 1_000)],
        assumptions: &["schedules are those the machine and the injected delays produce"],
    }]
}
