//! C29: the same cases in builds of the crate with fewer features.

use super::common::{key_of, program, Opt};
use crate::check::{Ctx, Prop};
use crate::funcs::Func;
use crate::gen::{self, Profile};
use crate::model::eval::{CtxMode, Kind};
use crate::model::parse::{self, Opts};
use crate::obs::{self, compare, run_model, run_real, Boom, Case, Got, Judge, Res, Root};
use crate::val::Value;
use crate::wire;
use std::cell::RefCell;
use std::process::{Child, Command, Stdio};

const FILTERS: usize = 1;
const SERDE: usize = 2;
const UNICODE: usize = 4;

fn label(k: usize) -> String {
    let mut t = vec![];
    for (b, n) in [(FILTERS, "filters"), (SERDE, "serde"), (UNICODE, "unicode")] {
        if k & b != 0 {
            t.push(n);
        }
    }
    format!("[{}]", t.join(","))
}

thread_local! {
    static SERVERS: RefCell<Vec<Option<Child>>> = RefCell::new((0..8).map(|_| None).collect());
}

/// Runs a case in the build with these features.
fn ask(k: usize, case: &Case) -> Result<Result<Got, Boom>, String> {
    SERVERS.with(|s| {
        let mut s = s.borrow_mut();
        let c = s[k].get_or_insert_with(|| {
            let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
            Command::new(format!("{root}/harness/target-f{k}/serve/serve"))
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("harness: start a server")
        });
        let r = wire::send(c.stdin.as_mut().unwrap(), &obs::case_to_value(case)).and_then(|()| wire::receive(c.stdout.as_mut().unwrap()));
        match r {
            Ok(v) => Ok(obs::got_from_value(&v)),
            Err(_) => {
                let how = c.wait();
                s[k] = None;
                Err(format!("the build with {} died: {how:?}", label(k)))
            }
        }
    })
}

/// What has to be the same: outcome, kind, template and line of errors.
fn brief(r: &Res) -> String {
    match r {
        Res::Ok => "ok".into(),
        Res::Boom(b) => format!("PANIC {b:?}"),
        Res::Err(e) => format!("{:?} at {:?}", e.kind, e.loc.as_ref().map(|l| (&l.name, l.line, &l.text))),
    }
}

/// The columns as well, where every character counts one with all features, too.
fn columns(full: &Res, other: &Res, unicode: bool) -> Result<(), String> {
    let (Res::Err(x), Res::Err(y)) = (full, other) else { return Ok(()) };
    let (Some(x), Some(y)) = (&x.loc, &y.loc) else { return Ok(()) };
    if unicode || x.text.chars().all(|c| obs::width(c.encode_utf8(&mut [0; 4])) == 1) {
        if (x.col, x.mark_at) != (y.col, y.mark_at) {
            return Err(format!("column: {} (marked at {}) with all features, {} (marked at {})", x.col, x.mark_at, y.col, y.mark_at));
        }
        return Ok(());
    }
    // Otherwise one per character: of a text as wide as what is before it with all features.
    let mut w = 0;
    let mut may = vec![];
    for (i, c) in x.text.chars().chain([' ']).enumerate() {
        if w + 1 == x.col {
            may.push(i + 1);
        }
        w += obs::width(c.encode_utf8(&mut [0; 4]));
    }
    if may.contains(&y.col) {
        Ok(())
    } else {
        Err(format!("column: {} with all features, {}, expected {may:?}", x.col, y.col))
    }
}

fn same(a: &Got, b: &Got, unicode: bool) -> Result<(), String> {
    for (x, y) in a.adds.iter().zip(&b.adds).chain([(&a.root, &b.root)]) {
        if brief(x) != brief(y) {
            return Err(format!("compiling: {} with all features, {}", brief(x), brief(y)));
        }
        columns(x, y, unicode)?;
    }
    match (&a.render, &b.render) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            if brief(&x.res) != brief(&y.res) {
                return Err(format!("rendering: {} with all features, {}", brief(&x.res), brief(&y.res)));
            }
            columns(&x.res, &y.res, unicode)?;
            if x.out != y.out {
                return Err(format!("output: {}", obs::diff(x.out.as_deref().unwrap_or("(none)"), y.out.as_deref().unwrap_or("(none)"))));
            }
            if x.trace != y.trace {
                return Err(format!("callbacks: {:?} with all features, {:?}", x.trace, y.trace));
            }
        }
        _ => return Err("only one of the two rendered".into()),
    }
    Ok(())
}

const NAMES: &[&str] = &["na\u{ef}ve", "\u{e9}", "a\u{b7}", "\u{4e2d}", "x\u{301}", "a\u{660}", "\u{aa}", "\u{2118}x", "a\u{2bc}", "\u{d7}", "a\u{2019}", "\u{1F600}", "ab\u{ad}"];

fn c29(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let o = Opt {
        profile: Profile { err: *r.pick(&[0, 1, 5, 15]), filters: *r.pick(&[0, 0, 20, 40]), fmt: 30, ..Default::default() },
        modes: &[CtxMode::Ref, CtxMode::Serde, CtxMode::Fn],
        resolver: 15,
        fmt: 30,
        fail: 10,
        faulty: true,
        syn: 10,
        stretch: 3,
        ..Default::default()
    };
    let (mut case, feats) = program(r, &o);
    let main = |case: &mut Case, f: &mut dyn FnMut(&mut String)| match &mut case.root {
        Root::Anon(t) => f(t),
        Root::Named(n) => case.templates.iter_mut().filter(|t| t.0 == *n).for_each(|t| f(&mut t.1)),
    };
    match r.below(10) {
        0..=1 => {
            // A name that is not ASCII, somewhere.
            let n = *r.pick(NAMES);
            if let Value::Map(m) = &mut case.data {
                m.insert(n.into(), Value::List(vec![Value::Integer(1), Value::Map([(n.to_string(), Value::Bool(true))].into())]));
            }
            let (e0, e1) = case.syn.expr.clone().unwrap_or_default();
            let (b0, b1) = case.syn.block.clone().unwrap_or_default();
            let t = match r.below(8) {
                0 => format!("{e0} {n}.0 {e1}"),
                1 => format!("{e0} {n}.1.{n} {e1}"),
                2 => format!("{b0} for {n} in {n} {b1}{e0} loop.index {e1}{b0} endfor {b1}"),
                3 => format!("{b0} with 1 as {n} {b1}{e0} {n} {e1}{b0} endwith {b1}"),
                4 => format!("{e0} 1 | {n} {e1}"),
                5 => format!("{e0} \"{n}\" {e1}{n}"),
                6 => format!("{b0} if {n}?.{n} {b1}{n}{b0} endif {b1}"),
                _ => format!("{b0} include \"{n}\" with {n} {b1}"),
            };
            let front = r.bool();
            main(&mut case, &mut |s| if front { s.insert_str(0, &t) } else { s.push_str(&t) });
            ctx.count("programs with names that are not ASCII");
        }
        2 => {
            let syn = case.syn.clone();
            let t = match r.below(3) {
                0 => gen::soup(r, &syn),
                1 => gen::tag_soup(r, &syn),
                _ => gen::block_soup(r, &syn),
            };
            main(&mut case, &mut |s| *s = t.clone());
        }
        3 => {
            let syn = case.syn.clone();
            let mut rr = r.fork();
            main(&mut case, &mut |s| *s = gen::mutate(&mut rr, s, &syn));
        }
        _ => {}
    }
    if ctx.verbose {
        println!("{}", case.describe());
    }
    if run_model(&case).over() {
        return Ok(());
    }
    // Does anything depend on identifiers that are not ASCII?
    let pats = case.syn.patterns();
    let ends = |t: &str, unicode: bool| parse::parse(&pats, t, Opts { unicode }).map(|_| ()).map_err(|e| e.span);
    let ascii = case.sources().all(|t| ends(t, false) == ends(t, true));
    let mut bases: Vec<(bool, CtxMode, Got)> = vec![];
    let mut seen = 0;
    for k in 0..8 {
        let mut c = case.clone();
        if k & SERDE == 0 && c.mode == CtxMode::Serde {
            c.mode = CtxMode::Ref;
        }
        let filters = k & FILTERS != 0;
        if !filters {
            c.funcs.retain(|f| matches!(f.1, Func::Formatter(_)));
        }
        let fail = |m: String| format!("{m} with {}\n{}", label(k), c.describe());
        let got = ask(k, &c).map_err(fail)?.map_err(|b| fail(format!("panic {b:?}")))?;
        if k & UNICODE == 0 && !ascii {
            // Must be rejected where the first such identifier is; the model knows.
            let want = run_model(&Case { unicode: false, ..c.clone() });
            compare(&c, &want, &got, Judge { accept: true, outcome: true, output: true, kind: true, partial: true, trace: true, ..Default::default() }).map_err(fail)?;
            let errs = want.adds.iter().map(|a| a.as_ref().map(|_| ()).map_err(|e| e.clone())).chain([want.root.clone()]);
            let mut texts: Vec<&str> = c.templates.iter().map(|t| t.1.as_str()).collect();
            texts.push(match &c.root {
                Root::Anon(t) => t,
                _ => "",
            });
            for ((w, g), src) in errs.zip(got.adds.iter().chain([&got.root])).zip(texts) {
                if let (Err(w), Res::Err(g)) = (&w, g) {
                    let want = obs::expected_loc(src, w.span, None).line;
                    if g.kind != Some(Kind::Syntax) || g.loc.as_ref().map(|l| l.line) != Some(want) {
                        return Err(fail(format!("expected a syntax error in line {want}, observed {}", brief(&Res::Err(g.clone())))));
                    }
                }
            }
            ctx.count("rejected names that are not ASCII");
            continue;
        }
        let base = match bases.iter().find(|b| b.0 == filters && b.1 == c.mode) {
            Some(b) => &b.2,
            None => {
                let g = run_real(&c).map_err(|b| format!("panic {b:?}\n{}", c.describe()))?;
                bases.push((filters, c.mode, g));
                &bases.last().unwrap().2
            }
        };
        same(base, &got, k & UNICODE != 0).map_err(fail)?;
        seen += 1;
        if let Some(g) = &got.render {
            ctx.count(match (&g.res, filters) {
                (Res::Ok, true) => "same output with filters",
                (Res::Ok, false) => "same output without filters",
                (_, true) => "same error with filters",
                (_, false) => "same error without filters",
            });
        } else {
            ctx.count("same syntax error");
        }
    }
    ctx.add("results compared", seen);
    ctx.feats(&feats);
    ctx.case(&key_of(&case), true);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "exploration",
        rule: "random programs, sources with names that are not ASCII in every position, token soups and mutated programs, each run in eight builds of the crate (every combination of filters, serde and unicode) and compared in outcome, output, callbacks, and kind, template and line of errors; without filters with the full build that has only formatters registered; without unicode, names that are not ASCII must be rejected where the model says; distinct by program and data",
        quick: 40_000,
        thorough: 1_500_000,
        run: c29,
        mins: &[("results compared", 200_000), ("rejected names that are not ASCII", 5_000), ("same output without filters", 40_000), ("same error without filters", 40_000), ("same syntax error", 10_000)],
        assumptions: &["reasons and columns of errors may differ between builds"],
    }]
}
