//! Properties decided by comparing the real crate with the reference semantics on generated
//! programs; each has its own mix of constructs and judges its own aspects.

use super::common::{run, run_case, Opt};
use super::scale::{turn, G};
use crate::check::{Ctx, Prop};
use crate::funcs::{Fmt, Func, FILTERS};
use crate::gen::Profile;
use crate::model::eval::CtxMode::*;
use crate::obs::Judge;

const ASSUME: &[&str] = &[
    "the reference semantics (harness/src/model) states the documented language correctly; it was written from the documentation and is independent of the crate's code",
    "programs, data and callbacks are drawn from the generators described in DESIGN.md; behaviour outside their reach is not observed",
];

macro_rules! mins {
    ($($k:literal: $n:expr),* $(,)?) => { &[$(($k, $n)),*] };
}

fn all(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 100, &[(G::Text, 20_000), (G::Space, 20_000), (G::Loop, 70_000), (G::Index, 70_000), (G::Huge, 1), (G::Body, 70_000), (G::Repeat, 20_000), (G::Product, 10_000), (G::Token, 70_000), (G::Delim, 300), (G::Many, 2_000), (G::Far, 70_000), (G::Chain, 300), (G::Arms, 300), (G::Out, 70_000), (G::Deep, 300), (G::Path, 300), (G::Args, 300)], Judge::all()) {
        return x;
    }
    let mut p = Profile::default();
    if ctx.rng.one_in(3) {
        p.err = 15;
        p.bad_fn = 10;
    }
    let o = Opt { profile: p, modes: &[Ref, Serde, Fn], resolver: 15, writer: 30, fmt: 20, fail: 10, ..Default::default() };
    run(ctx, &o, Judge::all())?;
    Ok(())
}

fn c08(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 500, &[(G::Index, 140_000), (G::Huge, 1), (G::Huge, 1), (G::Token, 70_000), (G::Path, 300)], Judge { loc: true, kind: true, ..Judge::result() }) {
        return x;
    }
    if let Some(x) = turn(ctx, 25, &[(G::Path, 12)], Judge { loc: true, kind: true, ..Judge::result() }) {
        return x;
    }
    let err = *ctx.rng.pick(&[0, 0, 4, 15]);
    let o = Opt {
        profile: Profile { opt: 3, err, lit: 3, filters: 8, emit: 45, with: 15, for_: 12, include: 8, comment: 0, raw: 5, ..Default::default() },
        modes: &[Ref, Serde],
        faulty: true,
        stretch: 6,
        ..Default::default()
    };
    run(ctx, &o, Judge { loc: true, kind: true, ..Judge::result() })?;
    Ok(())
}

fn c09(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 500, &[(G::Index, 140_000), (G::Huge, 1), (G::Huge, 1), (G::Path, 300)], Judge::result()) {
        return x;
    }
    if let Some(x) = turn(ctx, 25, &[(G::Path, 12)], Judge::result()) {
        return x;
    }
    let err = *ctx.rng.pick(&[0, 0, 3, 10]);
    let o = Opt {
        profile: Profile { opt: 50, err, lit: 3, filters: 10, emit: 45, if_: 14, with: 15, for_: 14, include: 8, comment: 0, raw: 5, ..Default::default() },
        modes: &[Ref, Serde, Fn],
        faulty: true,
        stretch: 0,
        ..Default::default()
    };
    run(ctx, &o, Judge::result())?;
    Ok(())
}

fn c11(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Loop, 140_000), (G::Product, 140_000), (G::Loop, 70_000), (G::Repeat, 70_000)], Judge::result()) {
        return x;
    }
    let o = Opt {
        profile: Profile { for_: 45, emit: 35, if_: 8, with: 8, include: 6, comment: 1, raw: 12, depth: 5, filters: 20, nodes: (1, 4), ..Default::default() },
        modes: &[Ref, Serde, Fn],
        budget: 40,
        stretch: 5,
        ..Default::default()
    };
    run(ctx, &o, Judge::result())?;
    Ok(())
}

fn c12(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 500, &[(G::Repeat, 70_000), (G::Deep, 500)], Judge::result()) {
        return x;
    }
    let err = *ctx.rng.pick(&[0, 0, 0, 3]);
    let o = Opt {
        profile: Profile { with: 35, for_: 20, emit: 40, include: 14, if_: 8, comment: 0, raw: 8, err, depth: 6, filters: 15, nodes: (2, 6), ..Default::default() },
        modes: &[Ref, Serde, Fn],
        faulty: true,
        ..Default::default()
    };
    run(ctx, &o, Judge::result())?;
    Ok(())
}

fn c13(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Repeat, 70_000), (G::Many, 4_000)], Judge { kind: true, user: true, ..Judge::result() }) {
        return x;
    }
    let o = Opt {
        profile: Profile { include: 45, emit: 30, with: 14, for_: 16, if_: 8, depth: 5, recur: 8, filters: 12, nodes: (1, 5), ..Default::default() },
        modes: &[Ref, Serde, Fn],
        resolver: 40,
        ..Default::default()
    };
    run(ctx, &o, Judge { loc: false, kind: true, user: true, ..Judge::result() })?;
    Ok(())
}

fn c15(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Chain, 1_000), (G::Repeat, 70_000), (G::Args, 300)], Judge { trace: true, kind: true, ..Judge::result() }) {
        return x;
    }
    let o = Opt {
        profile: Profile { filters: 80, emit: 35, if_: 14, for_: 14, with: 14, include: 8, raw: 5, comment: 0, ..Default::default() },
        modes: &[Ref, Serde, Fn],
        stretch: 4,
        fmt: 30,
        ..Default::default()
    };
    let (mut case, feats) = super::common::program(&mut ctx.rng, &o);
    // Sometimes other functions are registered under those names.
    let r = &mut ctx.rng;
    if r.pct(30) {
        for _ in 0..r.range(1, 4) {
            let k = r.below(case.funcs.len());
            match r.below(4) {
                0 => {
                    case.funcs.remove(k);
                }
                1 => case.funcs[k].1 = Func::Formatter(*r.pick(&[Fmt::Dump, Fmt::Esc, Fmt::Builtin])),
                _ => {
                    let same: Vec<_> = match case.funcs[k].1 {
                        Func::Filter(f) => FILTERS.iter().filter(|g| g.sig() == f.sig()).collect(),
                        _ => FILTERS.iter().filter(|g| g.sig().len() == 1).collect(),
                    };
                    case.funcs[k].1 = Func::Filter(**r.pick(&same));
                }
            }
        }
        ctx.count("cases with replaced functions");
    }
    if let Some((_, w, _)) = run_case(ctx, case, &feats, Judge { trace: true, kind: true, ..Judge::result() })? {
        if let Some(w) = w.render {
            let n = w.trace.iter().filter(|t| t.starts_with("F ")).count();
            ctx.add("filter calls compared", n as u64);
        }
    }
    Ok(())
}

fn c18(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Out, 140_000), (G::Out, 3_000_000)], Judge { partial: true, kind: true, trace: true, ..Judge::result() }) {
        return x;
    }
    let bad_fn = *ctx.rng.pick(&[0, 0, 6, 20]);
    let o = Opt {
        profile: Profile { fmt: 60, bad_fn, err: 1, filters: 30, emit: 55, include: 4, if_: 6, for_: 10, with: 6, raw: 14, ..Default::default() },
        modes: &[Ref, Serde, Fn],
        fmt: 50,
        writer: 60,
        faulty: true,
        ..Default::default()
    };
    if let Some((_, w, _)) = run(ctx, &o, Judge { partial: true, kind: true, trace: true, ..Judge::result() })? {
        if let Some(w) = w.render {
            let n = w.trace.iter().filter(|t| t.starts_with("M ")).count();
            ctx.add("formatter calls compared", n as u64);
        }
    }
    Ok(())
}

fn c25(ctx: &mut Ctx) -> Result<(), String> {
    if let Some(x) = turn(ctx, 1000, &[(G::Repeat, 30_000), (G::Loop, 30_000)], Judge { trace: true, ..Default::default() }) {
        return x;
    }
    let o = Opt {
        profile: Profile { filters: 60, fmt: 30, lit: 8, if_: 16, for_: 14, include: 12, ..Default::default() },
        modes: &[Fn, Fn, Fn, Ref],
        resolver: 50,
        fmt: 40,
        fail: 35,
        ..Default::default()
    };
    run(ctx, &o, Judge { trace: true, ..Default::default() })?;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "ALL",
            level: "exploration",
            rule: "every aspect of generated programs (development aid, not registered)",
            quick: 200_000,
            thorough: 10_000_000,
            run: all,
            mins: &[],
            assumptions: &[],
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "generated programs dominated by dotted paths into generated nested data, rooted in the context, with variables, loop variables and include contexts, with missing keys, out of range indexes and wrong kinds injected; output, failure, and position of the failing segment are compared with the reference semantics; distinct by sources and data, non-trivial when more than one step was evaluated",
            quick: 200_000,
            thorough: 6_000_000,
            run: c08,
            mins: mins!["construct: path": 100_000, "construct: bad segment": 5_000, "failure: Render: no such member": 2_000, "renders ok": 30_000],
            assumptions: ASSUME,
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "generated programs dominated by optional access (absent keys and indexes, further segments after an absent one, wrong kinds) on roots bound in the context, with blocks, loops, the loop object and value functions, with outer variables of the same name; output and failure are compared with the reference semantics; distinct by sources and data, non-trivial when more than one step was evaluated",
            quick: 200_000,
            thorough: 6_000_000,
            run: c09,
            mins: mins!["construct: optional absent": 50_000, "renders ok": 60_000, "failure: Render: no such member": 500],
            assumptions: ASSUME,
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "generated programs dominated by nested loops over lists and maps (empty to over a thousand items, borrowed and computed), with loop.index/first/last used inside, between and after inner loops; output and failure compared with the reference semantics; distinct by sources and data, non-trivial when more than one step was evaluated",
            quick: 200_000,
            thorough: 6_000_000,
            run: c11,
            mins: mins!["construct: for": 200_000, "construct: for map": 40_000, "renders ok": 80_000, "construct: stretched": 500],
            assumptions: ASSUME,
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "generated programs dominated by nested with and for blocks over a small pool of names that shadow each other, the context and loop, through plain includes as well; output and failure compared with the reference semantics; distinct by sources and data, non-trivial when more than one step was evaluated",
            quick: 200_000,
            thorough: 6_000_000,
            run: c12,
            mins: mins!["construct: with": 200_000, "construct: include": 30_000, "renders ok": 60_000, "failure: Render: not in scope": 500],
            assumptions: ASSUME,
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "generated sets of templates including each other plainly and with a value, inside loops, with blocks and conditionals, from the engine or through a resolver (with decoys in the engine), unknown names and recursion included; output, failure and kind compared with the reference semantics; distinct by sources and data, non-trivial when more than one step was evaluated",
            quick: 150_000,
            thorough: 5_000_000,
            run: c13,
            mins: mins!["construct: include": 200_000, "construct: include with": 60_000, "renders ok": 50_000, "failure: Render: unknown template": 300, "construct: recursive include": 1_000],
            assumptions: ASSUME,
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "generated programs dominated by filter chains in every position that takes an expression, with 27 filters of different signatures, sometimes unregistered, replaced by another function or by a formatter; output, failure and the exact sequence of calls with their arguments compared with the reference semantics; distinct by sources and data, non-trivial when more than one step was evaluated",
            quick: 200_000,
            thorough: 6_000_000,
            run: c15,
            mins: mins!["filter calls compared": 200_000, "renders ok": 25_000, "failure: Render: unknown filter": 300, "failure: Render: formatter in the middle": 50],
            assumptions: ASSUME,
        },
        Prop {
            id: "C18",
            level: "exploration",
            rule: "generated programs dominated by inline expressions with and without an explicit formatter, under the built-in and seven custom default formatters (writing by string, by character, by format arguments, nothing, or failing midway), to strings and writers; output, output before a failure, failure kind and formatter calls compared with the reference semantics; distinct by sources and data, non-trivial when more than one step was evaluated",
            quick: 200_000,
            thorough: 6_000_000,
            run: c18,
            mins: mins!["formatter calls compared": 200_000, "renders ok": 50_000, "failure: Format: unformattable": 300, "failure: Format: callback failed": 2_000],
            assumptions: ASSUME,
        },
        Prop {
            id: "C25",
            level: "exploration",
            rule: "generated programs rendered with a value function, a resolver, filters and formatters that all record their calls and arguments, failing at a chosen call in a third of the cases; the recorded sequence is compared with the one the reference semantics predicts; distinct by sources and data, non-trivial when more than one step was evaluated",
            quick: 200_000,
            thorough: 6_000_000,
            run: c25,
            mins: mins!["callback events compared": 800_000, "renders failed": 20_000, "renders ok": 40_000],
            assumptions: ASSUME,
        },
    ]
}
