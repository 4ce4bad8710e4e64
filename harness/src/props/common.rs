//! Generated programs and the comparison with the reference semantics.

use crate::check::Ctx;
use crate::funcs::{self, Fmt};
use crate::dict;
use crate::gen::{self, Gen, Profile};
use crate::model::eval::CtxMode;
use crate::model::syn::Syn;
use crate::obs::{differ, Case, Expect, Got, Judge, Root};
use crate::rng::Rng;
use crate::val::{Map, Value};

pub struct Opt {
    pub profile: Profile,
    pub modes: &'static [CtxMode],
    /// Percentages.
    pub resolver: usize,
    pub writer: usize,
    pub fmt: usize,
    pub fail: usize,
    pub syn: usize,
    pub budget: usize,
    /// Keep the fault rates of the profile in every case.
    pub faulty: bool,
    /// Percentage of stretched programs (one dimension made large).
    pub stretch: usize,
}

impl Default for Opt {
    fn default() -> Self {
        Opt {
            profile: Profile::default(),
            modes: &[CtxMode::Ref, CtxMode::Serde],
            resolver: 0,
            writer: 25,
            fmt: 0,
            fail: 0,
            syn: 5,
            budget: 60,
            faulty: false,
            stretch: 3,
        }
    }
}

/// A generated program with its data and configuration.
pub fn program(r: &mut Rng, o: &Opt) -> (Case, Vec<&'static str>) {
    let mut data = gen::context(r);
    let syn = if r.pct(o.syn) { gen::clean_syntax(r) } else { Syn::default() };
    let mut p = o.profile.clone();
    // Most programs should run to the end.
    if !o.faulty && r.pct(70) {
        p.err = 0;
        p.bad_fn = 0;
    }
    // Vary the shape from case to case.
    if r.one_in(4) {
        p.depth = r.range(1, 6);
        p.nodes = (1, r.range(1, 14));
    }
    let mut g = Gen::new(r, p, syn.clone(), &data).with_budget(o.budget);
    let src = g.template();
    let mut templates = std::mem::take(&mut g.templates);
    let mut feats = std::mem::take(&mut g.feats);
    drop(g);
    let mut src = src;
    if r.pct(o.stretch) && syn == Syn::default() {
        stretch(r, o, &mut data, &mut templates, &mut src);
        feats.push("stretched");
    }
    let root = if r.bool() {
        let n = r.pick(&["main", "index.html", "ä.txt", "root"]).to_string();
        templates.push((n.clone(), src));
        Root::Named(n)
    } else {
        Root::Anon(src)
    };
    let mut case = Case {
        syn,
        templates,
        root,
        data,
        funcs: funcs::library(),
        default_fmt: if r.pct(o.fmt) { gen::any_fmt(r) } else { Fmt::Builtin },
        depth_engine: None,
        depth_render: None,
        mode: *r.pick(o.modes),
        resolver: r.pct(o.resolver),
        fail_at: None,
        writer: r.pct(o.writer),
        unicode: true,
    };
    if r.pct(o.fail) {
        case.fail_at = Some(match r.below(3) {
            0 => r.below(3),
            1 => r.below(10),
            _ => r.below(40),
        });
    }
    (case, feats)
}

pub fn key_of(case: &Case) -> String {
    let mut s = String::new();
    for t in case.sources() {
        s.push_str(t);
        s.push('\u{1f}');
    }
    s.push_str(&crate::val::dump(&case.data));
    s
}

/// Generates, runs both, compares; records what was observed.
pub fn run(ctx: &mut Ctx, o: &Opt, j: Judge) -> Result<Option<(Case, Expect, Got)>, String> {
    let (case, feats) = program(&mut ctx.rng, o);
    run_case(ctx, case, &feats, j)
}

pub fn run_case(ctx: &mut Ctx, case: Case, feats: &[&'static str], j: Judge) -> Result<Option<(Case, Expect, Got)>, String> {
    if ctx.verbose {
        println!("{}", case.describe());
    }
    let (want, got) = differ(&case, j)?;
    ctx.feats(feats);
    note(ctx, &case, &want, &got);
    Ok(Some((case, want, got)))
}

pub fn note(ctx: &mut Ctx, case: &Case, want: &Expect, got: &Got) {
    let mut nontrivial = false;
    for (a, g) in want.adds.iter().zip(&got.adds) {
        ctx.count(match (a, g.ok()) {
            (Ok(_), _) => "templates accepted",
            (Err(_), _) => "templates rejected",
        });
    }
    if want.root.is_err() {
        ctx.count("templates rejected");
        nontrivial = true;
    }
    if let (Some(w), Some(g)) = (&want.render, &got.render) {
        match (&w.res, &g.res) {
            (Ok(()), _) => {
                ctx.count("renders ok");
                ctx.add("output bytes compared", w.out.len() as u64);
            }
            (Err(e), _) => {
                ctx.count("renders failed");
                ctx.count(&format!("failure: {:?}: {}", e.kind, e.what));
            }
        }
        if w.over_budget {
            ctx.count("over budget (not judged)");
        }
        ctx.add("callback events compared", w.trace.len() as u64);
        ctx.max("evaluation steps", w.steps);
        ctx.max("active templates", w.max_active as u64);
        nontrivial |= w.steps > 1 || w.res.is_err();
    }
    ctx.case(&key_of(case), nontrivial);
}


/// Makes one dimension of the program large.
fn stretch(r: &mut Rng, o: &Opt, data: &mut Value, templates: &mut Vec<(String, String)>, src: &mut String) {
    let Value::Map(m) = data else { return };
    let filters = o.profile.filters > 0;
    match r.below(11) {
        0 => {
            let n = dict::size(r, 1500);
            m.insert("big".into(), Value::List((0..n as i64).map(Value::Integer).collect()));
            let body = *r.pick(&["{{ q }},", "{{ loop.index }}{% if loop.last %}.{% else %},{% endif %}", "{% if loop.first %}[{% endif %}{{ q }}"]);
            src.push_str(&format!("{{% for q in big %}}{body}{{% endfor %}}{{{{ big?.{} }}}}", r.below(n + 2)));
        }
        1 => {
            let n = dict::size(r, 600);
            m.insert("bigm".into(), Value::Map((0..n).map(|i| (format!("k{}", crate::rng::mix(i as u64) % 100_000), Value::Integer(i as i64))).collect()));
            src.push_str("{% for k, q in bigm %}{{ k }}={{ q }};{{ loop.index }} {% endfor %}");
        }
        2 => {
            let n = dict::size(r, 20_000);
            let t: String = (0..n).map(|_| *r.pick(&['a', ' ', '\n', 'é', '{', '中', '-'])).collect();
            m.insert("bigs".into(), Value::String(t.clone()));
            src.push_str("[{{ bigs }}]");
            src.push_str(&t.replace("{{", "{ "));
            src.push_str("{{- bigs -}}");
        }
        3 => {
            // Deep data and a long path.
            let n = dict::size(r, 300);
            let mut v = Value::Integer(7);
            let mut path = vec![];
            for i in 0..n {
                if r.bool() {
                    v = Value::List(vec![Value::None, v]);
                    path.push("1".to_string());
                } else {
                    v = Value::Map(Map::from([(format!("k{}", i % 7), v)]));
                    path.push(format!("k{}", i % 7));
                }
            }
            path.push("deep".into());
            path.reverse();
            m.insert("deep".into(), v);
            let mut t = path[0].clone();
            for p in &path[1..] {
                t.push_str(if r.one_in(10) { "?." } else { "." });
                t.push_str(p);
            }
            src.push_str(&format!("{{{{ {t} }}}}"));
        }
        4 if filters => {
            let n = dict::size(r, 150);
            let mut t = String::from("{{ 0");
            for i in 0..n {
                t.push_str(&format!(" | add: {}", i % 5));
            }
            src.push_str(&t);
            src.push_str(" }}");
        }
        5 => {
            // Deep nesting of blocks.
            let n = dict::size(r, 120);
            m.insert("one".into(), Value::List(vec![Value::Integer(1)]));
            let mut open = String::new();
            let mut close = String::new();
            for i in 0..n {
                let (a, b) = match r.below(4) {
                    0 => ("{% if one %}".to_string(), "{% endif %}"),
                    1 => ("{% if not one %}x{% else %}".to_string(), "{% endif %}"),
                    2 => (format!("{{% for v{} in one %}}", i % 9), "{% endfor %}"),
                    _ => (format!("{{% with {i} as w{} %}}", i % 9), "{% endwith %}"),
                };
                open.push_str(&a);
                close.insert_str(0, b);
            }
            src.push_str(&format!("{open}{{{{ w1?.x }}}}{close}"));
            if !src.contains(" as w1 ") {
                *src = src.replace("{{ w1?.x }}", "{{ one.0 }}");
            } else {
                *src = src.replace("{{ w1?.x }}", "{{ w1 }}");
            }
        }
        6 => {
            // A chain of includes.
            let n = dict::size(r, 63);
            for i in 0..n {
                let next = if i + 1 < n { format!("{{% include \"c{}\" %}}", i + 1) } else { "end".into() };
                templates.push((format!("c{i}"), format!("{i}({next})")));
            }
            if n > 0 {
                src.push_str("{% include \"c0\" %}");
            }
        }
        7 => {
            let n = dict::size(r, 200);
            for i in 0..n {
                src.push_str(&format!("{{% include \"many{}\" %}}", i % 37));
                if i < 37 {
                    templates.push((format!("many{i}"), format!("<{i}>")));
                }
            }
        }
        8 => {
            let n = dict::size(r, 200);
            m.insert("pick".into(), Value::Integer(r.below(n + 1) as i64));
            if filters {
                src.push_str("{% if false %}");
                for i in 0..n {
                    src.push_str(&format!("{{% else if pick | eq: {i} %}}arm {i}"));
                }
                src.push_str("{% else %}other{% endif %}");
            }
        }
        9 => {
            // Many distinct variables alive at once.
            let n = dict::size(r, 130);
            let mut close = String::new();
            for i in 0..n {
                src.push_str(&format!("{{% with {i} as v{i} %}}"));
                close.push_str("{% endwith %}");
            }
            for i in (0..n).step_by(7) {
                src.push_str(&format!("{{{{ v{i} }}}} "));
            }
            src.push_str(&close);
        }
        _ => {
            let n = dict::size(r, 400);
            for i in 0..n {
                src.push_str(&format!("{{{{ {i} }}}}{}", r.pick(&["", " ", "\n", "{# c #}"])));
            }
        }
    }
}
