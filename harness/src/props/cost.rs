//! C33: what compiling and rendering cost as one dimension of the input grows.

use crate::alloc;
use crate::check::{Ctx, Prop};
use crate::rng::Rng;
use crate::val::{s, Map, Value};
use std::fmt::Write as _;
use upon::{Engine, Syntax};

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time used by this thread, in nanoseconds.
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    const THREAD_CPUTIME: i32 = 3;
    let rc = unsafe { clock_gettime(THREAD_CPUTIME, &mut t) };
    assert_eq!(rc, 0);
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    ns: u64,
    bytes: u64,
}

/// The least of `tries` measurements, each long enough to be read.
fn cost(tries: usize, f: &mut dyn FnMut()) -> Cost {
    let (t, b) = (cpu(), alloc::total());
    f();
    let first = cpu() - t;
    let bytes = alloc::total() - b;
    let reps = (1_500_000 / first.max(1)).clamp(1, 400);
    let mut best = if reps == 1 { first } else { u64::MAX };
    for _ in 0..tries {
        let t = cpu();
        for _ in 0..reps {
            f();
        }
        best = best.min((cpu() - t) / reps);
    }
    Cost { ns: best, bytes }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Ref,
    Serde,
    Fn,
    Writer,
    Resolver,
}

struct Job {
    syn: Option<[String; 6]>,
    templates: Vec<(String, String)>,
    src: String,
    ctx: Value,
    how: How,
    depth: Option<usize>,
    /// That many further functions, replaced and removed again.
    funcs: usize,
}

struct Null;

impl std::io::Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn engine<'a>(job: &'a Job) -> Result<Engine<'a>, upon::Error> {
    let mut e = match &job.syn {
        Some([a, b, c, d, f, g]) => Engine::with_syntax(Syntax::builder().expr(a, b).block(c, d).comment(f, g).build()),
        None => Engine::new(),
    };
    e.add_filter("id", |v: Value| v);
    e.add_filter("len", |v: &[Value]| v.len() as i64);
    e.add_filter("num", |v: &Value| matches!(v, Value::Integer(_)));
    e.add_filter("size", |v: &Map| v.len() as i64);
    e.add_filter("blen", |v: &str| v.len() as i64);
    e.add_filter("second", |_: i64, _: &str| 2_i64);
    e.add_filter("add", |a: i64, b: i64| a.wrapping_add(b));
    e.add_filter("fail", |_: &Value| -> Result<Value, String> { Err("failed".into()) });
    e.add_formatter("fmt", upon::fmt::default);
    for i in 0..job.funcs {
        let name = format!("f{}", i * 7919 % job.funcs);
        match i % 3 {
            0 => drop(e.add_filter(name, |v: Value| v)),
            1 => drop(e.add_formatter(name, upon::fmt::default)),
            _ => {
                e.add_formatter(name.clone(), upon::fmt::default);
                e.remove_function(&name);
                e.add_filter(name, |v: Value| v);
            }
        }
    }
    if let Some(d) = job.depth {
        e.set_max_include_depth(d);
    }
    for (name, src) in &job.templates {
        e.add_template(name.as_str(), src.as_str())?;
    }
    Ok(e)
}

fn text_of(e: &upon::Error) -> usize {
    let mut t = String::new();
    write!(t, "{e:#}").unwrap();
    t.len()
}

fn get<'a>(v: &'a Value, path: &[upon::ValueMember<'_>]) -> Option<&'a Value> {
    path.iter().try_fold(v, |v, m| match (v, m.access) {
        (Value::Map(m), upon::ValueAccess::Key(k)) => m.get(k),
        (Value::List(l), upon::ValueAccess::Index(i)) => l.get(i),
        _ => None,
    })
}

/// The costs of compiling and of rendering; whether each succeeded.
fn measure(job: &Job, tries: usize, which: Option<usize>) -> ([Option<Cost>; 2], [bool; 2], usize) {
    let mut out = [None, None];
    let mut ok = [false, false];
    let mut len = 0;
    if which != Some(1) {
        out[0] = Some(cost(tries, &mut || match engine(job).and_then(|e| e.compile(job.src.as_str()).map(|_| ())) {
            Ok(()) => ok[0] = true,
            Err(e) => len = text_of(&e),
        }));
    }
    let Ok(e) = engine(job) else { return (out, ok, len) };
    let Ok(t) = e.compile(job.src.as_str()) else { return (out, ok, len) };
    let part = e.compile("{{ n }}").ok();
    if which != Some(0) {
        out[1] = Some(cost(tries, &mut || {
            let res = match job.how {
                How::Ref => t.render_from(&e, &job.ctx).to_string(),
                How::Serde => t.render(&e, &job.ctx).to_string(),
                How::Fn => t.render_from_fn(&e, |p| get(&job.ctx, p).cloned().ok_or_else(|| "no".to_string())).to_string(),
                How::Writer => t.render_from(&e, &job.ctx).to_writer(Null).map(|_| String::new()),
                How::Resolver => t.render_from(&e, &job.ctx).with_template_fn(|_| part.as_ref().ok_or_else(|| "no".to_string())).to_string(),
            };
            match res {
                Ok(t) => {
                    ok[1] = true;
                    len = t.len();
                }
                Err(e) => len = text_of(&e),
            }
        }));
    }
    (out, ok, len)
}

fn list(n: usize) -> Value {
    Value::List((0..n).map(|i| Value::Map(Map::from([("a".to_string(), Value::Integer(i as i64))]))).collect())
}

fn map(n: usize) -> Value {
    Value::Map((0..n).map(|i| (format!("k{i}"), Value::Integer(i as i64))).collect())
}

/// The variables every program may use; `n` is the size of the large ones.
fn vars(n: usize) -> Map {
    Map::from([
        ("n".to_string(), Value::Integer(7)),
        ("u".to_string(), Value::None),
        ("t".to_string(), s("some text")),
        ("m".to_string(), Value::Map(Map::from([("a".to_string(), Value::Map(Map::from([("b".to_string(), Value::Integer(3))])))]))),
        ("l".to_string(), list(3)),
        ("big".to_string(), list(n)),
        ("bigm".to_string(), map(n)),
        ("bigs".to_string(), Value::String("é-".repeat(n))),
    ])
}

/// Pieces of a template that cost the same wherever they stand.
const SEQ: &[&str] = &[
    "text ",
    "text\n",
    "é\u{1F600} ",
    "{{ n }}",
    "{{- n -}}",
    "  {{- n -}}\n\n",
    "{{ t }}",
    "{{ m.a.b }}",
    "{{ m?.x?.y }}",
    "{{ u }}",
    "{{ l.0.a }}",
    "{{ n | add: 1 }}",
    "{{ n | add: n | id }}",
    "{{ t | blen }}",
    "{{ n | fmt }}",
    "{{ \"lit\\n\" }}",
    "{{ -12.5 }}",
    "{{ 0x1f }}",
    "{# comment #}",
    "{#- comment -#}",
    "{##}",
    "{% if n %}a{% endif %}",
    "{% if not n %}a{% else %}b{% endif %}",
    "{% if u %}a{% else if m.a %}b{% else %}c{% endif %}",
    "{% for x in l %}{{ x.a }}{% endfor %}",
    "{% for x in l | id %}{{ loop.index }}{{ loop.last }}{% endfor %}",
    "{% for k, v in m %}{{ k }}{% endfor %}",
    "{% for k, v in m | id %}{{ v.b }}{% endfor %}",
    "{% with n as w %}{{ w }}{% endwith %}",
    "{% with m | id as w %}{{ w.a.b }}{% endwith %}",
    "{% include \"p\" %}",
    "{% include \"p\" with m.a %}",
    "{% include \"q\" %}",
    "\n",
    " \t\r\n",
    "}",
    "{ ",
    "\"",
];

/// What an iteration may ask about itself.
const ITEM: &[&str] = &[
    "{{ loop.index }}",
    "{{ loop.first }}",
    "{{ loop.last }}",
    "{{ loop?.nothing }}",
    "{% if loop.last %}a{% else %}{{ loop.index }}{% endif %}",
    "{% with loop as q %}{{ q.last }}{% endwith %}",
    "{{ loop | size }}",
    "{% include \"q\" with loop %}",
    "{% with x as q %}{% if q %}b{% endif %}{% endwith %}",
    "{% if x %}a{% endif %}",
    "{{ x | id | num }}",
];

/// Uses of large data that do not need a copy of it.
const USE: &[&str] = &[
    "{{ big.0.a }}",
    "{{ big?.999999999 }}",
    "{{ bigm.k1 }}",
    "{{ bigm?.nothing }}",
    "{% if big %}a{% endif %}",
    "{% if not bigm %}a{% endif %}",
    "{% if bigs %}a{% endif %}",
    "{% with big as w %}{{ w.0.a }}{% endwith %}",
    "{% with bigm as w %}{{ w.k0 }}{% endwith %}",
    "{{ big | len }}",
    "{{ bigm | size }}",
    "{{ bigs | blen }}",
    "{{ n | second: bigs }}",
    "{% include \"b\" with bigm %}",
    "{% include \"c\" %}",
    "{{ o.0.a }}",
    "{{ om.k1 }}",
    "{% if o.0 %}a{% endif %}",
    "{% with o.0 as w %}{{ w.a }}{% endwith %}",
];

/// Units that can be repeated inside a tag: before, repeated, after.
const TAG: &[(&str, &str, &str, usize)] = &[
    ("{{ n", " | id", " }}", 4_000),
    ("{{ n", "|add:1", "}}", 4_000),
    ("{{ n", " | add: n", " }}", 4_000),
    ("{% if n", " | add: 1", " %}a{% endif %}", 4_000),
    ("{% if not u %}a{% else %}{{ n | add: n", ", 1", " }}{% endif %}", 100_000),
    ("{% if not u %}a{% else %}{{ n | add: n", ",\"str\"", " }}{% endif %}", 100_000),
    ("{% if not u %}a{% else %}{{ n | add: n", ", a.b", " }}{% endif %}", 100_000),
    ("{{ u", "?.a", " }}", 100_000),
    ("{{ m?.x", ".a", " }}", 100_000),
    ("{{ m?.x", ".0", " }}", 100_000),
    ("{{ m?.x", " . a", " }}", 100_000),
    ("{{ m?.", "a", " }}", 1_000_000),
    ("{{ m?.", "é", " }}", 1_000_000),
    ("{{ n", " ", "}}", 1_000_000),
    ("{{", "\t", "n }}", 1_000_000),
    ("{{ n |", "  ", "id }}", 1_000_000),
    ("{{ \"", "a", "\" }}", 1_000_000),
    ("{{ \"", "\\n", "\" }}", 1_000_000),
    ("{{ \"\\n", "a", "\" }}", 1_000_000),
    ("{{ \"\\\\", "é\\\"", "\" }}", 400_000),
    ("{% include \"\\t", "a b", "\" %}", 400_000),
    ("{{ \"", "\\\\", "\" }}", 1_000_000),
    ("{{ \"", "é}}", "\" }}", 500_000),
    ("{{ 1.", "25", " }}", 500_000),
    ("{{ ", "00", "1 }}", 500_000),
    ("{{ 0x", "0_", "1 }}", 500_000),
    ("{{ 0b", "1", " }}", 500_000),
    ("{{ ", "9", " }}", 500_000),
    ("{# ", "comment ", "#}", 300_000),
    ("{# ", "\n", "#}", 1_000_000),
    ("{# ", "\" | } ", "#}", 300_000),
    ("{% include \"", "x", "\" %}", 500_000),
    ("a", " ", "{{- n }}", 1_000_000),
    ("a", "\n", "{{- n }}", 1_000_000),
    ("{{ n -}}", "\n ", "b", 1_000_000),
    ("{{ n -}}", "\u{2003}", "b", 500_000),
    ("{{ n -}}", " ", "{{- n }}", 1_000_000),
    ("{{ n }}", "-", "{{ n }}", 1_000_000),
    ("{{ n }}", "{", " {{ n }}", 1),
    // These do not compile.
    ("{{ n", " ", "", 1_000_000),
    ("{{ \"", "a", "", 1_000_000),
    ("{{ n | add: ", "1 ", "}}", 300_000),
    ("{% if n %}", "{{ n }}", "", 100_000),
    ("", "line\n", "{{ ^", 300_000),
    ("", "line\n", "é{{ a.b", 300_000),
    ("{{ n }}", "line\r\n", "%}", 300_000),
    ("{# ", "line\n", "", 300_000),
    ("", "a", "{{ ^ }}", 1_000_000),
    ("{{ m.", "a", "^ }}", 500_000),
];

/// Blocks in blocks: opened, closed. The number of levels is limited by the stack.
const NEST: &[(&str, &str)] = &[
    ("{% if n %}", "{% endif %}"),
    ("{% if n %}a{{ n }}", "b{% endif %}"),
    ("{% if u %}a{% else %}", "{% endif %}"),
    ("{% if u %}a{% else if n %}", "{% else %}c{% endif %}"),
    ("{% for x in one %}", "{% endfor %}"),
    ("{% for x in one %}{{ x }}", "{{ loop.last }}{% endfor %}"),
    ("{% with 1 as w %}", "{% endwith %}"),
    ("{% with 1 as w %}{{ w }}", "{{ w }}{% endwith %}"),
    ("{% if n %}{% for x in one %}{% with x as y %}", "{% endwith %}{% endfor %}{% endif %}"),
];

/// A conditional of many branches: what comes first, each branch, the end.
const CHAIN: &[(&str, &str, &str)] = &[
    ("{% if u %}a", "{% else if u %}b", "{% endif %}"),
    ("{% if u %}a", "{% else if not n %}b", "{% else %}c{% endif %}"),
    ("{% if n %}a", "{% else if n %}b", "{% endif %}"),
    ("{% if u %}", "{% else if u | id %}{{ n }}", ""),
    ("{% if u %}a", "{% else if m.a.c %}b", "{% else %}c{% else %}"),
];

fn base(n: usize, small: bool) -> Job {
    let mut v = vars(if small { 3 } else { n });
    v.insert("empty".into(), Value::List(vec![]));
    v.insert("one".into(), Value::List(vec![Value::Integer(1)]));
    Job {
        syn: None,
        templates: [("p", "{{ b?.c }}"), ("q", "-{{ n }}-"), ("b", "{{ k0 }}"), ("c", "{{ bigm.k0 }}{{ big.0.a }}")]
            .map(|(a, b)| (a.to_string(), b.to_string()))
            .to_vec(),
        src: String::new(),
        ctx: Value::Map(v),
        how: How::Ref,
        depth: None,
        funcs: 0,
    }
}

const FAMILIES: usize = 16;

/// The program of size `n` (at most `cap`) of a family, and what it is called.
fn job(r: &mut Rng, family: usize, n: usize) -> Job {
    match family {
        // A sequence of pieces, repeated.
        0 | 1 => {
            let mut j = base(n, true);
            let many = if r.bool() { 1 } else { r.range(2, 4) };
            let unit: String = (0..many).map(|_| *r.pick(SEQ)).collect();
            j.templates[0].1 = "{{ b }}".into();
            if unit.contains("\"p\"") && !unit.contains("with m.a") {
                j.templates[0].1 = "{{ m?.z }}".into();
            }
            if unit.contains("\"p\" %}") && unit.contains("with m.a") {
                j.templates[0].1 = "p".into();
            }
            j.how = *r.pick(&[How::Ref, How::Ref, How::Serde, How::Fn, How::Writer]);
            let end = *r.pick(&["", "", "", "{{ n | fail }}", "{{ missing.x }}", "{% endif %}", "{{ t"]);
            j.src = format!("{}{end}", unit.repeat(n));
            j
        }
        // One long tag.
        2 | 3 => {
            let mut j = base(n, true);
            let k = r.below(TAG.len());
            let (a, u, z, _) = TAG[k];
            j.src = format!("{a}{}{z}", u.repeat(n));
            // The same behind many lines.
            if r.one_in(3) {
                j.src = format!("{}{}", "x\n".repeat(n / 4), j.src);
            }
            j
        }
        // Blocks in blocks.
        4 => {
            let mut j = base(n, true);
            let (a, z) = *r.pick(NEST);
            j.src = format!("{}x{}", a.repeat(n), if r.one_in(4) { z.repeat(n / 2) } else { z.repeat(n) });
            // One level, of many branches.
            if r.one_in(3) {
                let (a, u, z) = *r.pick(CHAIN);
                j.src = format!("{a}{}{z}", u.repeat(n));
                j.how = *r.pick(&[How::Ref, How::Serde, How::Fn, How::Writer]);
            }
            j
        }
        // A loop with some pieces in it.
        5 => {
            let mut j = base(n, false);
            let body: String = (0..r.range(1, 4)).map(|_| { let set = if r.bool() { SEQ } else { ITEM }; *r.pick(set) }).collect();
            let (a, z) = *r.pick(&[
                ("{% for x in big %}{{ x.a }}", "{% endfor %}"),
                ("{% for x in big | id %}{{ x.a }}", "{% endfor %}"),
                ("{% for y, x in bigm %}{{ x }}{{ y }}", "{% endfor %}"),
                ("{% for y, x in bigm %}", "{{ loop.last }}{% endfor %}"),
                ("{% for x in big %}{% for y in one %}", "{% endfor %}{{ loop.last }}{% endfor %}"),
                ("{% for y in one %}{% for w, x in bigm | id %}", "{% endfor %}{{ y }}{% endfor %}"),
                ("{% for y, x in bigm | id %}{{ x }}{{ y }}", "{% endfor %}"),
                ("{% with big | id as w %}{% for x in w %}{{ loop.first }}", "{% endfor %}{% endwith %}"),
            ]);
            j.how = *r.pick(&[How::Ref, How::Serde, How::Writer]);
            j.templates[0].1 = "p".into();
            let end = *r.pick(&["", "", "", "{{ n | fail }}", "{{ missing.x }}"]);
            j.src = format!("{a}{body}{z}{end}");
            j
        }
        // Large data looked at often.
        6 | 7 => {
            let mut j = base(n, false);
            let body: String = (0..r.range(1, 3)).map(|_| *r.pick(USE)).collect();
            j.how = *r.pick(&[How::Ref, How::Writer]);
            let rep = r.bool();
            let uses = if rep { body.repeat(n) } else { format!("{{% for x in big %}}{body}{{% endfor %}}") };
            j.src = format!("{{% with big | id as o %}}{{% with bigm | id as om %}}{uses}{{% endwith %}}{{% endwith %}}");
            j
        }
        // Templates that include each other.
        8 => {
            let mut j = base(n, true);
            let with = r.bool();
            let body = *r.pick(&["", "{{ n }}", "{% with n as w %}{{ w }}{% endwith %}", "{% for x in l %}{{ x.a }}{% endfor %}"]);
            for i in 0..n {
                let ctx = if with { " with all" } else { "" };
                j.templates.push((format!("t{i}"), format!("{body}{{% include \"t{}\"{ctx} %}}{body}", i + 1)));
            }
            j.templates.push((format!("t{n}"), r.pick(&["x", "{{ n }}", "{{ missing }}"]).to_string()));
            // Inside of itself, so that the variables are the same on every level.
            let m = if with { Value::Map(Map::from([("n".to_string(), Value::Integer(1))])) } else { Value::None };
            if let Value::Map(v) = &mut j.ctx {
                v.insert("all".into(), m);
            }
            if with {
                for t in &mut j.templates {
                    t.1 = t.1.replace(" with all", " with 5").replace("{{ n }}", "n").replace("{% with n as", "{% with 2 as").replace("in l %}", "in \"\" | id | one %}");
                    t.1 = t.1.replace("{% for x in \"\" | id | one %}{{ x.a }}{% endfor %}", "-");
                }
            }
            j.src = format!("{{% include \"t0\" %}}{body}");
            j.depth = Some(n + 5);
            j
        }
        // Many templates, each included.
        9 => {
            let mut j = base(n, true);
            let body = *r.pick(&["x", "{{ n }}", "{% if n %}a{% endif %}"]);
            for i in 0..n {
                j.templates.push((format!("name {i}"), body.to_string()));
                write!(j.src, "{{% include \"name {}\" %}}", (i * 7919) % n).unwrap();
            }
            if r.one_in(3) {
                j.how = How::Resolver;
            }
            j
        }
        // Other delimiters.
        10 => {
            let mut j = base(n, true);
            let set = r.below(5);
            let syn: [&str; 6] = match set {
                0 => ["<", ">", "<%", "%>", "<#", "#>"],
                1 => ["<<<", ">>>", "<<<%", "%>>>", "<<<#", "#>>>"],
                2 => ["$", "$$", "$%", "%$", "$#", "#$"],
                3 => ["aaab", "baaa", "aaac", "caaa", "aaad", "daaa"],
                _ => ["[-", " ]", "[%", "  %]", "[#", "   #]"],
            };
            j.syn = Some(syn.map(|x| x.to_string()));
            j.templates.clear();
            let near = *r.pick(match set {
                0 => &["- ", "text ", "%", "#"][..],
                1 => &["<<", "<< ", "a", "<"][..],
                2 => &["%", "text ", "#"][..],
                3 => &["aa", "aab", "a", "b", "c"][..],
                _ => &["[", "-", "   ", "text "][..],
            });
            let inner = *r.pick(&["n", "n | id", "m.a.b"]);
            let unit = format!("{near}{} {inner} {}", syn[0], syn[1]);
            j.src = match r.below(3) {
                0 => near.repeat(n * 4),
                1 => unit.repeat(n),
                _ => format!("{}{} {inner}{}{}", near.repeat(n), syn[0], " ".repeat(n * 4), syn[1]),
            };
            j
        }
        // Much that is skipped, often.
        12 => {
            let mut j = base(n, false);
            let unit: String = (0..r.range(1, 3)).map(|_| *r.pick(SEQ)).collect();
            let body = unit.repeat(n);
            j.templates[0].1 = "p".into();
            let skip = match r.below(5) {
                0 => format!("{{% if u %}}{body}{{% endif %}}"),
                1 => format!("{{% if n %}}{{{{ n }}}}{{% else %}}{body}{{% endif %}}"),
                2 => format!("{{% if n %}}a{{% else if u %}}{body}{{% else %}}{body}{{% endif %}}"),
                3 => format!("{{% for z in empty %}}{body}{{% endfor %}}"),
                _ => format!("{{% for z in empty | id %}}{body}{{% endfor %}}{{{{ n }}}}"),
            };
            j.how = *r.pick(&[How::Ref, How::Fn, How::Writer]);
            if j.how == How::Fn || r.bool() {
                // Walked through in the template itself.
                j.src = format!("{{% for x in big %}}{skip}{{% endfor %}}");
            } else {
                j.templates.push(("long".to_string(), skip));
                j.src = "{% for x in big %}{% include \"long\" %}{% endfor %}".into();
            }
            j
        }
        // A long history of templates added and replaced.
        13 => {
            let mut j = base(n, true);
            let names = *r.pick(&[1, 7, 1000, usize::MAX]);
            let unit = *r.pick(&["x", "{{ n }}", "{% if n %}a{% endif %}", "a {{ 1.5 | add: n }} b"]);
            for i in 0..n {
                j.templates.push((format!("n{}", (i * 7919) % n % names), unit.to_string()));
            }
            j.src = format!("{{% include \"n0\" %}}{}", r.pick(&["", "{{ n }}", "{{ missing }}"]));
            j
        }
        // Many functions, each used.
        14 => {
            let mut j = base(n, true);
            j.funcs = n;
            for i in 0..n {
                write!(j.src, "{{{{ n | f{} }}}}", (i * 6007) % n).unwrap();
            }
            j
        }
        // Long delimiters.
        15 => {
            let mut j = base(n, true);
            let unit = *r.pick(&["<", "ab", "<!-", "\u{1F600}", "aab"]);
            let long = unit.repeat(n / 4);
            let ends = match r.below(3) {
                0 => ["(", ")", "%", "/%", "#", "/#"].map(|x| format!("{long}{x}")),
                1 => ["(", ")", "%", "/%", "#", "/#"].map(|x| format!("{x}{long}")),
                _ => [format!("{long}("), ")".into(), "%".into(), format!("/%{long}"), "#".into(), "/#".into()],
            };
            j.templates.clear();
            let [a, b, c, d, ..] = &ends;
            let some = format!("{unit}{a} n {b} {c} if n {d}{unit}{c} endif {d}{}{a} n {b}", long.get(..unit.len() * (n / 5)).unwrap_or(""));
            j.src = some.repeat(r.range(1, 4));
            j.syn = Some(ends);
            j
        }
        // Long values written, nothing else.
        _ => {
            let mut j = base(n, false);
            j.src = r
                .pick(&["{{ bigs }}", "{{ bigs | id }}", "{% with bigs as w %}{{ w }}{{ w }}{% endwith %}", "{{ n }}", "{{ big.0.a }}", "{{ big | id | len }}", "{% if u %}{{ missing }}{% endif %}"])
                .to_string();
            j.how = *r.pick(&[How::Ref, How::Serde, How::Writer]);
            j
        }
    }
}

fn cap(r: &mut Rng, family: usize) -> usize {
    match family {
        0 | 1 => *r.pick(&[24_000, 24_000, 80_000]),
        2 | 3 => TAG[r.below(TAG.len())].3,
        4 => *r.pick(&[1_200, 6_000, 12_000]),
        5 => 24_000,
        6 | 7 | 12 => 12_000,
        13 => 40_000,
        8 => 10_000,
        9 => 12_000,
        10 => 60_000,
        14 => 24_000,
        15 => 16_000,
        _ => 200_000,
    }
}

/// Eight times the size: this much time or memory is more than proportional.
const TIME: u64 = 32;
const BYTES: u64 = 20;
/// Less time than this is not judged.
const FLOOR: u64 = 10_000_000;

fn c33(ctx: &mut Ctx) -> Result<(), String> {
    let family = (ctx.idx as usize) % FAMILIES;
    let rng = ctx.rng.fork();
    let cap = cap(&mut rng.clone(), family).max(64);
    let sizes = [cap / 64, cap / 8, cap];
    let make = |n: usize| job(&mut rng.clone(), family, n.max(1));
    let mut before: Option<([Option<Cost>; 2], usize)> = None;
    let mut desc = String::new();
    let mut big = 0;
    for n in sizes {
        let j = make(n);
        let (now, ok, len) = measure(&j, 3, None);
        big = big.max(j.src.len());
        if ctx.verbose {
            println!("{family} n={n} {now:?} {ok:?} source {} bytes, result {len} bytes", j.src.len());
        }
        if n == sizes[0] {
            desc = format!("family {family}, delimiters {:?}, {:?}: {}", j.syn, j.how, short(&j.src));
            ctx.count(match (ok[0], ok[1]) {
                (false, _) => "programs that do not compile",
                (_, false) => "programs that fail",
                _ => "programs that succeed",
            });
        }
        if let Some((old, m)) = &before {
            for which in 0..2 {
                let (Some(a), Some(b)) = (old[which], now[which]) else { continue };
                let what = ["compiling", "rendering"][which];
                if family == 4 && which == 1 {
                    continue; // looking up a variable walks through the blocks around it
                }
                ctx.count(&format!("{what}: steps compared"));
                ctx.max(&format!("{what}: most time for eight times the size, tenths"), if b.ns > 20_000_000 && family != 15 { b.ns * 10 / a.ns.max(1) } else { 0 });
                ctx.max(&format!("{what}: most memory for eight times the size, tenths"), if b.bytes > 4 << 20 { b.bytes * 10 / a.bytes.max(1) } else { 0 });
                if b.bytes > 4 << 20 && b.bytes > BYTES * a.bytes {
                    return Err(format!("{what} requests {} bytes of memory at size {m} and {} at size {n}\n{desc}", a.bytes, b.bytes));
                }
                // A search in tables larger than the caches takes longer for each byte.
                let tables = family == 15 && which == 0;
                if b.ns > FLOOR && b.ns > TIME * a.ns && !tables {
                    // Again, with more care, and at other times.
                    ctx.count("measured again");
                    let mut worst = u64::MAX;
                    let (mut a, mut b) = (a, b);
                    for _ in 0..3 {
                        std::thread::sleep(std::time::Duration::from_millis(150));
                        a = measure(&make(*m), 9, Some(which)).0[which].unwrap_or(a);
                        b = measure(&j, if b.ns > 2_000_000_000 { 1 } else { 5 }, Some(which)).0[which].unwrap_or(b);
                        worst = worst.min(b.ns / a.ns.max(1));
                    }
                    if worst > TIME {
                        return Err(format!("{what} takes {} us at size {m} and {} us at size {n}\n{desc}", a.ns / 1000, b.ns / 1000));
                    }
                }
            }
        }
        before = Some((now, n));
    }
    ctx.max("source bytes", big as u64);
    ctx.count(&format!("family {family}"));
    ctx.case(&desc, true);
    Ok(())
}

fn short(t: &str) -> String {
    let n = t.chars().count();
    if n <= 200 {
        return t.escape_debug().to_string();
    }
    let head: String = t.chars().take(120).collect();
    let tail: String = t.chars().skip(n - 60).collect();
    format!("{} ... {}", head.escape_debug(), tail.escape_debug())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        level: "exploration",
        rule: "sixteen families of programs with one dimension (pieces of text and tags, units inside one tag, levels, iterations, uses of large data, chains of includes, templates, code that is skipped, replaced templates, functions, lengths of delimiters, near misses of delimiters, lengths of values) at three sizes, each eight times the one before; processor time of the thread and bytes requested from the allocator compared between the sizes, compiling (and its error printed) and rendering apart; distinct by program",
        quick: 1_152,
        thorough: 12_000,
        run: c33,
        mins: &[("compiling: steps compared", 1_500), ("rendering: steps compared", 1_000), ("programs that do not compile", 30), ("programs that fail", 30)],
        assumptions: &["more than 32 times the time (at least 10 ms, confirmed by three further measurements) or 20 times the memory (at least 4 MiB) for eight times the size is taken for more than proportional", "the depth of nested blocks stays within what the stack allows"],
    }]
}
