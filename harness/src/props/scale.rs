//! Programs in which one dimension is very large (lengths and counts around powers of two and
//! around the sizes that occur in the code), decided by the reference semantics like any other.

use super::common::run_case;
use crate::check::Ctx;
use crate::dict;
use crate::model::eval::CtxMode;
use crate::model::syn::Syn;
use crate::obs::{Case, Judge, Root};
use crate::rng::Rng;
use crate::val::{s, Map, Value};

/// A size near a power of two, or near a product of sizes found in the code; at most `max`.
pub fn near(r: &mut Rng, max: usize) -> usize {
    for _ in 0..40 {
        let d = &dict::get().ints;
        let base = match r.below(8) {
            0 => *r.pick(d) as usize,
            1 => (*r.pick(d) as usize).saturating_mul(*r.pick(d) as usize),
            2 => return r.below(max) + 1,
            _ => {
                let top = (usize::BITS - max.leading_zeros()) as usize;
                1 << r.range(top.saturating_sub(5).max(3), top)
            }
        };
        let n = base.saturating_add(r.below(5)).saturating_sub(2);
        if n > 0 && n <= max {
            return n;
        }
    }
    max
}

#[derive(Clone, Copy, Debug)]
pub enum G {
    /// A long text between tags.
    Text,
    /// A long run of whitespace next to a trimming tag.
    Space,
    /// A loop over a long list or a large map.
    Loop,
    /// An index into a long list, or a huge index.
    Index,
    /// Huge indexes on short lists.
    Huge,
    /// Blocks with thousands of tags in their bodies, taken and not taken.
    Body,
    /// Thousands of loops, with blocks or includes one after another.
    Repeat,
    /// Loops in loops.
    Product,
    /// Long identifiers, keys, strings, comments, numbers, whitespace inside tags, delimiters.
    Token,
    /// Long delimiters.
    Delim,
    /// Many templates.
    Many,
    /// An error far into a source.
    Far,
    /// Long chains of filters.
    Chain,
    /// Many arms.
    Arms,
    /// A long value written.
    Out,
    /// Deeply nested blocks.
    Deep,
    /// Long paths into deep data.
    Path,
    /// Calls with many arguments.
    Args,
}

fn text(r: &mut Rng, n: usize) -> String {
    // Mostly ASCII with multi-byte characters around every power of two.
    let mut t = String::with_capacity(n + 4);
    let shift = r.below(4);
    while t.len() < n {
        let near = [256usize, 512, 1024, 2048, 4096].iter().any(|p| (t.len() + shift) % p + 6 > *p);
        match r.below(if near { 3 } else { 40 }) {
            0 => t.push(*r.pick(&['é', '中', '𝄞', '\u{a0}', '\u{2028}'])),
            1 => t.push(*r.pick(&['\n', ' ', '\t', '-', '"', '%', '\r'])),
            _ => t.push((b'a' + r.below(26) as u8) as char),
        }
    }
    t
}

fn list(n: usize) -> Value {
    Value::List((0..n as i64).map(Value::Integer).collect())
}

pub fn program(r: &mut Rng, g: G, big: usize) -> Case {
    let mut m = Map::new();
    let mut templates = vec![];
    let mut syn = Syn::default();
    let mut src = String::new();
    match g {
        G::Text => {
            for _ in 0..r.range(1, 3) {
                let n = near(r, big);
                src.push_str(&text(r, n));
                src.push_str(r.pick(&["{{ 1 }}", "{# c #}", "", "{% if 1 %}", "{{- 2 -}}", "{% with 1 as x %}"]));
                if src.ends_with("if 1 %}") {
                    let n = near(r, big);
                    src.push_str(&text(r, n));
                    src.push_str("{% endif %}");
                } else if src.ends_with("as x %}") {
                    let n = near(r, big);
                    src.push_str(&text(r, n));
                    src.push_str("{% endwith %}");
                }
            }
        }
        G::Space => {
            let mut sp = |r: &mut Rng| {
                let n = near(r, big);
                let mut t: String = (0..n).map(|_| *r.pick(&[' ', '\n', '\t', '\r', '\u{a0}', '\u{2003}'])).collect();
                if r.one_in(3) {
                    t.insert(0, 'x');
                }
                if r.one_in(3) {
                    t.push('y');
                }
                t
            };
            for _ in 0..r.range(1, 4) {
                src.push_str(&sp(r));
                src.push_str(r.pick(&["{{- 1 -}}", "{{- 1 }}", "{{ 1 -}}", "{#- c -#}", "{%- if 1 -%} {%- endif -%}", "{% if 1 -%} a {%- endif %}"]));
            }
            src.push_str(&sp(r));
        }
        G::Loop => {
            let n = if r.one_in(4) { big - r.below(9) } else { near(r, big) };
            let computed = *r.pick(&["", " | id"]);
            let probe = format!("{{% if q | eq: {} %}}<{{{{ loop.index }}}}>{{% endif %}}", near(r, big));
            let body = *r.pick(&[
                "{{ q }},{{ loop.index }}\n",
                "{{ loop.index }}{% if loop.last %}.{% else %},{% endif %}",
                "{% if loop.first %}[{% endif %}{{ loop.index }}{{ q }}{% if loop.last %}]{% endif %}",
            ]);
            let body = if n < 40_000 && r.bool() { probe } else { body.to_string() };
            if r.one_in(3) {
                let n = n.min(30_000);
                m.insert("big".into(), Value::Map((0..n).map(|i| (format!("k{}", crate::rng::mix(i as u64) % 1_000_000), Value::Integer(i as i64))).collect()));
                src.push_str(&format!("{{% for k, q in big{computed} %}}{{{{ k }}}}{body}{{% endfor %}}"));
            } else {
                m.insert("big".into(), list(n));
                src.push_str(&format!("{{% for q in big{computed} %}}{body}{{% endfor %}}"));
            }
        }
        G::Index => {
            let n = near(r, big);
            m.insert("big".into(), list(n));
            let computed = r.one_in(3);
            let name = if computed { "w" } else { "big" };
            if computed {
                src.push_str("{% with big | id as w %}");
            }
            for _ in 0..r.range(1, 6) {
                let i = match r.below(4) {
                    0 => n - 1,
                    1 => n,
                    2 => r.below(n),
                    _ => near(r, big),
                };
                src.push_str(&format!("{{{{ {name}{}{i} }}}},", if r.one_in(4) { "." } else { "?." }));
            }
            if computed {
                src.push_str("{% endwith %}");
            }
        }
        G::Huge => {
            let n = r.range(1, 4);
            m.insert(
                "l".into(),
                Value::List((0..n).map(|i| Value::Map(Map::from([("k".to_string(), Value::List(vec![s("in"), Value::Integer(i as i64)]))]))).collect()),
            );
            for _ in 0..r.range(1, 5) {
                let mut idx = |r: &mut Rng| -> u64 {
                    if r.one_in(4) {
                        return r.below(n + 1) as u64;
                    }
                    let k = *r.pick(&[7, 8, 15, 16, 31, 32, 33, 48, 52, 53, 62, 63]);
                    (1u64 << k).wrapping_add(r.below(2 * n + 1) as u64).wrapping_sub(n as u64)
                };
                let (a, b) = (idx(r), idx(r));
                let q = |r: &mut Rng| *r.pick(&[".", "?.", "?."]);
                let (q1, q2) = (q(r), q(r));
                src.push_str(&match r.below(4) {
                    0 => format!("{{{{ l{q1}{a} }}}}"),
                    1 => format!("{{{{ l.0.k{q2}{a} }}}}"),
                    2 => format!("{{{{ l{q1}{a}?.k{q2}{b} }}}}"),
                    _ => format!("{{% with l | id as w %}}{{% if w{q1}{a} %}}yes{{% else %}}no{{% endif %}}{{% endwith %}}"),
                });
                src.push(';');
            }
        }
        G::Body => {
            let n = near(r, big);
            let one = |r: &mut Rng| *r.pick(&["{{ x }}", "{{ x }}.", "{% if x %}{% endif %}", "{% for q in l %}{% endfor %}", "{# c #}", "{{ x }}"]);
            let unit = one(r);
            let body = unit.repeat(n);
            m.insert("x".into(), Value::Integer(7));
            m.insert("t".into(), Value::Bool(r.bool()));
            m.insert("l".into(), list(r.below(2)));
            src.push_str(&match r.below(6) {
                0 => format!("{{% if t %}}{body}{{% endif %}}end"),
                1 => format!("{{% if t %}}{body}{{% else %}}{{{{ x }}}}{{% endif %}}end"),
                2 => format!("{{% if t %}}a{{% else %}}{body}{{% endif %}}end"),
                3 => {
                    format!("{{% if not t %}}a{{% else if x %}}{body}{{% else %}}b{{% endif %}}end")
                }
                4 => format!("{{% for p in l %}}{body}{{% endfor %}}end{{{{ x }}}}"),
                _ => format!("{{% with x as y %}}{body}{{% endwith %}}{{{{ y }}}}"),
            });
        }
        G::Repeat => {
            let n = near(r, big);
            m.insert("l".into(), list(2));
            m.insert("x".into(), Value::Integer(7));
            templates.push((
                "inc".to_string(),
                r.pick(&["i", "{{ x }}", "{% for q in l %}{{ loop.index }}{% endfor %}", "{% with 1 as x %}{{ x }}{% endwith %}"]).to_string(),
            ));
            let unit = *r.pick(&[
                "{% for q in l %}{{ q }}{% endfor %}",
                "{% with 1 as x %}{% endwith %}",
                "{% include \"inc\" %}",
                "{% include \"inc\" with $ %}",
                "{{ x }}",
                "{% if x %}y{% else %}n{% endif %}",
                "{# c #}",
                "{{ x | id }}",
            ]);
            let unit = unit.replace("with $", "with x").replace("{{ q }}", r.pick(&["{{ q }}", "{{ loop.last }}", ""]));
            if r.bool() {
                src.push_str(&unit.repeat(n));
            } else {
                m.insert("big".into(), list(n));
                src.push_str(&format!("{{% for z in big %}}{unit}{{% endfor %}}"));
            }
            src.push_str("{{ x }}{{ q }}");
        }
        G::Product => {
            let (a, b) = (r.range(2, 40), near(r, big / 40));
            m.insert("a".into(), list(a));
            m.insert("b".into(), list(b));
            src.push_str(
                "{% for p in a %}{% for q in b %}{% if loop.last %}{{ loop.index }}{% endif %}{% endfor %}{{ loop.index }}{{ loop.last }},{% endfor %}",
            );
        }
        G::Token => {
            let n = near(r, big);
            m.insert("x".into(), Value::Integer(7));
            let mut word = String::from(*r.pick(&["a", "_", "é"]));
            while word.len() < n {
                word.push(*r.pick(&['a', 'b', '_', '0', 'é']));
            }
            src.push_str(&match r.below(11) {
                0 => {
                    m.insert(word.clone(), s("long name"));
                    format!("{{{{ {word} }}}}")
                }
                1 => {
                    m.insert("d".into(), Value::Map(Map::from([(word.clone(), s("long key"))])));
                    format!("{{{{ d.{word} }}}}{{{{ d?.{word}x }}}}")
                }
                2 => format!("{{% with x as {word} %}}{{{{ {word} }}}}{{% endwith %}}"),
                3 => format!("{{{{ \"{word}\" }}}}"),
                4 => format!("a{{# {word} #}}b"),
                5 => format!("{{{{ {}7 }}}}", "0".repeat(n)),
                6 => format!("{{{{ 0.{}5 }}}}", "0".repeat(n.min(300))),
                7 => {
                    let n = n.min(20_000);
                    format!("{{{{{}x{}}}}}", " ".repeat(n), r.pick(&["\t", " ", "\n"]).repeat(n))
                }
                8 => {
                    templates.push((word.clone(), "long template".into()));
                    format!("{{% include \"{word}\" %}}")
                }
                9 => format!("{{{{ \"{}\" }}}}", "\\n".repeat(n)),
                _ => format!("{{{{ {word} }}}}"),
            });
        }
        G::Delim => {
            let n = near(r, big).min(big);
            let mut d = |r: &mut Rng, c: char| {
                let k = if r.bool() { n } else { near(r, big) };
                let mut t = String::new();
                t.push(c);
                while t.len() < k.max(2) {
                    t.push(*r.pick(&['%', '<', '!', '@', c]));
                }
                t
            };
            let (a, b, c, e) = (d(r, '['), d(r, ']'), d(r, '('), d(r, ')'));
            let (f, h) = (d(r, '<'), d(r, '>'));
            syn = Syn::new(&a, &b, &c, &e, &f, &h);
            m.insert("x".into(), Value::Integer(7));
            let t = r.pick(&["", "-"]);
            src.push_str(&format!("one {a}{t} x {t}{b} two {c} if x {t}{e} three {f} four {h} {c} else {e} five {c} endif {e} {} {a} x", &a[..a.len() - 1]));
            src.push_str(&if r.bool() { format!(" {b}") } else { format!(" {}", &b[..b.len() - 1]) });
        }
        G::Many => {
            let n = near(r, big);
            for i in 0..n {
                templates.push((format!("t{i}"), format!("<{i}>")));
            }
            for _ in 0..r.range(1, 30) {
                let last = r.one_in(9) as usize;
                src.push_str(&format!("{{% include \"t{}\" %}}", r.below(n + last)));
            }
        }
        G::Far => {
            let n = near(r, big);
            let pad: String = match r.below(5) {
                0 => "\n".repeat(n),
                1 => "x".repeat(n),
                2 => "é".repeat(n),
                3 => "\r\n".repeat(n),
                _ => "{{ 1 }}\n".repeat(n.min(20_000)),
            };
            let after: String = match r.below(3) {
                0 => String::new(),
                1 => "\n".repeat(near(r, big)),
                _ => "中".repeat(near(r, big)),
            };
            let n = near(r, big);
            let word = r.pick(&["m", "é", "中_", "a0"]).repeat(n);
            let wide = match r.below(8) {
                0 => format!("{{{{ {word} }}}}"),
                1 => format!("{{{{ x.{word} }}}}"),
                2 => format!("{{{{ {}9 }}}}", r.pick(&["9", "1", "0x", "7."]).repeat(n)),
                3 => format!("{{{{ x | {word} }}}}"),
                4 => format!("{{% include \"{word}\" %}}"),
                5 => format!("{{% {word} %}}"),
                6 => format!("{{{{ x.{}9 }}}}", "9".repeat(n)),
                _ => format!("{{{{ \"{word}"),
            };
            let tag = if r.one_in(3) {
                wide.as_str()
            } else {
                *r.pick(&[
                    "{{ missing }}",
                    "{{ x.y.z }}",
                    "{{ ^ }}",
                    "{% endif %}",
                    "{{ x | nosuch }}",
                    "{% include \"no\" %}",
                    "{{ \"\\q\" }}",
                    "{{ 99999999999999999999 }}",
                    "{% if x %}",
                    "{{ x",
                ])
            };
            m.insert("x".into(), Value::Map(Map::new()));
            src.push_str(&format!("{pad}{tag}{after}"));
        }
        G::Chain => {
            let n = near(r, big);
            src.push_str("{{ 0");
            for i in 0..n {
                src.push_str(&format!(" | add: {}", i % 5));
            }
            src.push_str(" }}");
        }
        G::Arms => {
            let n = near(r, big);
            m.insert("pick".into(), Value::Integer(r.below(n + 1) as i64));
            src.push_str("{% if false %}");
            for i in 0..n {
                src.push_str(&format!("{{% else if pick | eq: {i} %}}arm {i}"));
            }
            src.push_str("{% else %}other{% endif %}");
        }
        G::Deep => {
            let n = near(r, big);
            m.insert("x".into(), Value::Integer(7));
            m.insert("l".into(), list(1));
            let same = if r.bool() { Some(r.below(4)) } else { None };
            let mut open = vec![];
            for i in 0..n {
                let k = same.unwrap_or_else(|| r.below(4));
                src.push_str(&match k {
                    0 => "{% if x %}".to_string(),
                    1 => format!("{{% for v{i} in l %}}"),
                    2 => format!("{{% with x as w{i} %}}"),
                    _ => "{% if not x %}n{% else %}".to_string(),
                });
                open.push(k);
            }
            src.push_str(&match r.below(4) {
                0 => "{{ x }}".to_string(),
                1 => format!("{{{{ v{} }}}}", r.below(n)),
                2 => format!("{{{{ w{} }}}}", r.below(n)),
                _ => "{{ loop.index }}".to_string(),
            });
            let wrong = if r.one_in(3) { r.below(n) } else { n };
            for (i, k) in open.iter().rev().enumerate() {
                let k = if i == wrong { (k + 1) % 3 } else { *k };
                if r.one_in(40) {
                    src.push('.');
                }
                src.push_str(match k {
                    1 => "{% endfor %}",
                    2 => "{% endwith %}",
                    _ => "{% endif %}",
                });
            }
            if r.one_in(8) {
                src.push_str("{% endif %}");
            }
        }
        G::Path => {
            let n = if r.bool() { r.range(3, 12) } else { near(r, big) };
            let mut v = Value::Integer(7);
            let mut segs = vec![];
            for _ in 0..n {
                if r.one_in(3) {
                    let k = r.below(3);
                    let mut l = vec![Value::None; k];
                    l.push(v);
                    v = Value::List(l);
                    segs.push(k.to_string());
                } else {
                    let k = r.pick(&["a", "b", "key", "é"]).to_string();
                    v = Value::Map(Map::from([(k.clone(), v), ("z".to_string(), Value::Bool(true))]));
                    segs.push(k);
                }
            }
            segs.reverse();
            m.insert("ps".into(), Value::List(vec![v.clone()]));
            m.insert("pm".into(), Value::Map(Map::from([("k".to_string(), v.clone())])));
            m.insert("p".into(), v);
            for _ in 0..r.range(1, 6) {
                let stop = if r.bool() { n } else { r.below(n) };
                let wrong = if r.one_in(3) { r.below(n) } else { n };
                let mut path = String::from("p");
                for (i, s) in segs.iter().enumerate().take(stop) {
                    path.push_str(if r.one_in(if i == wrong { 2 } else { 6 }) { "?." } else { "." });
                    path.push_str(match s.as_bytes()[0].is_ascii_digit() {
                        _ if i != wrong => s.as_str(),
                        true => *r.pick(&["9", "9", "9", "nope"]),
                        false => *r.pick(&["nope", "nope", "z", "9"]),
                    });
                }
                src.push_str(&match r.below(9) {
                    4 => format!("{{% for w in ps %}}{{{{ w{} | dump }}}}{{% endfor %}}", &path[1..]),
                    5 => format!("{{% for w in ps | id %}}{{% if w{} %}}yes{{% endif %}}{{% endfor %}}", &path[1..]),
                    6 => format!("{{% for k, w in pm %}}{{% for q in ps %}}{{{{ w{} | dump }}}}{{% endfor %}}{{% endfor %}}", &path[1..]),
                    7 => format!("{{% with p as w %}}{{{{ w{} | dump }}}}{{{{ ps.0{} | len }}}}{{% endwith %}}", &path[1..], &path[1..]),
                    0 => format!("{{% with {path} as w %}}{{{{ w | len }}}}{{% endwith %}}"),
                    1 => format!("{{% with p | id as w %}}{{{{ w{} | dump }}}}{{% endwith %}}", &path[1..]),
                    2 => format!("{{% if {path} %}}yes{{% else %}}no{{% endif %}}"),
                    _ => format!("{{{{ {path} | dump }}}}"),
                });
            }
        }
        G::Args => {
            m.insert("x".into(), Value::Integer(7));
            m.insert("l".into(), list(2));
            for _ in 0..r.range(1, 3) {
                let n = near(r, big);
                let mut call = format!("x | {}:", r.pick(&["id", "add", "quad", "pair", "join4", "nosuch", "len"]));
                for i in 0..n {
                    let last = i + 1 == n;
                    let space = *r.pick(&["", " ", " ", "\t", "  "]);
                    let arg = if r.one_in(40) {
                        r.pick(&["missing", "x.y", "l?.9"]).to_string()
                    } else {
                        r.pick(&["1", "x", "\"a,b\"", "true", "l.1", "-2.5"]).to_string()
                    };
                    call.push_str(&format!("{space}{arg}{}", if last { "" } else { "," }));
                }
                if r.one_in(6) {
                    call.push_str(r.pick(&[",", " 1", ",,"]));
                }
                // Mostly behind something that is not taken.
                src.push_str(&match r.below(5) {
                    0 => format!("{{{{ {call} }}}}"),
                    1 => format!("{{% if not x %}}{{{{ {call} }}}}{{% endif %}}done"),
                    2 => format!("{{% if x %}}yes{{% else if {call} %}}no{{% endif %}}"),
                    3 => format!("{{% for q in l %}}{{% if not q %}}{{% else if q | eq: 9 %}}{{{{ {call} }}}}{{% endif %}}{{% endfor %}}"),
                    _ => format!("{{% if x %}}yes{{% else %}}{{% with {call} as w %}}{{{{ w }}}}{{% endwith %}}{{% endif %}}"),
                });
            }
        }
        G::Out => {
            for k in ["v", "w"] {
                let n = near(r, big);
                m.insert(k.into(), Value::String(text(r, n)));
            }
            src.push_str("<{{ v }}>{{ w | id }}{% for q in l %}{{ v }}{% endfor %}");
            m.insert("l".into(), list(r.below(3)));
        }
    }
    let root = if r.one_in(4) {
        templates.push(("main".into(), src));
        Root::Named("main".into())
    } else {
        Root::Anon(src)
    };
    Case { syn, templates, root, writer: r.bool(), mode: if r.one_in(4) { CtxMode::Serde } else { CtxMode::Ref }, ..Case::simple("", Value::Map(m)) }
}

/// Runs a large program every `period` cases; `None` when it is not this case's turn.
pub fn turn(ctx: &mut Ctx, period: u64, kinds: &[(G, usize)], j: Judge) -> Option<Result<(), String>> {
    if ctx.idx % period != 11 % period {
        return None;
    }
    let (g, big) = kinds[(ctx.idx / period) as usize % kinds.len()];
    let case = program(&mut ctx.rng, g, big);
    ctx.count(&format!("large programs: {g:?}"));
    let n = case.sources().map(|t| t.len()).sum::<usize>();
    ctx.max("source bytes of a large program", n as u64);
    Some(run_case(ctx, case, &[], j).map(|_| ()))
}
