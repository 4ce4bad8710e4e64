//! Inputs that may take the whole process down; run in a subprocess on an ordinary stack.

pub const COMPILE: &[&str] = &["nested-if", "nested-for", "nested-with", "else-if-chain", "filter-chain", "path-chain", "sibling-tags", "long-string", "nested-if:2000", "nested-for:2000", "nested-with:2000", "else-if-chain:2000"];

/// The same for rendering.
pub const RENDER: &[&str] = &[
    "render-nested-if:2000",
    "render-nested-for:2000",
    "render-nested-with:2000",
    "render-else-if-chain:2000",
    "render-filter-chain:4000",
    "render-argument-filters:3000",
    "render-path-chain:2000",
    "render-include-default-limit:100",
    "render-include-chain:1000",
    "render-include-recursion:2000",
    "render-include-with-recursion:2000",
    "render-siblings:100000",
    "render-long-loop:1000000",
    "render-error-in-long-line:1000000",
];

fn render(what: &str, n: usize) -> i32 {
    use upon::Value;
    let mut e = upon::Engine::new();
    e.add_filter("f", |v: Value| v);
    e.add_filter("g", |v: Value, _: Value| v);
    let mut data = std::collections::BTreeMap::from([("a".to_string(), Value::List(vec![Value::Integer(1)]))]);
    let mut want = Some(String::new());
    let src = match what {
        "render-nested-if" => {
            want = Some("x".into());
            "{% if a %}".repeat(n) + "x" + &"{% endif %}".repeat(n)
        }
        "render-nested-for" => {
            want = Some("y".repeat(n));
            (0..n).map(|i| format!("{{% for v{i} in a %}}y")).collect::<String>() + &"{% endfor %}".repeat(n)
        }
        "render-nested-with" => {
            want = Some("1".into());
            "{% with a as a %}".repeat(n) + "{{ a.0 }}" + &"{% endwith %}".repeat(n)
        }
        "render-else-if-chain" => {
            want = Some("end".into());
            "{% if not a %}".to_string() + &"{% else if not a %}x".repeat(n) + "{% else %}end{% endif %}"
        }
        "render-filter-chain" => {
            want = Some("1".into());
            "{{ a.0".to_string() + &" | f".repeat(n) + " }}"
        }
        "render-argument-filters" => {
            want = Some("1".into());
            "{{ a.0".to_string() + &" | g: a".repeat(n) + " }}"
        }
        "render-path-chain" => {
            let mut v = Value::Integer(7);
            for _ in 0..n {
                v = Value::from([("b", v)]);
            }
            data.insert("p".into(), v);
            want = Some("7".into());
            "{{ p".to_string() + &".b".repeat(n) + " }}"
        }
        "render-include-default-limit" => {
            want = None;
            e.add_template("t", "{% include \"t\" %}").unwrap();
            "{% include \"t\" %}".into()
        }
        "render-include-chain" => {
            e.set_max_include_depth(n + 2);
            for i in 0..n {
                e.add_template(format!("t{i}"), format!("{{% include \"t{}\" %}}", i + 1)).unwrap();
            }
            e.add_template(format!("t{n}"), "end").unwrap();
            want = Some("end".into());
            "{% include \"t0\" %}".into()
        }
        "render-include-recursion" => {
            want = None;
            e.set_max_include_depth(n);
            e.add_template("t", "{% for x in a %}{% include \"t\" %}{% endfor %}").unwrap();
            "{% include \"t\" %}".into()
        }
        "render-include-with-recursion" => {
            want = None;
            e.set_max_include_depth(n);
            e.add_template("t", "{% include \"t\" with a %}").unwrap();
            "{% include \"t\" with a %}".into()
        }
        "render-siblings" => {
            want = Some("1".repeat(n));
            "{% if a %}{{ a.0 }}{% endif %}".repeat(n)
        }
        "render-long-loop" => {
            data.insert("l".into(), Value::List(vec![Value::None; n]));
            want = Some("x".repeat(n));
            "{% for v in l %}x{% endfor %}".into()
        }
        "render-error-in-long-line" => {
            want = None;
            "\u{4e2d}".repeat(n) + "{{ nope }}" + &"z".repeat(n)
        }
        _ => return 2,
    };
    let data = Value::Map(data);
    let t = match e.compile(src) {
        Ok(t) => t,
        Err(err) => {
            println!("{err}");
            return 3;
        }
    };
    let got = t.render_from(&e, &data).to_string();
    if let Err(err) = &got {
        let _ = format!("{err} {err:#} {err:?}");
    }
    if got.ok() == want {
        0
    } else {
        4
    }
}

fn race() -> i32 {
    static mut X: u64 = 0;
    let t: Vec<_> = (0..4)
        .map(|k| {
            std::thread::spawn(move || {
                for _ in 0..10_000 {
                    unsafe { X = X.wrapping_mul(3) + k };
                }
            })
        })
        .collect();
    t.into_iter().for_each(|t| t.join().unwrap());
    0
}

/// Runs on the main thread (8 MB stack by default).
pub fn main(what: &str) -> i32 {
    // A number after the kind gives the depth.
    let (what, n) = match what.split_once(':') {
        Some((w, n)) => (w, n.parse().unwrap()),
        None => (what, 100_000),
    };
    if what == "race" {
        return race();
    }
    if what.starts_with("render-") {
        return render(what, n);
    }
    let e = upon::Engine::new();
    let src = match what {
        "nested-if" => "{% if a %}".repeat(n) + &"{% endif %}".repeat(n),
        "nested-for" => "{% for a in a %}".repeat(n) + &"{% endfor %}".repeat(n),
        "nested-with" => "{% with a as a %}".repeat(n) + &"{% endwith %}".repeat(n),
        "else-if-chain" => "{% if a %}".to_string() + &"{% else if a %}".repeat(n) + "{% endif %}",
        // Inside one tag compilation takes quadratic time, so fewer.
        "filter-chain" => "{{ a".to_string() + &"|f".repeat(20_000) + "}}",
        "path-chain" => "{{ a".to_string() + &".b".repeat(20_000) + "}}",
        "sibling-tags" => "{% if a %}{{ b }}{% endif %}".repeat(n),
        "long-string" => format!("{{{{ \"{}\" }}}}", "x".repeat(3_000_000)),
        _ => return 2,
    };
    match e.compile(src) {
        Ok(t) => {
            drop(t);
            0
        }
        Err(err) => {
            let _ = format!("{err} {err:#} {err:?}");
            0
        }
    }
}
