//! Minimal JSON writing.

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    /// Already written.
    Raw(String),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn obj<const N: usize>(xs: [(&str, J); N]) -> J {
        J::Obj(xs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn strs<T: AsRef<str>>(xs: &[T]) -> J {
        J::Arr(xs.iter().map(|x| J::s(x.as_ref())).collect())
    }
    pub fn to_string(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s
    }
    fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::Raw(s) => o.push_str(s),
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Num(f) => o.push_str(&format!("{f:.3}")),
            J::Str(s) => quote(s, o),
            J::Arr(xs) => {
                if xs.is_empty() {
                    o.push_str("[]");
                    return;
                }
                o.push_str("[\n");
                for (i, x) in xs.iter().enumerate() {
                    o.push_str(&" ".repeat(ind + 1));
                    x.write(o, ind + 1);
                    if i + 1 < xs.len() {
                        o.push(',');
                    }
                    o.push('\n');
                }
                o.push_str(&" ".repeat(ind));
                o.push(']');
            }
            J::Obj(xs) => {
                if xs.is_empty() {
                    o.push_str("{}");
                    return;
                }
                o.push_str("{\n");
                for (i, (k, x)) in xs.iter().enumerate() {
                    o.push_str(&" ".repeat(ind + 1));
                    quote(k, o);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                    if i + 1 < xs.len() {
                        o.push(',');
                    }
                    o.push('\n');
                }
                o.push_str(&" ".repeat(ind));
                o.push('}');
            }
        }
    }
}

fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
