//! Delimiters and the naive leftmost-longest search.

#[derive(Clone, Debug, PartialEq)]
pub struct Syn {
    pub expr: Option<(String, String)>,
    pub block: Option<(String, String)>,
    pub comment: Option<(String, String)>,
}

thread_local! {
    static VARIANT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// How the builder is used from now on in this thread.
pub fn set_variant(v: usize) {
    VARIANT.with(|x| x.set(v));
}

pub fn variant() -> usize {
    VARIANT.with(|x| x.get())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Expr,
    Block,
    Comment,
}

#[derive(Clone, Debug)]
pub struct Pat {
    pub kind: K,
    pub begin: bool,
    pub trim: bool,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct Hit {
    pub kind: K,
    pub begin: bool,
    pub trim: bool,
    pub start: usize,
    pub end: usize,
}

impl Default for Syn {
    fn default() -> Self {
        Syn::new("{{", "}}", "{%", "%}", "{#", "#}")
    }
}

impl Syn {
    pub fn new(a: &str, b: &str, c: &str, d: &str, e: &str, f: &str) -> Self {
        Syn {
            expr: Some((a.into(), b.into())),
            block: Some((c.into(), d.into())),
            comment: Some((e.into(), f.into())),
        }
    }

    /// Begin and end of each kind in turn.
    pub fn parts(&self) -> Vec<Option<String>> {
        [&self.expr, &self.block, &self.comment]
            .into_iter()
            .flat_map(|p| match p {
                Some((a, b)) => [Some(a.clone()), Some(b.clone())],
                None => [None, None],
            })
            .collect()
    }

    pub fn from_parts(p: Vec<Option<String>>) -> Self {
        let g = |k: usize| Some((p[k].clone()?, p[k + 1].clone()?));
        Syn { expr: g(0), block: g(2), comment: g(4) }
    }

    /// The builder is used in different ways which all mean the same: any order of the calls,
    /// delimiters set twice (the last call counts), and a builder built from before.
    pub fn to_upon(&self) -> upon::Syntax<'_> {
        let v = VARIANT.with(|v| v.get());
        let mut b = upon::Syntax::builder();
        if v & 8 != 0 {
            if self.expr.is_some() {
                b.expr("<expr", "expr>");
            }
            if self.block.is_some() {
                b.block("{{", "}}");
            }
            if self.comment.is_some() {
                b.comment("{%-", "-%}");
            }
            if v & 16 != 0 {
                drop(b.build());
            }
        }
        const ORDER: [[K; 3]; 6] = [
            [K::Expr, K::Block, K::Comment],
            [K::Expr, K::Comment, K::Block],
            [K::Block, K::Expr, K::Comment],
            [K::Block, K::Comment, K::Expr],
            [K::Comment, K::Expr, K::Block],
            [K::Comment, K::Block, K::Expr],
        ];
        for k in ORDER[(v & 7) % 6] {
            if let Some((x, y)) = self.get(k) {
                match k {
                    K::Expr => b.expr(x, y),
                    K::Block => b.block(x, y),
                    K::Comment => b.comment(x, y),
                };
            }
        }
        b.build()
    }

    pub fn get(&self, k: K) -> Option<&(String, String)> {
        match k {
            K::Expr => self.expr.as_ref(),
            K::Block => self.block.as_ref(),
            K::Comment => self.comment.as_ref(),
        }
    }

    pub fn patterns(&self) -> Vec<Pat> {
        let mut out = vec![];
        for (kind, p) in [(K::Expr, &self.expr), (K::Block, &self.block), (K::Comment, &self.comment)] {
            if let Some((b, e)) = p {
                out.push(Pat { kind, begin: true, trim: false, text: b.clone() });
                out.push(Pat { kind, begin: false, trim: false, text: e.clone() });
                out.push(Pat { kind, begin: true, trim: true, text: format!("{b}-") });
                out.push(Pat { kind, begin: false, trim: true, text: format!("-{e}") });
            }
        }
        out
    }

    pub fn describe(&self) -> String {
        let f = |x: &Option<(String, String)>| match x {
            Some((a, b)) => format!("{a:?}..{b:?}"),
            None => "-".into(),
        };
        format!("expr {} block {} comment {}", f(&self.expr), f(&self.block), f(&self.comment))
    }
}

/// The longest delimiter starting exactly at `at` (the first declared of equals).
pub fn here(pats: &[Pat], src: &str, at: usize) -> Option<Hit> {
    let rest = &src.as_bytes()[at..];
    let mut best: Option<&Pat> = None;
    for p in pats {
        if rest.starts_with(p.text.as_bytes()) && best.is_none_or(|b| p.text.len() > b.text.len()) {
            best = Some(p);
        }
    }
    best.map(|p| Hit { kind: p.kind, begin: p.begin, trim: p.trim, start: at, end: at + p.text.len() })
}

/// The first position at or after `at` where some delimiter starts.
pub fn find(pats: &[Pat], src: &str, at: usize) -> Option<Hit> {
    let b = src.as_bytes();
    (at..b.len()).find_map(|i| {
        // Cheap pre-check on the first byte.
        if pats.iter().any(|p| p.text.as_bytes()[0] == b[i]) {
            here(pats, src, i)
        } else {
            None
        }
    })
}
