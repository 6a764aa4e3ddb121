//! C09: writing a value as text and reading it back gives the same value.
use crate::c_value::joined;
use crate::impltree::{self, Impl};
use crate::refdoc::{self, E, K, Kind, Out, R};
use mc_engine::*;
use styx_format::{FormatOptions, format_object_braced, format_value};
use styx_tree::{Entry, Object, Payload, Scalar, ScalarKind, Sequence, Tag, Value};

fn s(t: &str) -> R {
    R::Scalar(Kind::Bare, t.to_string())
}

fn scalar(t: &str) -> Payload {
    Payload::Scalar(Scalar { text: t.to_string(), kind: ScalarKind::Bare, span: None })
}

fn tag(n: &str) -> Option<Tag> {
    Some(Tag { name: n.to_string(), span: None })
}

pub fn value(r: &R) -> Value {
    let p = match r {
        R::Unit => None,
        R::Scalar(_, t) => Some(scalar(t)),
        R::Seq(v) => Some(Payload::Sequence(Sequence { items: v.iter().map(value).collect(), span: None })),
        R::Obj(es) => Some(Payload::Object(object(es))),
        R::Tag(n, p) => {
            let mut v = value(p);
            v.tag = tag(n);
            return v;
        }
    };
    Value { tag: None, payload: p, span: None }
}

pub fn object(es: &[E]) -> Object {
    Object {
        entries: es
            .iter()
            .map(|e| Entry {
                key: match &e.key {
                    K::Unit => Value { tag: None, payload: None, span: None },
                    K::Scalar(_, t) => Value { tag: None, payload: Some(scalar(t)), span: None },
                    K::Tag(n, p) => Value { tag: tag(n), payload: p.as_ref().map(|p| scalar(&p.1)), span: None },
                },
                value: value(&e.val),
                doc_comment: e.doc.clone(),
            })
            .collect(),
        span: None,
    }
}

/// Forget how scalars are written.
pub fn plain(r: &R) -> R {
    match r {
        R::Unit => R::Unit,
        R::Scalar(_, t) => s(t),
        R::Seq(v) => R::Seq(v.iter().map(plain).collect()),
        R::Tag(n, p) => R::Tag(n.clone(), Box::new(plain(p))),
        R::Obj(es) => R::Obj(
            es.iter()
                .map(|e| E {
                    doc: e.doc.clone(),
                    key: match &e.key {
                        K::Unit => K::Unit,
                        K::Scalar(_, t) => K::Scalar(Kind::Bare, t.clone()),
                        K::Tag(n, p) => K::Tag(n.clone(), p.as_ref().map(|p| (Kind::Bare, p.1.clone()))),
                    },
                    val: plain(&e.val),
                })
                .collect(),
        ),
    }
}

fn options() -> Vec<(&'static str, FormatOptions)> {
    let d = FormatOptions::default;
    vec![
        ("default", d()),
        ("inline", d().inline()),
        ("multiline", d().multiline()),
        ("narrow", FormatOptions { max_width: 12, min_inline_width: 8, indent: "\t", ..d() }),
        ("heredoc0", FormatOptions { heredoc_line_threshold: 1, indent: "  ", ..d() }),
        ("noheredoc", FormatOptions { heredoc_line_threshold: 99, inline_object_threshold: 1, inline_sequence_threshold: 1, ..d() }),
    ]
}

/// What a text says, according to the parser and (when it decides) the reference.
fn read(text: &str) -> Result<R, String> {
    let got = match impltree::fold(&impltree::events(text)) {
        Impl::Accept(es) => R::Obj(es),
        o => return Err(format!("cannot be read back: {o:?}")),
    };
    match refdoc::parse(text) {
        Out::Accept(t) if R::Obj(t.clone()) != got => return Err(format!("the reference reads {t:?}")),
        Out::Reject(w) => return Err(format!("not a valid document: {w}")),
        _ => {}
    }
    Ok(got)
}

fn round_trip(root: &[E], opt: &(&'static str, FormatOptions), l: &mut Local) {
    l.exec(1);
    let v = Value { tag: None, payload: Some(Payload::Object(object(root))), span: None };
    let want = plain(&R::Obj(root.to_vec()));
    let text = format_value(&v, opt.1.clone());
    l.outcome(&text);
    let fail = |l: &mut Local, m: String| l.violation(viol(format!("{} {}", opt.0, show(&want)), m));
    match read(&text) {
        Err(m) => return fail(l, format!("written as {text:?}: {m}")),
        Ok(got) if plain(&got) != want => return fail(l, format!("written as {text:?}, which reads {}", show(&plain(&got)))),
        Ok(_) => {}
    }
    let again = styx_tree::parse(&text).map(|v| format_value(&v, opt.1.clone()));
    if again.as_deref().ok() != Some(&text) {
        return fail(l, format!("written as {text:?}, and after reading it back as {again:?}"));
    }
    let braced = format_object_braced(&object(root), opt.1.clone());
    match read(&format!("key {braced}\nlast 1")) {
        Ok(R::Obj(es)) if es.len() == 2 && plain(&es[0].val) == want => {}
        o => fail(l, format!("written with braces as {braced:?}, which reads {o:?}")),
    }
}

/// Compact rendering of a tree.
pub fn show(r: &R) -> String {
    match r {
        R::Unit => "@".into(),
        R::Scalar(_, t) => format!("{t:?}"),
        R::Seq(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(" ")),
        R::Tag(n, p) if **p == R::Unit => format!("@{n}"),
        R::Tag(n, p) => format!("@{n}:{}", show(p)),
        R::Obj(es) => format!(
            "{{{}}}",
            es.iter()
                .map(|e| {
                    let d = e.doc.as_ref().map(|d| format!("/{d:?}/ ")).unwrap_or_default();
                    let k = match &e.key {
                        K::Unit => "@".into(),
                        K::Scalar(_, t) => format!("{t:?}"),
                        K::Tag(n, None) => format!("@{n}"),
                        K::Tag(n, Some(p)) => format!("@{n}:{:?}", p.1),
                    };
                    format!("{d}{k} {}", show(&e.val))
                })
                .collect::<Vec<_>>()
                .join(", ")
        ),
    }
}

/// All values up to a size (one per scalar, unit, tag, container, entry).
pub struct Gen {
    pub scalars: &'static [&'static str],
    pub key_forms: u64,
    pub docs: &'static [Option<&'static str>],
    u: Vec<u64>,
    v: Vec<u64>,
    list: Vec<u64>,
    ents: Vec<u64>,
}

impl Gen {
    pub fn new(scalars: &'static [&'static str], tags: bool, key_forms: u64, docs: &'static [Option<&'static str>], max: usize) -> Self {
        let mut g = Gen { scalars, key_forms, docs, u: vec![0; max + 1], v: vec![0; max + 1], list: vec![0; max + 1], ents: vec![0; max + 1] };
        let t = tags as u64;
        for n in 1..=max {
            if n == 1 {
                g.u[1] = scalars.len() as u64 + 2;
                g.v[1] = g.u[1] + 1 + t;
            } else {
                g.u[n] = g.list[n - 1] + g.ents[n - 1];
                g.v[n] = g.u[n] + t * (g.u[n - 1] - if n == 2 { scalars.len() as u64 } else { 0 });
            }
            let (mut a, mut b) = (0, 0);
            for m in 1..=n {
                let rest = n - m;
                a += g.v[m] * if rest == 0 { 1 } else { g.list[rest] };
                b += g.kd() * g.v[m] * if rest == 0 { 1 } else { g.ents[rest] };
            }
            g.list[n] = a;
            g.ents[n] = b;
        }
        g
    }
    fn kd(&self) -> u64 {
        self.key_forms * self.docs.len() as u64
    }
    fn untagged(&self, n: usize, i: u64) -> R {
        if n == 1 {
            let k = self.scalars.len() as u64;
            return match i {
                i if i < k => s(self.scalars[i as usize]),
                i if i == k => R::Seq(vec![]),
                _ => R::Obj(vec![]),
            };
        }
        if i < self.list[n - 1] {
            let mut out = vec![];
            self.items(n - 1, i, &mut out);
            R::Seq(out)
        } else {
            R::Obj(self.entries(n - 1, i - self.list[n - 1]))
        }
    }
    fn val(&self, n: usize, mut i: u64) -> R {
        if i < self.u[n] {
            return self.untagged(n, i);
        }
        i -= self.u[n];
        if n == 1 {
            return if i == 0 { R::Unit } else { R::Tag("t".into(), Box::new(R::Unit)) };
        }
        // tagged scalars are written as a sequence of one: a recorded finding
        let skip = if n == 2 { self.scalars.len() as u64 } else { 0 };
        R::Tag("t".into(), Box::new(self.untagged(n - 1, i + skip)))
    }
    fn items(&self, n: usize, mut i: u64, out: &mut Vec<R>) {
        for m in 1..=n {
            let rest = if m == n { 1 } else { self.list[n - m] };
            if i < self.v[m] * rest {
                out.push(self.val(m, i / rest));
                if m < n {
                    self.items(n - m, i % rest, out);
                }
                return;
            }
            i -= self.v[m] * rest;
        }
        unreachable!()
    }
    pub fn entries(&self, n: usize, i: u64) -> Vec<E> {
        let mut out = vec![];
        if n > 0 {
            self.ents_into(n, i, &mut out);
        }
        out
    }
    fn ents_into(&self, n: usize, mut i: u64, out: &mut Vec<E>) {
        for m in 1..=n {
            let rest = if m == n { 1 } else { self.ents[n - m] };
            let c = self.kd() * self.v[m] * rest;
            if i < c {
                let r = i % rest;
                let mut j = i / rest;
                let kd = j % self.kd();
                j /= self.kd();
                let pos = out.len();
                let key = match kd % self.key_forms {
                    0 => K::Scalar(Kind::Bare, format!("k{pos}")),
                    1 => K::Tag(format!("k{pos}"), None),
                    2 => K::Scalar(Kind::Bare, format!("k{pos} \"")),
                    3 => K::Tag(format!("k{pos}"), Some((Kind::Bare, "p".into()))),
                    4 => K::Scalar(Kind::Bare, format!("k{pos}.x")),
                    _ => K::Scalar(Kind::Bare, format!("{pos}")),
                };
                let doc = self.docs[(kd / self.key_forms) as usize].map(|d| d.to_string());
                out.push(E { doc, key, val: self.val(m, j) });
                if m < n {
                    self.ents_into(n - m, r, out);
                }
                return;
            }
            i -= c;
        }
        unreachable!()
    }
    /// Root objects of total size `0..=max`.
    pub fn total(&self) -> u64 {
        1 + self.ents.iter().sum::<u64>()
    }
    pub fn root(&self, mut i: u64) -> Vec<E> {
        if i == 0 {
            return vec![];
        }
        i -= 1;
        for n in 1..self.ents.len() {
            if i < self.ents[n] {
                return self.entries(n, i);
            }
            i -= self.ents[n];
        }
        unreachable!()
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("reading back uses the library's parser, whose agreement with the reference is C01-C03");
    let opts = options();
    let trees = |name: &str, g: Gen, opts: &[(&'static str, FormatOptions)]| {
        let n = opts.len() as u64;
        ctx.space(
            name,
            json!({"scalars": g.scalars, "key_forms": g.key_forms, "docs": g.docs, "max_size": g.ents.len() - 1, "options": opts.iter().map(|o| o.0).collect::<Vec<_>>()}),
            g.total() * n,
            |i| format!("{name} {i}"),
            |i, l| {
                let r = g.root(i / n);
                round_trip(&r, &opts[(i % n) as usize], l);
                if i % 10007 == 500 {
                    l.sample(i, json!(show(&R::Obj(r))));
                }
            },
        );
    };
    let z = ctx.pick(0, 1);
    trees("shapes", Gen::new(&["x"], true, 1, &[None], 6 + z), &opts);
    trees("keys", Gen::new(&["x"], true, 6, &[None], 3 + z), &opts);
    trees("docs", Gen::new(&["x"], false, 1, &[None, Some("d")], 5 + z), &opts);
    trees("docs-tags", Gen::new(&["x"], true, 1, &[None, Some("d e\nf")], 4 + z), &opts);
    trees("texts", Gen::new(&["x", "a b", "m\nn\n", "m\nn\no", "\"\"\"\"", ""], true, 1, &[None], 4 + z), &opts);
    trees("texts-docs", Gen::new(&["a\nb\nc\n", "y"], false, 2, &[None, Some("d")], 4 + z), &opts);

    trees("doc-texts", Gen::new(&["x"], false, 1, &[None, Some(""), Some("a\n\nb"), Some(" d "), Some("\n"), Some("/ e")], 3 + z), &opts);
    // what was read from a document: objects may come from several dotted paths
    const ENTRIES: &[&str] = &["a.a 1", "a.b (1 2)", "a.b.c x", "/// d", "/// e\nb.a {c.d 1, c.e @}", "k 1", "b.c.d \"x y\"", "k {a.b 1, a.c 2, d 3}", "l @t{a.b 1, a.c 2}", "m ({a.b 1, a.c 2} 1)", "a.d @"];
    let q = Seqs::new(ENTRIES.len(), 0, ctx.pick(4, 5));
    let no = opts.len() as u64;
    let doc = |i: u64| {
        let mut v = vec![];
        q.decode(i / no, &mut v);
        v.iter().map(|&k| ENTRIES[k]).collect::<Vec<_>>().join("\n")
    };
    ctx.space("documents", json!({"lines": ENTRIES, "max_lines": q.max, "options": no}), q.total() * no, |i| format!("option {} {:?}", i % no, doc(i)), |i, l| {
        let src = doc(i);
        let Out::Accept(es) = refdoc::parse(&src) else { return l.class("not a document") };
        l.class("document");
        let R::Obj(want) = joined(&R::Obj(es)) else { unreachable!() };
        let opt = &opts[(i % no) as usize];
        let Ok(v) = styx_tree::parse(&src) else { return l.violation(viol(src, "cannot be read")) };
        let text = format_value(&v, opt.1.clone());
        if text != format_value(&Value { tag: None, payload: Some(Payload::Object(object(&want))), span: None }, opt.1.clone()) {
            return l.violation(viol(format!("{} {src:?}", opt.0), format!("written as {text:?}, unlike the same tree built by hand: {}", show(&R::Obj(want)))));
        }
        if let Some(o) = v.as_object()
            && format_object_braced(o, opt.1.clone()) != format_object_braced(&object(&want), opt.1.clone())
        {
            return l.violation(viol(format!("{} {src:?}", opt.0), "written in braces unlike the same tree built by hand"));
        }
        round_trip(&want, opt, l);
    });
    // a tagged scalar
    let known = [("t", "x"), ("t", "a b")];
    ctx.space("tagged-scalars", json!({"values": known}), 2, |i| format!("tagged scalar {i}"), |i, l| {
        let (t, x) = known[i as usize];
        round_trip(&[e("k", R::Tag(t.into(), Box::new(s(x))))], &opts[0], l)
    });

    // every text, in every position
    const CHARS: &[&str] = &[
        "a", " ", "\n", "\t", "\r", "\"", "\\", "#", "r", "@", "<", "<<", ">", "/", "=", "{", "}", "(", ")", ",", ".", "-", "0", "é", "\u{a0}", "\u{1}", "\u{7f}", "\u{feff}", "\u{2028}", "😀", "'", "TEXT", "\\n",
    ];
    const LINES: &[&str] = &["\n", "TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT", " ", "\t", "\r", "x", "\"#", "\""];
    let positions: &[fn(&str) -> Vec<E>] = &[
        |t| vec![e("k", s(t)), e("l", s("1"))],
        |t| vec![e("k", R::Seq(vec![s(t), s("1"), s(t)]))],
        |t| vec![e("k", R::Tag("t".into(), Box::new(R::Seq(vec![s(t)])))), e("l", R::Seq(vec![R::Tag("t".into(), Box::new(R::Obj(vec![e("k", s(t))]))), s("1")]))],
        |t| vec![e("k", R::Obj(vec![e("l", s(t)), e("m", s(t))]))],
        |t| vec![e(t, s("1")), e("zz", R::Obj(vec![e(t, R::Unit), e("zz", s(t))]))],
        |t| vec![E { doc: None, key: K::Tag("t".into(), Some((Kind::Bare, t.into()))), val: s("1") }],
    ];
    let texts = |name: &str, alphabet: &'static [&'static str], max: u32, opts: &[(&'static str, FormatOptions)]| {
        let q = Seqs::new(alphabet.len(), 0, max);
        let (np, no) = (positions.len() as u64, opts.len() as u64);
        let n = np * no;
        ctx.space(
            name,
            json!({"alphabet": alphabet, "max_length": max, "positions": np, "options": opts.iter().map(|o| o.0).collect::<Vec<_>>()}),
            q.total() * n,
            |i| format!("{name} {:?} position {} option {}", q.concat(i / n, alphabet), i % n / no, i % no),
            |i, l| {
                let t = q.concat(i / n, alphabet);
                round_trip(&positions[(i % n / no) as usize](&t), &opts[(i % no) as usize], l);
                if i % 10007 == 500 {
                    l.sample(i, json!(t));
                }
            },
        );
    };
    texts("chars", CHARS, ctx.pick(3, 4), &[opts[0].clone(), opts[4].clone(), opts[5].clone()]);
    texts("lines", LINES, ctx.pick(4, 5), &opts);
}

fn e(k: &str, v: R) -> E {
    E { doc: None, key: K::Scalar(Kind::Bare, k.into()), val: v }
}
