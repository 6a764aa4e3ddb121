//! C12: schema validation gives the verdict the schema reference prescribes, at the right places,
//! deterministically, and terminates.
//!
//! Schemas and documents are generated as ASTs, rendered to text, and handed to the real code
//! (`facet_styx::from_str::<SchemaFile>`, `styx_tree::parse`, `validate`). The verdict is compared with a
//! three-valued reference validator written from docs/content/reference/spec/schema.md; what the
//! reference leaves open is `unknown` and only checked for determinism and termination.
use facet_styx::SchemaFile;
use mc_engine::*;
use serde_json::json;
use std::collections::BTreeSet;

/// A document value.
#[derive(Clone, Debug)]
pub enum V {
    S(&'static str),
    Str(String),
    Unit,
    Tag(&'static str, Option<Box<V>>),
    Seq(Vec<V>),
    Obj(Vec<(K, V)>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    N(&'static str),
    Unit,
}

/// A schema.
#[derive(Clone, Debug)]
pub enum S {
    Str,
    StrLen(Option<usize>, Option<usize>),
    Int(Option<i64>, Option<i64>),
    Float(Option<&'static str>, Option<&'static str>),
    Bool,
    Unit,
    Any,
    UnitLit,
    /// key `N(name)`, `Unit` (catch-all `@`)
    Obj(Vec<(F, S)>),
    Seq(Box<S>),
    Tuple(Vec<S>),
    Map(Option<Box<S>>, Box<S>),
    Union(Vec<S>),
    Opt(Box<S>),
    Enum(Vec<(&'static str, S)>),
    OneOf(Box<S>, Vec<&'static str>),
    Flatten(Box<S>),
    Default(&'static str, Box<S>),
    Depr(Box<S>),
    Ref(&'static str),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    N(&'static str),
    /// `@`
    Rest,
    /// `@string`
    RestString,
}

fn lit(s: &str) -> String {
    let bare = !s.is_empty()
        && s.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '+' | '.'));
    if bare { s.to_string() } else { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")) }
}
fn keylit(s: &str) -> String {
    if s.contains('.') { format!("\"{s}\"") } else { lit(s) }
}

impl V {
    pub fn text(&self) -> String {
        match self {
            V::S(s) => lit(s),
            V::Str(s) => lit(s),
            V::Unit => "@".into(),
            V::Tag(n, None) => format!("@{n}"),
            V::Tag(n, Some(p)) => match &**p {
                V::S(s) => format!("@{n}\"{s}\""),
                V::Unit => format!("@{n}@"),
                p => format!("@{n}{}", p.text()),
            },
            V::Seq(v) => format!("({})", v.iter().map(|v| v.text()).collect::<Vec<_>>().join(" ")),
            V::Obj(e) => format!("{{{}}}", Self::entries(e, ", ")),
        }
    }
    fn entries(e: &[(K, V)], sep: &str) -> String {
        e.iter()
            .map(|(k, v)| {
                let k = match k {
                    K::N(n) => keylit(n),
                    K::Unit => "@".into(),
                };
                format!("{k} {}", v.text())
            })
            .collect::<Vec<_>>()
            .join(sep)
    }
    pub fn doc(&self) -> String {
        match self {
            V::Obj(e) => Self::entries(e, "\n"),
            v => panic!("not a document: {v:?}"),
        }
    }
    /// The same document with dotted paths instead of nested objects, if it can be written so.
    fn dotted(&self) -> Option<String> {
        fn paths(v: &V, prefix: &str, out: &mut Vec<String>) -> Option<bool> {
            let V::Obj(es) = v else { return None };
            let mut any = false;
            for (k, v) in es {
                let K::N(n) = k else { return None };
                if n.is_empty() || !n.chars().all(|c| c.is_ascii_alphanumeric()) {
                    return None;
                }
                let path = format!("{prefix}{n}");
                let len = out.len();
                match v {
                    V::Obj(inner) if !inner.is_empty() && paths(v, &format!("{path}."), out).is_some() => any = true,
                    _ => {
                        out.truncate(len);
                        let e = V::entries(&[(*k, v.clone())], "\n");
                        out.push(format!("{prefix}{e}"));
                    }
                }
            }
            Some(any)
        }
        let mut out = vec![];
        paths(self, "", &mut out)?.then(|| out.join("\n"))
    }
    fn scalar(&self) -> Option<&str> {
        match self {
            V::S(s) => Some(s),
            V::Str(s) => Some(s),
            _ => None,
        }
    }
}

impl S {
    pub fn text(&self) -> String {
        fn opts(parts: Vec<String>) -> String {
            if parts.is_empty() { String::new() } else { format!("{{{}}}", parts.join(", ")) }
        }
        fn many(v: &[S]) -> String {
            v.iter().map(|s| s.text()).collect::<Vec<_>>().join(" ")
        }
        match self {
            S::Str => "@string".into(),
            S::StrLen(a, b) => format!(
                "@string{}",
                opts([a.map(|a| format!("minLen {a}")), b.map(|b| format!("maxLen {b}"))].into_iter().flatten().collect())
            ),
            S::Int(a, b) => format!(
                "@int{}",
                opts([a.map(|a| format!("min {a}")), b.map(|b| format!("max {b}"))].into_iter().flatten().collect())
            ),
            S::Float(a, b) => format!(
                "@float{}",
                opts([a.map(|a| format!("min {a}")), b.map(|b| format!("max {b}"))].into_iter().flatten().collect())
            ),
            S::Bool => "@bool".into(),
            S::Unit => "@unit".into(),
            S::Any => "@any".into(),
            S::UnitLit => "@".into(),
            S::Obj(f) => format!(
                "@object{{{}}}",
                f.iter()
                    .map(|(k, s)| {
                        let k = match k {
                            F::N(n) => keylit(n),
                            F::Rest => "@".into(),
                            F::RestString => "@string".into(),
                        };
                        format!("{k} {}", s.text())
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            S::Seq(s) => format!("@seq({})", s.text()),
            S::Tuple(v) => format!("@tuple({})", many(v)),
            S::Map(None, v) => format!("@map({})", v.text()),
            S::Map(Some(k), v) => format!("@map({} {})", k.text(), v.text()),
            S::Union(v) => format!("@union({})", many(v)),
            S::Opt(s) => format!("@optional({})", s.text()),
            S::Enum(v) => format!(
                "@enum{{{}}}",
                v.iter().map(|(n, s)| format!("{n} {}", s.text())).collect::<Vec<_>>().join(", ")
            ),
            S::OneOf(s, vals) => {
                format!("@one-of({} ({}))", s.text(), vals.iter().map(|v| lit(v)).collect::<Vec<_>>().join(" "))
            }
            S::Flatten(s) => format!("@flatten({})", s.text()),
            S::Default(d, s) => format!("@default({} {})", lit(d), s.text()),
            S::Depr(s) => format!("@deprecated(\"r\" {})", s.text()),
            S::Ref(n) => format!("@{n}"),
        }
    }
}

/// What the reference says about a value.
#[derive(Clone, Debug, Default)]
pub struct R {
    /// the reference leaves the verdict open
    unknown: bool,
    /// only the verdict is prescribed, not where errors are reported
    loose: bool,
    errors: BTreeSet<String>,
    /// errors that may be reported besides
    may: BTreeSet<String>,
    warns: BTreeSet<String>,
    warns_open: bool,
}
impl R {
    fn ok() -> R {
        R::default()
    }
    fn unknown() -> R {
        R { unknown: true, loose: true, warns_open: true, ..R::default() }
    }
    fn err(path: &str) -> R {
        R { errors: [path.to_string()].into(), ..R::default() }
    }
    fn err_loose(path: &str) -> R {
        R { loose: true, ..R::err(path) }
    }
    fn merge(&mut self, o: R) {
        self.unknown |= o.unknown;
        self.loose |= o.loose;
        self.warns_open |= o.warns_open;
        self.errors.extend(o.errors);
        self.may.extend(o.may);
        self.warns.extend(o.warns);
    }
    /// `Some(valid)` if decided
    fn verdict(&self) -> Option<bool> {
        if self.errors.is_empty() { if self.unknown { None } else { Some(true) } } else { Some(false) }
    }
}

pub struct Env<'a>(pub &'a [(&'static str, S)]);

fn join(path: &str, k: &str) -> String {
    if path.is_empty() { k.to_string() } else { format!("{path}.{k}") }
}

/// JSON number syntax, finite
fn float_ok(t: &str) -> Option<f64> {
    let b = t.as_bytes();
    let mut i = 0;
    if b.first() == Some(&b'-') {
        i = 1;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i == d0 || (b[d0] == b'0' && i - d0 > 1) {
        return None;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let f0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == f0 {
            return None;
        }
    }
    if i < b.len() && matches!(b[i], b'e' | b'E') {
        i += 1;
        if i < b.len() && matches!(b[i], b'+' | b'-') {
            i += 1;
        }
        let e0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == e0 {
            return None;
        }
    }
    if i != b.len() {
        return None;
    }
    t.parse::<f64>().ok().filter(|f| f.is_finite())
}

/// `1.` and `1.e5` are allowed by the grammar of the reference but not by JSON: left open.
fn float_open(t: &str) -> bool {
    float_ok(t).is_none() && {
        let f = t.replacen(".e", ".0e", 1).replacen(".E", ".0E", 1);
        let f = if f.ends_with('.') { format!("{f}0") } else { f };
        // grammar: exponent digits may be empty as well (`digits = [0-9]*`)
        let f2 = if f.ends_with(['e', 'E', '+', '-']) { format!("{f}0") } else { f.clone() };
        float_ok(&f).is_some() || float_ok(&f2).is_some()
    }
}

impl Env<'_> {
    fn get(&self, n: &str) -> Option<&S> {
        self.0.iter().find(|(m, _)| *m == n).map(|(_, s)| s)
    }

    /// May a field of this type be left out?
    fn absent_ok(&self, s: &S, seen: &mut Vec<&'static str>) -> Option<bool> {
        match s {
            S::Opt(_) | S::Default(..) => Some(true),
            S::Depr(s) => self.absent_ok(s, seen),
            S::Ref(n) => {
                if seen.contains(n) {
                    return Some(false);
                }
                seen.push(n);
                match self.get(n) {
                    Some(s) => self.absent_ok(s, seen),
                    None => Some(false),
                }
            }
            S::Union(v) => {
                if v.iter().any(|s| self.absent_ok(s, &mut seen.clone()) != Some(false)) { None } else { Some(false) }
            }
            _ => Some(false),
        }
    }

    /// The object type a flatten names.
    fn object(&self, s: &S, seen: &mut Vec<&'static str>) -> Option<&[(F, S)]> {
        match s {
            S::Ref(n) if !seen.contains(n) => {
                seen.push(n);
                match self.get(n)? {
                    S::Obj(f) => Some(f),
                    s => self.object(s, seen),
                }
            }
            _ => None,
        }
    }

    /// All fields with flattened ones expanded; `None`: invalid schema.
    fn fields(&self, f: &[(F, S)], seen: &mut Vec<*const (F, S)>, open: &mut bool) -> Option<Vec<(F, S)>> {
        let mut out: Vec<(F, S)> = vec![];
        for (k, s) in f {
            match s {
                S::Flatten(t) if matches!(k, F::N(_)) => {
                    let g = self.object(t, &mut vec![])?;
                    if seen.contains(&g.as_ptr()) {
                        return None;
                    }
                    seen.push(g.as_ptr());
                    for (k, s) in self.fields(g, seen, open)? {
                        if matches!(k, F::N(_)) && out.iter().any(|(o, _)| *o == k) {
                            return None;
                        }
                        if !matches!(k, F::N(_)) {
                            // what a flattened catch-all means is not said
                            *open = true;
                        }
                        out.push((k, s));
                    }
                    seen.pop();
                }
                S::Flatten(_) => return None,
                s => {
                    if out.iter().any(|(o, _)| o == k) {
                        return None;
                    }
                    out.push((*k, s.clone()))
                }
            }
        }
        Some(out)
    }

    pub fn check(&self, v: &V, s: &S, path: &str, active: &mut Vec<(usize, &'static str)>) -> R {
        // the reference does not say whether a tagged value matches the type of its payload
        if let V::Tag(_, p) = v {
            match s {
                S::Str | S::StrLen(..) | S::Int(..) | S::Float(..) | S::Bool | S::OneOf(..) => {
                    return match p.as_deref() {
                        Some(V::S(_) | V::Str(_)) => R::unknown(),
                        _ => R::err(path),
                    };
                }
                S::Obj(_) | S::Map(..) => {
                    return if matches!(p.as_deref(), Some(V::Obj(_))) { R::unknown() } else { R::err(path) };
                }
                S::Seq(_) | S::Tuple(_) => {
                    return if matches!(p.as_deref(), Some(V::Seq(_))) { R::unknown() } else { R::err(path) };
                }
                _ => {}
            }
        }
        match s {
            S::Any => R::ok(),
            S::Unit | S::UnitLit => match v {
                V::Unit => R::ok(),
                _ => R::err(path),
            },
            S::Str => {
                if v.scalar().is_some() { R::ok() } else { R::err(path) }
            }
            S::StrLen(a, b) => match v.scalar() {
                None => R::err(path),
                Some(t) => {
                    let n = t.chars().count();
                    if a.is_some_and(|a| n < a) || b.is_some_and(|b| n > b) { R::err(path) } else { R::ok() }
                }
            },
            S::Int(a, b) => match v.scalar() {
                None => R::err(path),
                Some(t) => {
                    let digits = t.strip_prefix('-').unwrap_or(t);
                    if t.starts_with('+') {
                        return R::unknown();
                    }
                    if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
                        return R::err(path);
                    }
                    match t.parse::<i128>() {
                        Err(_) => R::unknown(),
                        Ok(n) => {
                            if a.is_some_and(|a| n < a as i128) || b.is_some_and(|b| n > b as i128) {
                                R::err(path)
                            } else {
                                R::ok()
                            }
                        }
                    }
                }
            },
            S::Float(a, b) => match v.scalar() {
                None => R::err(path),
                Some(t) => match float_ok(t) {
                    None if float_open(t) => R::unknown(),
                    None => R::err(path),
                    Some(x) => {
                        let f = |s: &&str| s.parse::<f64>().unwrap();
                        if a.as_ref().is_some_and(|a| x < f(a)) || b.as_ref().is_some_and(|b| x > f(b)) {
                            R::err(path)
                        } else {
                            R::ok()
                        }
                    }
                },
            },
            S::Bool => match v.scalar() {
                Some("true" | "false") => R::ok(),
                _ => R::err(path),
            },
            S::Obj(fs) => {
                let mut open = false;
                let Some(fs) = self.fields(fs, &mut vec![], &mut open) else {
                    return R::err_loose(path);
                };
                let V::Obj(e) = v else { return R::err(path) };
                let mut r = R::ok();
                if open {
                    r.merge(R::unknown());
                }
                let rest: Vec<&S> = fs.iter().filter(|(k, _)| !matches!(k, F::N(_))).map(|(_, s)| s).collect();
                for (k, v) in e {
                    let p = join(path, match k { K::N(n) => n, K::Unit => "@" });
                    let named = match k {
                        K::N(n) => fs.iter().find(|(f, _)| *f == F::N(n)),
                        K::Unit => None,
                    };
                    match (named, &rest[..]) {
                        (Some((_, s)), _) => r.merge(self.check(v, s, &p, active)),
                        (None, []) => {
                            if open {
                                r.may.insert(p);
                            } else {
                                r.merge(R::err(&p))
                            }
                        }
                        (None, [s]) => {
                            if *k == K::Unit && fs.iter().any(|(f, _)| *f == F::RestString) {
                                r.merge(R::unknown());
                            } else {
                                r.merge(self.check(v, s, &p, active))
                            }
                        }
                        (None, _) => r.merge(R::unknown()),
                    }
                }
                for (k, s) in &fs {
                    if let F::N(n) = k
                        && !e.iter().any(|(k, _)| *k == K::N(n))
                    {
                        match self.absent_ok(s, &mut vec![]) {
                            Some(true) => {}
                            Some(false) => r.merge(R::err(&join(path, n))),
                            None => r.merge(R::unknown()),
                        }
                    }
                }
                r
            }
            S::Seq(s) => {
                let V::Seq(v) = v else { return R::err(path) };
                let mut r = R::ok();
                for (i, v) in v.iter().enumerate() {
                    r.merge(self.check(v, s, &format!("{path}[{i}]"), active));
                }
                r
            }
            S::Tuple(ss) => {
                let V::Seq(v) = v else { return R::err(path) };
                let mut r = R::ok();
                if v.len() != ss.len() {
                    r.merge(R::err(path));
                }
                for (i, (v, s)) in v.iter().zip(ss).enumerate() {
                    let x = self.check(v, s, &format!("{path}[{i}]"), active);
                    if r.errors.contains(path) {
                        r.may.extend(x.errors.clone());
                        r.may.extend(x.may.clone());
                        r.loose |= x.loose;
                        r.warns_open = true;
                    } else {
                        r.merge(x);
                    }
                }
                r
            }
            S::Map(k, s) => {
                let V::Obj(e) = v else { return R::err(path) };
                let mut r = R::ok();
                for (key, v) in e {
                    let K::N(n) = key else {
                        // unit keys: the reference contradicts itself (schema.map.keys and the meta schema)
                        r.merge(R::unknown());
                        continue;
                    };
                    if let Some(k) = k {
                        let mut x = self.check(&V::S(n), k, path, active);
                        x.loose |= !x.errors.is_empty();
                        r.merge(x);
                    }
                    r.merge(self.check(v, s, &join(path, n), active));
                }
                r
            }
            S::Union(ss) => {
                let rs: Vec<R> = ss.iter().map(|s| self.check(v, s, path, active)).collect();
                let valid: Vec<&R> = rs.iter().filter(|r| r.verdict() == Some(true)).collect();
                match valid.len() {
                    1 if rs.iter().all(|r| r.verdict().is_some()) => R { warns: valid[0].warns.clone(), warns_open: valid[0].warns_open, ..R::ok() },
                    0 if rs.iter().any(|r| r.verdict().is_none()) => R::unknown(),
                    0 => R::err(path),
                    _ => R { warns_open: true, ..R::ok() },
                }
            }
            S::Opt(s) => match v {
                // accepted by an existing test
                V::Unit => R::ok(),
                v => self.check(v, s, path, active),
            },
            S::Enum(vs) => match v {
                V::Tag(n, p) => match vs.iter().find(|(m, _)| m == n) {
                    None => R::err(path),
                    Some((_, s)) => {
                        let mut x = self.check(p.as_deref().unwrap_or(&V::Unit), s, path, active);
                        x.loose |= !x.errors.is_empty();
                        x.warns_open |= !x.warns.is_empty();
                        x
                    }
                },
                // untagged scalars may fall back to a variant that takes scalars (existing test)
                v if v.scalar().is_some() => {
                    if vs.iter().any(|(_, s)| matches!(s, S::Str | S::StrLen(..) | S::Int(..) | S::Float(..) | S::Bool)) {
                        R::unknown()
                    } else {
                        R::err(path)
                    }
                }
                _ => R::err(path),
            },
            S::OneOf(s, vals) => {
                let mut r = self.check(v, s, path, active);
                if r.errors.is_empty() && !vals.is_empty() {
                    match v.scalar() {
                        Some(t) if vals.contains(&t) => {}
                        // the same number written differently: left open
                        Some(t) if !matches!(**s, S::Str | S::StrLen(..))
                            && vals.iter().any(|v| v.parse::<f64>().ok() == t.parse::<f64>().ok() && t.parse::<f64>().is_ok()) => r.merge(R::unknown()),
                        None if !matches!(v, V::Unit) => r.merge(R::unknown()),
                        _ => r.merge(R::err(path)),
                    }
                }
                r
            }
            // outside of objects, flatten is not described
            S::Flatten(_) => R::unknown(),
            S::Default(_, s) => self.check(v, s, path, active),
            S::Depr(s) => {
                let mut r = self.check(v, s, path, active);
                r.warns.insert(path.to_string());
                r
            }
            S::Ref(n) => {
                let at = (v as *const V as usize, *n);
                let Some(s) = self.get(n) else { return R::err(path) };
                if active.contains(&at) {
                    // a type that is only defined by itself matches nothing
                    return R::err_loose(path);
                }
                active.push(at);
                let r = self.check(v, s, path, active);
                active.pop();
                r
            }
        }
    }
}

pub struct Case {
    pub root: S,
    pub types: Vec<(&'static str, S)>,
}
impl Case {
    pub fn text(&self) -> String {
        let mut t = format!("meta {{id t}}\nschema {{\n@ {}\n", self.root.text());
        for (n, s) in &self.types {
            t += &format!("{n} {}\n", s.text());
        }
        t + "}\n"
    }
}

type Report = (bool, Vec<(String, String)>, Vec<(String, String)>, String);

fn run_real(schema: &SchemaFile, doc: &styx_tree::Value, src: &str) -> Report {
    let r = facet_styx::validate(doc, schema);
    (
        r.is_valid(),
        r.errors.iter().map(|e| (e.path.clone(), e.message.clone())).collect(),
        r.warnings.iter().map(|e| (e.path.clone(), e.message.clone())).collect(),
        if r.errors.is_empty() { String::new() } else { r.render("d.styx", src) },
    )
}

/// Validate every document against the case and compare.
pub fn judge(l: &mut Local, case: &Case, docs: &[(V, String, styx_tree::Value)], idx: u64) {
    let text = case.text();
    // two independently read copies: their hash maps iterate in different orders
    let parse = || guarded(|| facet_styx::from_str::<SchemaFile>(&text));
    let (a, b) = match (parse(), parse()) {
        (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
        (x, _) => {
            let what = match x {
                Err(p) => format!("reading the schema panicked: {p}"),
                Ok(Err(e)) => format!("the schema is not readable: {e}"),
                _ => "the schema is only sometimes readable".into(),
            };
            l.exec(1);
            l.violation(viol(text, what));
            return;
        }
    };
    let env = Env(&case.types);
    for (i, (v, src, doc)) in docs.iter().enumerate() {
        l.exec(1);
        let key = || format!("{text}---\n{src}");
        let want = env.check(v, &case.root, "", &mut vec![]);
        let got = guarded(|| (run_real(&a, doc, src), run_real(&b, doc, src)));
        let (got, other) = match got {
            Ok(g) => g,
            Err(p) => {
                l.violation(viol(key(), format!("validation panicked: {p}")));
                continue;
            }
        };
        if got != other {
            l.violation(viol(key(), format!("two readings of the same schema report differently: {:?} and {:?}", got.1, other.1)));
            continue;
        }
        let errs: BTreeSet<String> = got.1.iter().map(|e| e.0.clone()).collect();
        let warns: BTreeSet<String> = got.2.iter().map(|e| e.0.clone()).collect();
        l.outcome(&(got.0, &errs, &warns, idx, i));
        match want.verdict() {
            None => {
                l.class("left open by the reference");
                continue;
            }
            Some(w) => {
                l.class(if w { "valid" } else { "invalid" });
                if w != got.0 {
                    l.violation(viol(
                        key(),
                        format!("expected {}, reported {:?}", if w { "valid".to_string() } else { format!("errors at {:?}", want.errors) }, got.1),
                    ));
                    continue;
                }
            }
        }
        if !want.loose
            && !want.unknown
            && !(want.errors.is_subset(&errs) && errs.iter().all(|e| want.errors.contains(e) || want.may.contains(e)))
        {
            l.violation(viol(key(), format!("expected errors at {:?}, reported {:?}", want.errors, got.1)));
            continue;
        }
        if got.0 && !want.warns_open && warns != want.warns {
            l.violation(viol(key(), format!("expected warnings at {:?}, reported {:?}", want.warns, got.2)));
        }
    }
}

fn docs(vs: impl IntoIterator<Item = V>) -> Vec<(V, String, styx_tree::Value)> {
    vs.into_iter()
        .flat_map(|v| {
            let both = std::iter::once(v.doc()).chain(v.dotted()).collect::<Vec<_>>();
            both.into_iter().map(move |t| {
                let d = styx_tree::parse(&t).unwrap_or_else(|e| panic!("{t}: {e}"));
                (v.clone(), t, d)
            })
        })
        .collect()
}

fn b(s: &S) -> Box<S> {
    Box::new(s.clone())
}

fn leaves() -> Vec<S> {
    vec![
        S::Str,
        S::StrLen(Some(2), None),
        S::StrLen(None, Some(1)),
        S::Int(None, None),
        S::Int(Some(1), Some(3)),
        S::Int(Some(-1), None),
        S::Float(None, None),
        S::Float(Some("0.5"), Some("1")),
        S::Bool,
        S::Unit,
        S::UnitLit,
        S::Any,
        S::Ref("T"),
        S::Ref("O"),
        S::Ref("Missing"),
        S::Enum(vec![("a", S::UnitLit), ("b", S::Int(None, None))]),
        S::Enum(vec![("a", S::UnitLit), ("c", S::Opt(Box::new(S::Obj(vec![(F::N("a"), S::Int(None, None))]))))]),
        S::OneOf(Box::new(S::Str), vec!["x", "a b"]),
        S::OneOf(Box::new(S::Int(None, None)), vec!["1", "2"]),
        S::OneOf(Box::new(S::Bool), vec!["true"]),
        S::Obj(vec![]),
        S::Obj(vec![(F::N("a"), S::Int(None, None))]),
        S::Obj(vec![(F::Rest, S::Str)]),
    ]
}

fn types() -> Vec<(&'static str, S)> {
    vec![
        ("T", S::Opt(Box::new(S::Int(None, None)))),
        ("O", S::Obj(vec![(F::N("a"), S::Int(None, None)), (F::N("n"), S::Opt(Box::new(S::Ref("O"))))])),
    ]
}

fn unary(s: &S) -> Vec<S> {
    vec![
        S::Opt(b(s)),
        S::Seq(b(s)),
        S::Default("1", b(s)),
        S::Depr(b(s)),
        S::Map(None, b(s)),
        S::Map(Some(Box::new(S::Int(None, None))), b(s)),
        S::Map(Some(Box::new(S::Bool)), b(s)),
        S::Tuple(vec![s.clone()]),
        S::Union(vec![s.clone()]),
        S::Obj(vec![(F::N("a"), s.clone())]),
        S::Obj(vec![(F::N("b"), S::Opt(Box::new(S::Str))), (F::Rest, s.clone())]),
        S::Obj(vec![(F::RestString, s.clone())]),
        S::Enum(vec![("a", s.clone())]),
        S::Enum(vec![("b", S::UnitLit), ("a", s.clone())]),
    ]
}
fn binary(s: &S, t: &S) -> Vec<S> {
    vec![
        S::Union(vec![s.clone(), t.clone()]),
        S::Map(Some(b(s)), b(t)),
        S::Tuple(vec![s.clone(), t.clone()]),
        S::Enum(vec![("a", s.clone()), ("b", t.clone())]),
        S::Obj(vec![(F::N("a"), s.clone()), (F::N("b"), t.clone())]),
        S::Obj(vec![(F::N("a"), s.clone()), (F::Rest, t.clone())]),
    ]
}

fn values(deep: bool) -> Vec<V> {
    let leaf = vec![
        V::S("1"), V::S("5"), V::S("-1"), V::S("0.5"), V::S("x"), V::S("a b"), V::S("true"), V::S(""), V::S("é"),
        V::Unit, V::Tag("a", None), V::Tag("c", None),
    ];
    let small = [V::S("1"), V::S("x"), V::S("true"), V::Unit, V::Tag("a", None), V::Obj(vec![(K::N("a"), V::S("1"))]), V::Seq(vec![V::S("1")])];
    let mut out = leaf.clone();
    out.push(V::Seq(vec![]));
    out.push(V::Obj(vec![]));
    for v in &small {
        out.push(V::Seq(vec![v.clone()]));
        out.push(V::Obj(vec![(K::N("a"), v.clone())]));
        out.push(V::Obj(vec![(K::N("b"), v.clone())]));
        out.push(V::Obj(vec![(K::N("1"), v.clone())]));
        out.push(V::Obj(vec![(K::N("true"), v.clone())]));
        out.push(V::Obj(vec![(K::Unit, v.clone())]));
        if !matches!(v, V::Tag(..)) {
            out.push(V::Tag("a", Some(Box::new(v.clone()))));
            out.push(V::Tag("b", Some(Box::new(v.clone()))));
            out.push(V::Tag("c", Some(Box::new(v.clone()))));
        }
        out.push(V::Obj(vec![(K::N("a"), V::S("1")), (K::N("b"), v.clone())]));
        out.push(V::Obj(vec![(K::N("n"), v.clone()), (K::N("a"), V::S("1"))]));
        for w in &small {
            out.push(V::Seq(vec![v.clone(), w.clone()]));
            if deep {
                out.push(V::Obj(vec![(K::N("a"), v.clone()), (K::N("b"), w.clone())]));
                out.push(V::Obj(vec![(K::N("a"), v.clone()), (K::Unit, w.clone())]));
            }
        }
    }
    if deep {
        for v in &leaf {
            for k in [K::N("a"), K::N("b"), K::Unit] {
                out.push(V::Seq(vec![V::Obj(vec![(k, v.clone())])]));
                out.push(V::Obj(vec![(K::N("a"), V::Obj(vec![(k, v.clone())]))]));
                out.push(V::Obj(vec![(k, V::Seq(vec![v.clone(), V::S("1")]))]));
            }
            out.push(V::Seq(vec![V::S("1"), v.clone(), V::S("x")]));
        }
    }
    out
}

pub fn run(ctx: &Ctx) {
    ctx.assume("the meaning of schemas is the one of docs/content/reference/spec/schema.md; tagged values against untagged types, unit keys of maps, untagged scalars for enums with scalar variants, several catch-alls, and optional inside unions are left open there and only checked for determinism");
    let mut docs_full = docs(values(true).into_iter().map(|v| V::Obj(vec![(K::N("f"), v)])));
    docs_full.extend(docs([V::Obj(vec![])]));
    let mut docs_small = docs(values(false).into_iter().map(|v| V::Obj(vec![(K::N("f"), v)])));
    docs_small.extend(docs([V::Obj(vec![])]));

    let thorough = ctx.thorough();
    // 1: every schema of depth 1 and 2 as the type of a field
    let l0 = leaves();
    let mut d1: Vec<S> = l0.clone();
    for s in &l0 {
        d1.extend(unary(s));
    }
    let d1u = d1.clone();
    for s in &l0 {
        for t in &l0 {
            d1.extend(binary(s, t));
        }
    }
    let field = |s: &S| Case { root: S::Obj(vec![(F::N("f"), s.clone())]), types: types() };
    let body = |list: &[S], docs: &[(V, String, styx_tree::Value)], i: u64, l: &mut Local| judge(l, &field(&list[i as usize]), docs, i);
    ctx.space("types", json!({"schemas": "all of depth up to 1 over 23 leaf types, 14 unary and 6 binary constructors", "schemas_count": d1.len(), "documents": docs_full.len()}), d1.len() as u64,
        |i| field(&d1[i as usize]).text(), |i, l| body(&d1, &docs_full, i, l));
    let mut d2 = vec![];
    for s in &d1u[l0.len()..] {
        d2.extend(unary(s));
    }
    if ctx.thorough() {
        for s in &d1[d1u.len()..] {
            d2.extend(unary(s));
        }
    }
    ctx.space("nested-types", json!({"schemas": "unary constructors applied to schemas of depth 1", "schemas_count": d2.len(), "documents": if ctx.thorough() { docs_full.len() } else { docs_small.len() }}), d2.len() as u64,
        |i| field(&d2[i as usize]).text(), |i, l| body(&d2, if thorough { &docs_full } else { &docs_small }, i, l));

    // 2: field sets
    let fs: Vec<S> = vec![
        S::Str, S::Int(None, None), S::Opt(Box::new(S::Int(None, None))), S::Default("1", Box::new(S::Int(None, None))), S::Depr(Box::new(S::Str)),
        S::Depr(Box::new(S::Opt(Box::new(S::Str)))), S::Opt(Box::new(S::Depr(Box::new(S::Str)))), S::Flatten(Box::new(S::Ref("T"))), S::Flatten(Box::new(S::Ref("U"))), S::Flatten(Box::new(S::Ref("W"))),
        S::Ref("M"),
    ];
    let ftypes: Vec<(&'static str, S)> = vec![
        ("T", S::Obj(vec![(F::N("a"), S::Int(None, None)), (F::N("d"), S::Opt(Box::new(S::Str)))])),
        ("U", S::Ref("U2")),
        ("U2", S::Obj(vec![(F::N("c"), S::Int(None, None)), (F::N("x"), S::Flatten(Box::new(S::Ref("X"))))])),
        ("X", S::Obj(vec![(F::N("b"), S::Opt(Box::new(S::Str)))])),
        ("W", S::Union(vec![S::Ref("T"), S::Str])),
        ("M", S::Depr(Box::new(S::Ref("M2")))),
        ("M2", S::Opt(Box::new(S::Str))),
    ];
    let names = ["a", "b", ""];
    let rest = [None, Some((F::Rest, S::Int(None, None))), Some((F::RestString, S::Int(None, None)))];
    // each name: absent or one of fs
    let radix = fs.len() as u64 + 1;
    let prod = Product(vec![radix, radix, radix, rest.len() as u64]);
    let keys = [K::N("a"), K::N("b"), K::N("c"), K::N("d"), K::N(""), K::Unit];
    let vals = [V::S("1"), V::S("x"), V::Obj(vec![(K::N("a"), V::S("1"))])];
    let mut ds = vec![];
    let dp = Product(vec![3, 3, 3, 2, 2, 2]);
    for i in 0..dp.total() {
        let c = dp.decode(i);
        ds.push(V::Obj(c.iter().zip(keys).filter(|(c, _)| **c > 0).map(|(c, k)| (k, vals[*c - 1].clone())).collect()));
    }
    for k in keys {
        ds.push(V::Obj(vec![(k, vals[2].clone())]));
    }
    let ds = docs(ds);
    let mk = |i: u64| {
        let c = prod.decode(i);
        let mut f: Vec<(F, S)> = vec![];
        for (j, n) in names.iter().enumerate() {
            if c[j] > 0 {
                f.push((F::N(n), fs[c[j] - 1].clone()));
            }
        }
        if let Some(r) = &rest[c[3]] {
            f.push(r.clone());
        }
        Case { root: S::Obj(f), types: ftypes.clone() }
    };
    ctx.space("fields", json!({"schemas": "objects with up to three fields of 11 types (optional, default, deprecated, flattened, aliased) and no, a unit or a typed catch-all", "documents": format!("all {} sub-documents over six keys", ds.len())}), prod.total(),
        |i| mk(i).text(), |i, l| judge(l, &mk(i), &ds, i));

    // 3: numbers and strings
    let alpha = ["0", "1", "9", "-", "+", ".", "e", "E", "é", " "];
    let words = ["NaN", "nan", "inf", "-inf", "Infinity", "infinity", "1e999", "-1e999", "1e-999", "true", "True", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "0x10", "1_000", "٣"];
    let seqs = Seqs::new(alpha.len(), 0, ctx.pick(5, 6));
    let scs: Vec<Case> = [
        S::Float(None, None), S::Float(Some("-1"), Some("1.5")), S::Int(None, None), S::Int(Some(-1), Some(9)), S::StrLen(Some(2), Some(3)), S::Str, S::Bool,
        S::OneOf(Box::new(S::Str), vec!["1", "a b", "é 0", "+"]), S::Enum(vec![("a", S::Int(None, None)), ("b", S::StrLen(None, Some(2)))]),
    ]
    .into_iter()
    .map(|s| Case { root: S::Obj(vec![(F::N("f"), s)]), types: vec![] })
    .collect();
    let all = seqs.total() + words.len() as u64;
    let text = |i: u64| if i < seqs.total() { seqs.concat(i, &alpha) } else { words[(i - seqs.total()) as usize].to_string() };
    const CHUNK: u64 = 64;
    ctx.space("scalars", json!({"texts": "all strings of up to the bound over 10 characters, and special words", "max_len": ctx.pick(5, 6), "schemas": "9 scalar types with and without limits"}), all.div_ceil(CHUNK),
        |i| format!("{:?}..", text(i * CHUNK)),
        |i, l| {
            let d = docs((i * CHUNK..((i + 1) * CHUNK).min(all)).map(|i| V::Obj(vec![(K::N("f"), V::Str(text(i)))])));
            for (j, sc) in scs.iter().enumerate() {
                judge(l, sc, &d, i * 16 + j as u64)
            }
        });

    // 4: named types that refer to each other
    let bodies: Vec<S> = {
        let refs = [S::Ref("A"), S::Ref("B"), S::Ref("C")];
        let mut v = vec![S::Int(None, None)];
        for r in &refs {
            v.push(r.clone());
            v.push(S::Opt(b(r)));
            v.push(S::Union(vec![r.clone(), S::Int(None, None)]));
            v.push(S::Union(vec![S::Int(None, None), r.clone()]));
            v.push(S::Seq(b(r)));
            v.push(S::Depr(b(r)));
            v.push(S::Obj(vec![(F::N("a"), S::Opt(b(r)))]));
            v.push(S::Obj(vec![(F::N("x"), S::Flatten(b(r))), (F::N("a"), S::Opt(Box::new(S::Int(None, None))))]));
            v.push(S::Enum(vec![("a", r.clone())]));
            v.push(S::Default("1", b(r)));
            v.push(S::OneOf(b(r), vec!["1"]));
        }
        v
    };
    let rd = docs(
        [
            V::S("1"), V::S("x"), V::Unit, V::Seq(vec![]), V::Seq(vec![V::Seq(vec![]), V::S("1")]), V::Obj(vec![]), V::Obj(vec![(K::N("a"), V::S("1"))]),
            V::Obj(vec![(K::N("a"), V::Obj(vec![(K::N("a"), V::S("x"))]))]), V::Tag("a", None), V::Tag("a", Some(Box::new(V::S("1")))), V::Seq(vec![V::Obj(vec![]), V::Tag("a", None)]),
        ]
        .into_iter()
        .map(|v| V::Obj(vec![(K::N("f"), v)]))
        .chain([V::Obj(vec![])]),
    );
    let n = bodies.len() as u64;
    let prod = Product(vec![n, n, n]);
    let mk = |i: u64| {
        let c = prod.decode(i);
        Case {
            root: S::Obj(vec![(F::N("f"), S::Ref("A"))]),
            types: vec![("A", bodies[c[0]].clone()), ("B", bodies[c[1]].clone()), ("C", bodies[c[2]].clone())],
        }
    };
    ctx.space("recursion", json!({"schemas": "all systems of three named types over 34 bodies that refer to each other", "documents": rd.len()}), prod.total(),
        |i| mk(i).text(), |i, l| judge(l, &mk(i), &rd, i));

    // 5: rules of the reference that the ASTs above do not express
    let ex: &[(&str, &str, bool)] = &[
        ("@ @object{version 1}", "version 1", true),
        ("@ @object{version 1}", "version 2", false),
        ("@ @object{f @union(1 @bool)}", "f 1", true),
        ("@ @object{f @string{pattern \"[a-z]+\"}}", "f abc", true),
        ("@ @object{f @string{pattern \"[a-z]+\"}}", "f ABC", false),
        ("@ @object{f @default(0 @int{min 1})}", "", false),
        ("@ @object{f @int@}", "f 1", true),
        ("@ @object{f @int{}}", "f 1", true),
        ("@ @object{f @int{}}", "f x", false),
        ("/// d\n@ @object{\n/// d\nf @int\n/// d\n@ @string}", "f 1\ng x", true),
        ("@ @object{f @enum{\n/// d\na\n/// e\nb @seq(@int)}}", "f @b(1 2)", true),
        ("@ @object{f @enum{\n/// d\na\n/// e\nb @seq(@int)}}", "f @b(1 x)", false),
        ("@ @object{f @tuple(\n/// x\n@int\n/// y\n@string)}", "f (1 a)", true),
        ("@ @Config\nConfig @object{host @string, port @default(8080 @int{min 1, max 65535})}", "host h", true),
        ("@ @Config\nConfig @object{host @string, port @default(8080 @int{min 1, max 65535})}", "host h\nport 0", false),
        ("@ @object{\"a.b\" @int}", "\"a.b\" 1", true),
        ("@ @object{\"a.b\" @int}", "a.b 1", false),
        ("@ @map(@string @int)", "a 1\nb 2", true),
        ("@ @map(@string @int)", "a 1\nb x", false),
        ("@ @object{o @object{p @int}}", "o p>1", true),
        ("@ @object{o @object{p @int}}", "o p>x", false),
        ("@ @object{t @string}", "t <<A\n x\n A", true),
        ("@ @object{t @int}", "t r#\"12\"#", true),
    ];
    ctx.sequential("examples", json!({"cases": ex.len(), "what": "literals, patterns, defaults, doc comments, dotted keys, attributes, heredocs in schemas and documents"}), |l| {
        for (s, d, ok) in ex {
            l.exec(1);
            let key = format!("{s} --- {d}");
            match guarded(|| facet_styx::from_str::<SchemaFile>(&format!("meta {{id t}}\nschema {{\n{s}\n}}\n"))) {
                Err(p) => l.violation(viol(key, format!("reading the schema panicked: {p}"))),
                Ok(Err(e)) => l.violation(viol(key, format!("the schema is not readable: {e}"))),
                Ok(Ok(schema)) => {
                    let r = facet_styx::validate(&styx_tree::parse(d).unwrap(), &schema);
                    l.outcome(&(s, d, r.is_valid()));
                    if r.is_valid() != *ok {
                        l.violation(viol(key, format!("expected {}, reported {:?}", if *ok { "valid" } else { "an error" }, r.errors.iter().map(|e| &e.message).collect::<Vec<_>>())))
                    }
                }
            }
        }
    });
}
