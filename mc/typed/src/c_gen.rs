//! C13: the schema generated for a type describes the documents of that type.
use crate::c_round::*;
use crate::types::*;
use facet::Facet;
use facet_styx::*;
use mc_engine::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use styx_format::FormatOptions;

/// A schema with everything that has no order sorted.
pub fn canon(s: &Schema) -> String {
    fn doc(d: &Option<Vec<String>>) -> String {
        d.as_ref().map(|d| format!("{d:?}")).unwrap_or_default()
    }
    fn list(v: &[Documented<Schema>]) -> String {
        v.iter().map(|d| doc(&d.doc) + &canon(&d.value)).collect::<Vec<_>>().join(" ")
    }
    fn one(d: &Documented<Box<Schema>>) -> String {
        doc(&d.doc) + &canon(&d.value)
    }
    match s {
        Schema::Object(o) => {
            let mut v: Vec<_> = o.0.iter().map(|(k, s)| format!("{}{:?}/{:?}: {}", doc(&k.doc), k.value.value, k.value.tag, canon(s))).collect();
            v.sort();
            format!("@object{{{}}}", v.join(", "))
        }
        Schema::Enum(e) => {
            let mut v: Vec<_> = e.0.iter().map(|(k, s)| format!("{}{:?}: {}", doc(&k.doc), k.value, canon(s))).collect();
            v.sort();
            format!("@enum{{{}}}", v.join(", "))
        }
        Schema::Seq(s) => format!("@seq({})", one(&s.0.0)),
        Schema::Optional(s) => format!("@optional({})", one(&s.0.0)),
        Schema::Flatten(s) => format!("@flatten({})", one(&s.0.0)),
        Schema::Tuple(t) => format!("@tuple({})", list(&t.0)),
        Schema::Map(t) => format!("@map({})", list(&t.0)),
        Schema::Union(t) => format!("@union({})", list(&t.0)),
        Schema::Default(d) => format!("@default({:?} {})", d.0.0.0, one(&d.0.1)),
        Schema::Deprecated(d) => format!("@deprecated({:?} {})", d.0.0, one(&d.0.1)),
        s => format!("{s:?}"),
    }
}
pub fn canon_file(f: &SchemaFile) -> String {
    let mut v: Vec<_> = f.schema.iter().map(|(k, s)| format!("{k:?}: {}\n", canon(s))).collect();
    v.sort();
    format!("{:?} {:?}\n{}", f.meta, f.imports, v.concat())
}

/// The type references of a schema.
fn refs(s: &Schema, out: &mut Vec<String>) {
    match s {
        Schema::Type { name } => out.push(name.clone().unwrap_or_default()),
        Schema::Object(o) => {
            for (k, s) in &o.0 {
                if let Some(t) = k.value.tag_name() {
                    out.push(t.to_string());
                }
                refs(s, out);
            }
        }
        Schema::Enum(e) => e.0.values().for_each(|s| refs(s, out)),
        Schema::Seq(s) => refs(&s.0.0.value, out),
        Schema::Optional(s) => refs(&s.0.0.value, out),
        Schema::Flatten(s) => refs(&s.0.0.value, out),
        Schema::Default(d) => refs(&d.0.1.value, out),
        Schema::Deprecated(d) => refs(&d.0.1.value, out),
        Schema::Tuple(TupleSchema(v)) | Schema::Map(MapSchema(v)) | Schema::Union(UnionSchema(v)) => v.iter().for_each(|d| refs(&d.value, out)),
        _ => {}
    }
}

pub struct Schemas {
    file: SchemaFile,
    read: SchemaFile,
    text: String,
}

/// The schema of a type, checked on its own.
fn schemas<T: Facet<'static>>() -> Result<Rc<Schemas>, String> {
    thread_local!(static CACHE: RefCell<HashMap<&'static str, Result<Rc<Schemas>, String>>> = RefCell::default());
    let name = std::any::type_name::<T>();
    if let Some(r) = CACHE.with(|c| c.borrow().get(name).cloned()) {
        return r;
    }
    let made = || {
        let file = schema_file_from_type::<T>();
        let text = schema_from_type::<T>();
        let read: SchemaFile = from_str(&text).map_err(|e| format!("the generated schema {text:?} cannot be read: {e}"))?;
        if canon_file(&file) != canon_file(&read) {
            return Err(format!("the schema is {}, but written as {text:?}, which reads {}", canon_file(&file), canon_file(&read)));
        }
        for (k, s) in &file.schema {
            let mut names = vec![];
            refs(s, &mut names);
            for n in names {
                const BUILTIN: &[&str] = &["string", "int", "float", "bool", "unit", "any", "Schema"];
                if !file.schema.contains_key(&Some(n.clone())) && !BUILTIN.contains(&&*n) {
                    return Err(format!("{k:?} refers to {n:?}, which the schema does not define: {text:?}"));
                }
            }
        }
        Ok(Rc::new(Schemas { file, read, text }))
    };
    let r = made();
    CACHE.with(|c| c.borrow_mut().insert(name, r.clone()));
    r
}

/// What the schema language has no word for.
fn unjudged(v: &styx_tree::Value) -> Option<&'static str> {
    match &v.payload {
        Some(styx_tree::Payload::Object(o)) => o.entries.iter().find_map(|e| if e.key.as_str().is_none() { Some("unit keys of maps") } else { unjudged(&e.value) }),
        Some(styx_tree::Payload::Sequence(s)) => s.items.iter().find_map(unjudged),
        _ => None,
    }
}

/// Whether a tag stands directly in front of another one (the tree keeps only one of them).
pub fn chained(text: &str) -> bool {
    let ev = styx_parse::Parser::new(text).parse_to_vec();
    ev.windows(2).any(|w| matches!(w[0].kind, styx_parse::EventKind::TagStart { .. }) && matches!(w[1].kind, styx_parse::EventKind::TagStart { .. }))
}

pub struct SchemaLib;
impl Lib for SchemaLib {
    const NAME: &'static str = "schema";
    fn doc<T: V>(v: &T, o: &FormatOptions) -> Result<String, String> {
        FacetLib::doc(v, o)
    }
    fn compact<T: V>(v: &T) -> Result<String, String> {
        FacetLib::compact(v)
    }
    fn read<T: Facet<'static> + serde::de::DeserializeOwned>(s: &str) -> Result<T, String> {
        FacetLib::read(s)
    }
    fn read_expr<T: V>(s: &str) -> Result<T, String> {
        FacetLib::read_expr(s)
    }
    fn check<T: V>(v: &T, key: &dyn Fn() -> String, l: &mut Local) {
        let fail = |l: &mut Local, m: String| l.violation(viol(key(), m));
        let w = One { a: v.clone() };
        let (outer, inner) = match (schemas::<One<T>>(), schemas::<T>()) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return fail(l, e),
        };
        let Ok(text) = to_string(&w) else {
            return l.class("cannot be written");
        };
        let tree = match styx_tree::parse(&text) {
            Ok(t) => t,
            Err(e) => return fail(l, format!("written as {text:?}, which is not valid: {e}")),
        };
        if let Some(open) = unjudged(&tree) {
            return l.class(open);
        }
        if text.contains("inf") && format!("{v:?}").contains("inf") {
            return l.class("no finite number");
        }
        if chained(&text) && !JUDGE_CHAINS.with(|j| j.get()) {
            return l.class("tag of a tag");
        }
        l.outcome(&text);
        l.exec(4);
        for (how, s) in [("generated", &outer.file), ("read back", &outer.read)] {
            let r = validate(&tree, s);
            if !r.is_valid() {
                return fail(l, format!("written as {text:?}, which the {how} schema {:?} refuses: {:?}", outer.text, r.errors));
            }
        }
        if let Some(a) = tree.get("a") {
            for (how, s) in [("generated", &inner.file), ("read back", &inner.read)] {
                let r = validate(a, s);
                if !r.is_valid() {
                    return fail(l, format!("written as {text:?}, whose value the {how} schema {:?} of the type alone refuses: {:?}", inner.text, r.errors));
                }
            }
        }
        // what is not a document of the type
        let extra = styx_tree::parse(&format!("{}\nzz 1", text.trim_end())).unwrap();
        if validate(&extra, &outer.file).is_valid() {
            return fail(l, format!("an unknown field is accepted by {:?}", outer.text));
        }
        if !T::NULL && validate(&styx_tree::parse("").unwrap(), &outer.file).is_valid() {
            fail(l, format!("a missing field is accepted by {:?}", outer.text));
        }
    }
}

thread_local!(static JUDGE_CHAINS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

pub fn run(ctx: &Ctx) {
    let mut extra = vec![];
    facet_only::<SchemaLib>(ctx.pick(24, 60), &mut extra);
    gen_types::<SchemaLib>(&mut extra);
    crate::c_round::run::<SchemaLib>(ctx, extra);
    // one instance of what the tree cannot hold
    ctx.sequential("tag of a tag", json!({"documents": 1}), |l| {
        JUDGE_CHAINS.with(|j| j.set(true));
        let v = Enum::Newtype(Enum::Pair("x".to_string(), 4));
        SchemaLib::check(&v, &|| "tag of a tag".into(), l);
        JUDGE_CHAINS.with(|j| j.set(false));
    });
    meta(ctx);
    docs(ctx);
    probes(ctx);
}

/// What `GenerateSchema` puts into the schema is there when the schema is read.
fn meta(ctx: &Ctx) {
    let words = STRINGS;
    let p = Product([words.len(), words.len(), words.len() + 1, 2 + 3 * words.len()].map(|n| n as u64).to_vec());
    let show = |i: u64| {
        let d = p.decode(i);
        format!("crate {:?}, version {:?}, cli {:?}, lsp {}", words[d[0]], words[d[1]], words.get(d[2]), d[3])
    };
    ctx.space("metadata", json!({"texts": words, "lsp_variants": 2 + 3 * words.len()}), p.total(), show, |i, l| {
        let d = p.decode(i);
        let make = || {
            let mut g = GenerateSchema::<One<u8>>::new().crate_name(words[d[0]]).version(words[d[1]]);
            if let Some(c) = words.get(d[2]) {
                g = g.cli(*c);
            }
            if d[3] > 0 {
                let w = words[(d[3] - 1) % words.len()].to_string();
                g = g.lsp(LspExtensionConfig {
                    launch: [vec![w.clone()], vec!["a".into(), w.clone()], vec![]][(d[3] - 1) / words.len() % 3].clone(),
                    capabilities: (d[3] % 2 == 0).then(|| vec![w]),
                });
            }
            g
        };
        l.exec(1);
        let file = make().generate_schema_file();
        let text = make().generate();
        l.outcome(&text);
        let fail = |l: &mut Local, m: String| l.violation(viol(show(i), m));
        if file.meta.id != format!("crate:{}@{}", words[d[0]], words[d[1]]) || file.meta.cli.as_deref() != words.get(d[2]).copied() || file.meta.lsp.is_some() != (d[3] > 0) {
            return fail(l, format!("the metadata is {:?}", file.meta));
        }
        match from_str::<SchemaFile>(&text) {
            Err(e) => fail(l, format!("written as {text:?}, which cannot be read: {e}")),
            Ok(r) if canon_file(&r) != canon_file(&file) => fail(l, format!("written as {text:?}, which reads {:?} instead of {:?}", r.meta, file.meta)),
            Ok(_) => {}
        }
    });
}

/// Doc comments of fields and variants are those of the schema.
fn docs(ctx: &Ctx) {
    ctx.sequential("doc comments", json!({"types": 1}), |l| {
        use crate::gen_types::Commented;
        let file = schema_file_from_type::<Commented>();
        let text = schema_from_type::<Commented>();
        l.outcome(&text);
        l.exec(2);
        for (how, f) in [("generated", file), ("read back", from_str::<SchemaFile>(&text).unwrap())] {
            let mut got = vec![];
            for s in f.schema.values() {
                match s {
                    Schema::Object(o) => o.0.keys().for_each(|k| got.push((k.value.value.clone().unwrap_or_default(), k.doc.clone().unwrap_or_default()))),
                    Schema::Enum(e) => e.0.keys().for_each(|k| got.push((k.value.clone(), k.doc.clone().unwrap_or_default()))),
                    _ => {}
                }
            }
            got.sort();
            let want: Vec<(String, Vec<String>)> = Commented::comments();
            if got != want {
                l.violation(viol(format!("comments, {how}"), format!("{got:?} instead of {want:?} in {text:?}")));
            }
        }
    });
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Pair<T: 'static> {
    x: T,
    a: Option<T>,
    #[facet(flatten)]
    more: BTreeMap<String, T>,
}
impl<'a, T: 'static> serde::Deserialize<'a> for Pair<T> {
    fn deserialize<D: serde::Deserializer<'a>>(_: D) -> Result<Self, D::Error> {
        unreachable!()
    }
}
impl<T: 'static> serde::Serialize for Pair<T> {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        unreachable!()
    }
}
impl<T: V> V for Pair<T> {
    const NULL: bool = false;
    fn vals(n: usize) -> Vec<Self> {
        let v = T::vals(n);
        (0..v.len()).map(|i| Pair { x: v[i].clone(), a: (i % 2 == 0).then(|| v[i / 2].clone()), more: (0..i % 3).map(|j| (format!("k{j}"), v[j].clone())).collect() }).collect()
    }
}

struct Probe {
    name: &'static str,
    texts: Vec<String>,
    accepts: fn(&styx_tree::Value) -> bool,
    reads: fn(&str) -> Result<(), String>,
}
fn probe<T: V>(n: usize, out: &mut Vec<Probe>) {
    out.push(Probe {
        name: std::any::type_name::<T>(),
        texts: T::vals(n).into_iter().filter_map(|v| to_string(&One { a: v }).ok()).collect(),
        accepts: |v| schemas::<One<T>>().is_ok_and(|s| validate(v, &s.file).is_valid()),
        reads: |s| FacetLib::read::<One<T>>(s).map(|_| ()),
    });
}
/// A document that the schema of a type accepts is a document of the type.
fn probes(ctx: &Ctx) {
    let n = ctx.pick(6, 12);
    let mut v = vec![];
    macro_rules! some { ($($t:ty)*) => {$( probe::<$t>(n, &mut v); )*} }
    macro_rules! more { ($($t:ty)*) => {$( some!($t Option<$t> Vec<$t> BTreeMap<String, $t> One<$t> Pair<$t> New<$t> ($t, i64) Skip<$t> Option<Vec<$t>> Vec<Option<$t>> Option<($t, $t)> (String, Option<$t>)); )*} }
    more!(() i64 bool f64 String One<i64> BTreeMap<String, bool>);
    const ATOMS: &[&str] = &["x", "1", "-1", "300", "1.5", "true", "\"\"", "\"a b\"", "\"1\"", "@", "@none", "@newtype", "@unit-case", "@record"];
    let mut texts: Vec<String> = v.iter().flat_map(|p| p.texts.clone()).collect();
    for a in ATOMS {
        for t in ["V", "(V)", "(V V)", "(V (V))", "{}", "{a V}", "{x V}", "{a {a V}}", "{first_one V, last_one 1}", "@newtype(V)", "@newtype{a V}", "@pair(V V)", "@pair(V 4)", "@pair(V)", "@record{x_y V}", "@record{x_y V, z V}", "@none(V)"] {
            texts.push(format!("a {}\n", t.replace('V', a)));
        }
    }
    texts.sort();
    texts.dedup();
    // whether a tagged value matches an untagged type is left open
    texts.retain(|t| !styx_parse::Parser::new(t).parse_to_vec().iter().any(|e| matches!(e.kind, styx_parse::EventKind::TagStart { .. })));
    let trees: Vec<_> = texts.iter().map(|t| styx_tree::parse(t).unwrap()).collect();
    let p = Product(vec![v.len() as u64, texts.len() as u64]);
    ctx.space(
        "documents of other types",
        json!({"types": v.len(), "documents": texts.len()}),
        p.total(),
        |i| format!("{} {:?}", v[p.decode(i)[0]].name, texts[p.decode(i)[1]]),
        |i, l| {
            let d = p.decode(i);
            let (t, text) = (&v[d[0]], &texts[d[1]]);
            l.exec(1);
            let (a, r) = ((t.accepts)(&trees[d[1]]), (t.reads)(text));
            l.class(if a { "accepted" } else { "refused" });
            if a && let Err(e) = r {
                l.violation(viol(format!("{} {text:?}", t.name), format!("the schema accepts {text:?}, which cannot be read: {e}")));
            }
        },
    );
}
