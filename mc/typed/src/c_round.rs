//! C10 / C11: a Rust value written as Styx and read back is the same value.
use crate::facet_only::*;
use crate::types::*;
use mc_engine::*;
use std::collections::{BTreeMap, HashMap};
use styx_format::FormatOptions;

/// One library: facet-styx or serde_styx.
pub trait Lib: Sync + 'static {
    const NAME: &'static str;
    fn doc<T: V>(v: &T, o: &FormatOptions) -> Result<String, String>;
    fn compact<T: V>(v: &T) -> Result<String, String>;
    fn read<T: facet::Facet<'static> + serde::de::DeserializeOwned>(s: &str) -> Result<T, String>;
    /// Read the value of `text` where it stands alone.
    fn read_expr<T: V>(s: &str) -> Result<T, String>;
    fn check<T: V>(v: &T, key: &dyn Fn() -> String, l: &mut Local)
    where
        Self: Sized,
    {
        check::<Self, T>(v, key, l)
    }
}
pub struct FacetLib;
impl Lib for FacetLib {
    const NAME: &'static str = "facet";
    fn doc<T: V>(v: &T, o: &FormatOptions) -> Result<String, String> {
        facet_styx::to_string_with_options(v, o).map_err(|e| format!("{e:?}"))
    }
    fn compact<T: V>(v: &T) -> Result<String, String> {
        facet_styx::to_string_compact(v).map_err(|e| format!("{e:?}"))
    }
    fn read<T: facet::Facet<'static> + serde::de::DeserializeOwned>(s: &str) -> Result<T, String> {
        facet_styx::from_str(s).map_err(|e| e.to_string())
    }
    fn read_expr<T: V>(s: &str) -> Result<T, String> {
        facet_styx::from_str_expr(s).map_err(|e| e.to_string())
    }
}
pub struct SerdeLib;
impl Lib for SerdeLib {
    const NAME: &'static str = "serde";
    fn doc<T: V>(v: &T, o: &FormatOptions) -> Result<String, String> {
        serde_styx::to_string_with_options(v, o).map_err(|e| e.to_string())
    }
    fn compact<T: V>(v: &T) -> Result<String, String> {
        serde_styx::to_string_compact(v).map_err(|e| e.to_string())
    }
    fn read<T: facet::Facet<'static> + serde::de::DeserializeOwned>(s: &str) -> Result<T, String> {
        serde_styx::from_str(s).map_err(|e| e.to_string())
    }
    fn read_expr<T: V>(s: &str) -> Result<T, String> {
        serde_styx::from_str(s).map_err(|e| e.to_string())
    }
}

fn options() -> Vec<(&'static str, FormatOptions)> {
    let d = FormatOptions::default;
    vec![
        ("default", d()),
        ("inline", d().inline()),
        ("multiline", d().multiline()),
        ("narrow", FormatOptions { max_width: 12, min_inline_width: 8, indent: "\t", heredoc_line_threshold: 1, ..d() }),
    ]
}

fn valid(text: &str) -> Result<(), String> {
    for e in styx_parse::Parser::new(text).parse_to_vec() {
        if let styx_parse::EventKind::Error { kind } = e.kind {
            return Err(kind.to_string());
        }
    }
    Ok(())
}

/// `wrapped`: the value as a field of a document, under all options, reformatted, and alone.
fn check<L: Lib, T: V>(v: &T, key: &dyn Fn() -> String, l: &mut Local) {
    let fail = |l: &mut Local, how: &str, m: String| l.violation(viol(format!("{} {} {how}", L::NAME, key()), m));
    let w = One { a: v.clone() };
    let odd = std::any::type_name::<T>().contains("OddName");
    let docs = std::any::type_name::<T>().contains("Doc");
    for (name, o) in options() {
        l.exec(2);
        let text = match L::doc(&w, &o) {
            Ok(t) => t,
            Err(e) if odd && e.contains("cannot be written as a tag") => return,
            Err(e) => {
                fail(l, name, format!("cannot be written: {e}"));
                continue;
            }
        };
        l.outcome(&text);
        if L::NAME == "serde" {
            // both libraries write the same document
            let other = FacetLib::doc(&w, &o);
            if other.as_ref().map(|s| s.trim_end()) != Ok(text.trim_end()) {
                fail(l, name, format!("written as {text:?} by serde_styx and as {other:?} by facet-styx"));
            }
        }
        if let Err(e) = valid(&text) {
            fail(l, name, format!("written as {text:?}, which is not valid Styx: {e}"));
            continue;
        }
        match L::read::<One<T>>(&text) {
            Err(e) => {
                fail(l, name, format!("written as {text:?}, which cannot be read back: {e}"));
                continue;
            }
            Ok(b) if b != w => {
                fail(l, name, format!("written as {text:?}, which reads {b:?}"));
                continue;
            }
            Ok(b) => {
                let again = L::doc(&b, &o);
                if again.as_deref() != Ok(&text) {
                    fail(l, name, format!("written as {text:?}, and after reading it back as {again:?}"));
                }
            }
        }
        if name == "default" {
            let pretty = styx_format::format_source(&text, FormatOptions::default());
            match L::read::<One<T>>(&pretty) {
                Ok(b) if b == w => {}
                o => fail(l, name, format!("written as {text:?}, which the formatter turns into {pretty:?}, which reads {o:?}")),
            }
        }
    }
    l.exec(2);
    match L::compact(v) {
        Err(e) => fail(l, "compact", format!("cannot be written: {e}")),
        Ok(text) => {
            l.outcome(&text);
            if L::NAME == "serde" {
                let other = FacetLib::compact(v);
                if other.as_ref() != Ok(&text) {
                    fail(l, "compact", format!("written as {text:?} by serde_styx and as {other:?} by facet-styx"));
                }
            }
            if let Err(e) = valid(&format!("k {text}")) {
                return fail(l, "compact", format!("written as {text:?}, which is not a valid value: {e}"));
            }
            match L::read_expr::<T>(&text) {
                Err(e) => fail(l, "compact", format!("written as {text:?}, which cannot be read back: {e}")),
                // doc comments have no place on a single line
                Ok(b) if b != *v && docs => {
                    let text2 = L::compact(&b);
                    if text2.as_deref() != Ok(&text) {
                        fail(l, "compact", format!("written as {text:?}, which reads {b:?}, which is written as {text2:?}"));
                    }
                }
                Ok(b) if b != *v => fail(l, "compact", format!("written as {text:?}, which reads {b:?}")),
                Ok(_) => {}
            }
        }
    }
}

pub struct Case {
    name: String,
    count: usize,
    show: Box<dyn Fn(usize) -> String + Sync + Send>,
    run: Box<dyn Fn(usize, &mut Local) + Sync + Send>,
}

fn short(s: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in s.chars() {
        match c {
            ':' => word.clear(),
            c if c.is_alphanumeric() || c == '_' => word.push(c),
            c => {
                out.push_str(&word);
                word.clear();
                out.push(c);
            }
        }
    }
    out + &word
}

pub fn reg<L: Lib, T: V + Sync + Send>(n: usize, out: &mut Vec<Case>) {
    let vals = std::sync::Arc::new(T::vals(n));
    if vals.is_empty() {
        return;
    }
    let name = short(std::any::type_name::<T>());
    let (v2, n2) = (vals.clone(), name.clone());
    out.push(Case {
        count: vals.len(),
        show: Box::new(move |i| format!("{:?}", v2[i])),
        run: Box::new(move |i, l| L::check::<T>(&vals[i], &|| format!("{n2} {:?}", vals[i]), l)),
        name,
    });
}

fn scalars<L: Lib>(out: &mut Vec<Case>) {
    macro_rules! all { ($($t:ty)*) => {$( reg::<L, $t>(99, out); reg::<L, Option<$t>>(99, out); reg::<L, Vec<$t>>(9, out); reg::<L, Enum<$t>>(99, out); reg::<L, New<$t>>(99, out); )*} }
    all!(() u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool char f32 f64 String Tree);
}
fn w1<L: Lib, T: V + Sync + Send>(n: usize, out: &mut Vec<Case>) {
    reg::<L, One<T>>(n, out);
    reg::<L, Two<T>>(n, out);
    reg::<L, Wide<T>>(n, out);
    reg::<L, Skip<T>>(n, out);
    reg::<L, New<T>>(n, out);
    reg::<L, Enum<T>>(n, out);
    reg::<L, Option<T>>(n, out);
    reg::<L, Vec<T>>(n, out);
    reg::<L, Box<T>>(n, out);
    reg::<L, (T, T)>(n, out);
    reg::<L, HashMap<String, T>>(n, out);
    reg::<L, BTreeMap<String, T>>(n, out);
}
fn w2<L: Lib, T: V + Sync + Send>(n: usize, out: &mut Vec<Case>) {
    w1::<L, Two<T>>(n, out);
    w1::<L, Skip<T>>(n, out);
    w1::<L, New<T>>(n, out);
    w1::<L, Enum<T>>(n, out);
    w1::<L, Option<T>>(n, out);
    w1::<L, Vec<T>>(n, out);
    w1::<L, (T, u8)>(n, out);
    w1::<L, BTreeMap<String, T>>(n, out);
}
fn w3<L: Lib, T: V + Sync + Send>(n: usize, out: &mut Vec<Case>) {
    w1::<L, Vec<Enum<T>>>(n, out);
    w1::<L, Enum<Vec<T>>>(n, out);
    w1::<L, Enum<Enum<T>>>(n, out);
    w1::<L, Option<Enum<T>>>(n, out);
    w1::<L, Enum<Option<T>>>(n, out);
    w1::<L, Vec<Vec<T>>>(n, out);
    w1::<L, Enum<BTreeMap<String, T>>>(n, out);
    w1::<L, BTreeMap<String, Enum<T>>>(n, out);
    w1::<L, Vec<Option<T>>>(n, out);
}

pub fn facet_only<L: Lib>(n: usize, out: &mut Vec<Case>) {
    let m = n / 4;
    macro_rules! all { ($($t:ty)*) => {$( reg::<L, $t>(n, out); reg::<L, Option<$t>>(m, out); reg::<L, Vec<$t>>(2, out); reg::<L, Enum<$t>>(m, out); reg::<L, BTreeMap<String, $t>>(2, out); )*} }
    macro_rules! wrap { ($($w:ident)*) => {$( all!($w<String> $w<u8> $w<Option<String>> $w<Vec<String>> $w<Enum<String>> $w<One<String>> $w<BTreeMap<String, String>>); )*} }
    all!(OddName KeyCase DocKeys Untagged Catch Num Shared);
    wrap!(Flat TupleStruct Docs Internal Adjacent Keyed);
    all!(Result<u8, ()> Result<Option<u8>, String> Result<Vec<u8>, Option<String>> Result<One<u8>, Two<u8>> Result<Enum<u8>, BTreeMap<String, u8>> Result<Result<u8, String>, bool> Result<(), (u8, String)>);
    // (enums in a flattened map are not read back by the facet library itself)
    all!(Rest<String> Rest<u8> Rest<Option<String>> Rest<Vec<String>> Rest<One<String>> Rest<BTreeMap<String, String>>);
}

pub fn run<L: Lib>(ctx: &Ctx, extra: Vec<Case>) {
    let space = |name: &str, cases: Vec<Case>, per_type: usize| {
        let mut starts = vec![0u64];
        for c in &cases {
            starts.push(starts.last().unwrap() + c.count as u64);
        }
        let find = |i: u64| {
            let k = starts.partition_point(|s| *s <= i) - 1;
            (&cases[k], (i - starts[k]) as usize)
        };
        ctx.space(
            name,
            json!({"types": cases.len(), "values_per_type": per_type, "type_names": cases.iter().take(400).map(|c| c.name.clone()).collect::<Vec<_>>()}),
            *starts.last().unwrap(),
            |i| {
                let (c, j) = find(i);
                format!("{} {} {}", L::NAME, c.name, (c.show)(j))
            },
            |i, l| {
                let (c, j) = find(i);
                (c.run)(j, l);
                if i % 1009 == 5 {
                    l.sample(i, json!(format!("{} {}", c.name, (c.show)(j))));
                }
            },
        );
    };
    let mut v = vec![];
    scalars::<L>(&mut v);
    space("scalar types", v, 99);
    let n = ctx.pick(6, 40);
    let mut v = vec![];
    w1::<L, String>(99, &mut v);
    w1::<L, u8>(n, &mut v);
    w1::<L, Option<String>>(n, &mut v);
    w1::<L, ()>(n, &mut v);
    space("containers", v, n);
    let mut v = vec![];
    w2::<L, String>(n, &mut v);
    w2::<L, ()>(n, &mut v);
    space("containers of containers", v, n);
    let mut v = vec![];
    w3::<L, String>(n, &mut v);
    space("three levels", v, n);

    if !extra.is_empty() {
        space("facet attributes", extra, n);
    }

    // every short text, in every position
    const CHARS: &[&str] = &[
        "a", " ", "\n", "\t", "\r", "\"", "\\", "#", "r", "@", "<", "<<", ">", "/", "=", "{", "}", "(", ")", ",", ".", "-", "1", "é", "\u{0}", "TEXT", "true", "null",
    ];
    let q = Seqs::new(CHARS.len(), 0, ctx.pick(3, 4));
    ctx.space(
        "texts",
        json!({"alphabet": CHARS, "max_length": ctx.pick(3, 4), "positions": 6}),
        q.total(),
        |i| format!("{} text {:?}", L::NAME, q.concat(i, CHARS)),
        |i, l| {
            let t = q.concat(i, CHARS);
            let key = || format!("text {t:?}");
            type Pos = (Vec<String>, Enum<String>, BTreeMap<String, Option<String>>);
            match i % 3 {
                0 => L::check::<Two<Enum<String>>>(&Two { first_one: Enum::Newtype(t.clone()), second: Enum::Record { x_y: t.clone(), z: Some(t.clone()) }, last_one: 1 }, &key, l),
                1 => L::check::<Vec<(String, BTreeMap<String, String>)>>(&vec![(t.clone(), BTreeMap::from([(t.clone(), t.clone()), ("zz".into(), t.clone())])); 2], &key, l),
                _ => {}
            }
            let _ = std::marker::PhantomData::<Pos>;
            L::check::<BTreeMap<String, Vec<Option<String>>>>(&BTreeMap::from([(t.clone(), vec![Some(t.clone()), None, Some(t.clone())])]), &key, l);
        },
    );
}

pub fn gen_types<L: Lib>(out: &mut Vec<Case>) {
    use crate::gen_types::*;
    macro_rules! all { ($($t:ty)*) => {$( reg::<L, $t>(64, out); reg::<L, Option<$t>>(16, out); reg::<L, Vec<$t>>(4, out); reg::<L, BTreeMap<String, $t>>(4, out); )*} }
    all!(SameNames Defaults Std Nested Expr);
}

pub fn facet(ctx: &Ctx) {
    let mut extra = vec![];
    facet_only::<FacetLib>(ctx.pick(24, 60), &mut extra);
    gen_types::<FacetLib>(&mut extra);
    run::<FacetLib>(ctx, extra)
}
pub fn serde(ctx: &Ctx) {
    run::<SerdeLib>(ctx, vec![]);
    // one instance of what the facet library writes in a form of its own
    ctx.sequential("results", json!({"values": 1}), |l| {
        let v = One { a: Ok::<u8, String>(1) };
        let (a, b) = (serde_styx::to_string(&v), facet_styx::to_string(&v));
        l.exec(2);
        if a.as_ref().ok() != b.as_ref().ok() {
            l.violation(viol("Result", format!("written as {a:?} by serde_styx and as {b:?} by facet-styx")));
        }
    });
}
