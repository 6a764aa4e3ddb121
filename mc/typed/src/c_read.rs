//! C23: a Rust value read from a document is the one the document describes; documents that are
//! invalid, or do not describe a value of the type, are refused.
use crate::c_round::{FacetLib, Lib, SerdeLib};
use crate::refdoc::{self, K, Out, R};
use facet::Facet;
use mc_engine::*;
use serde::Deserialize;
use serde::de::DeserializeOwned;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub enum No {
    /// Not a value of the type.
    Reject,
    /// The same, but facet-format is lenient here: a unit is read as the default scalar, an
    /// empty sequence as an empty map, an empty object or another tag
    /// as no payload, an object as a tuple.
    Lenient,
    /// Nothing is claimed (keys that are not plain names).
    Undecided,
}
use No::*;

/// What a document tree describes as a value of the type.
pub trait Of: Facet<'static> + DeserializeOwned + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn of(r: &R) -> Result<Self, No>;
    fn absent() -> Option<Self> {
        None
    }
}
fn text(r: &R) -> Result<&str, No> {
    match r {
        R::Scalar(_, s) => Ok(s),
        R::Unit => Err(Lenient),
        _ => Err(Reject),
    }
}
impl Of for String {
    const NAME: &'static str = "String";
    fn of(r: &R) -> Result<Self, No> {
        text(r).map(String::from)
    }
}
macro_rules! parsed { ($($t:ty)*) => {$(
    impl Of for $t {
        const NAME: &'static str = stringify!($t);
        fn of(r: &R) -> Result<Self, No> { text(r)?.parse().map_err(|_| Reject) }
    }
)*} }
parsed!(bool u8 i8 u16 i16 u32 i32 i64 u64 i128 u128 char);
impl Of for () {
    const NAME: &'static str = "()";
    fn of(r: &R) -> Result<Self, No> {
        match r {
            R::Unit => Ok(()),
            R::Obj(es) if es.is_empty() => Err(Lenient),
            R::Tag(..) => Err(Lenient),
            _ => Err(Reject),
        }
    }
}
impl<T: Of> Of for Option<T> {
    const NAME: &'static str = "Option";
    fn of(r: &R) -> Result<Self, No> {
        match r {
            R::Unit => Ok(None),
            _ => T::of(r).map(Some),
        }
    }
    fn absent() -> Option<Self> {
        Some(None)
    }
}
impl<T: Of> Of for Box<T> {
    const NAME: &'static str = "Box";
    fn of(r: &R) -> Result<Self, No> {
        T::of(r).map(Box::new)
    }
}
impl<T: Of> Of for Vec<T> {
    const NAME: &'static str = "Vec";
    fn of(r: &R) -> Result<Self, No> {
        match r {
            R::Seq(v) => v.iter().map(T::of).collect(),
            _ => Err(Reject),
        }
    }
}
/// The entries by name, sibling dotted paths joined.
fn entries(r: &R) -> Result<Vec<(String, R)>, No> {
    let es = match r {
        R::Obj(es) => es,
        R::Seq(v) if v.is_empty() => return Err(Lenient),
        _ => return Err(Reject),
    };
    let mut out: Vec<(String, R)> = vec![];
    for e in es {
        let K::Scalar(_, k) = &e.key else { return Err(Undecided) };
        match out.iter_mut().find(|(n, _)| n == k) {
            None => out.push((k.clone(), e.val.clone())),
            Some((_, R::Obj(old))) => {
                let R::Obj(new) = &e.val else { unreachable!("{r:?}") };
                old.extend(new.iter().cloned());
            }
            Some(_) => unreachable!("{r:?}"),
        }
    }
    Ok(out)
}
impl<T: Of> Of for BTreeMap<String, T> {
    const NAME: &'static str = "Map";
    fn of(r: &R) -> Result<Self, No> {
        entries(r)?.into_iter().map(|(k, v)| Ok((k, T::of(&v)?))).collect()
    }
}
impl<A: Of, B: Of> Of for (A, B) {
    const NAME: &'static str = "pair";
    fn of(r: &R) -> Result<Self, No> {
        match r {
            R::Seq(v) if v.len() == 2 => Ok((A::of(&v[0])?, B::of(&v[1])?)),
            R::Obj(_) => Err(Lenient),
            _ => Err(Reject),
        }
    }
}
macro_rules! record {
    ($n:ident { $($f:ident: $t:ty),* }) => {
        #[derive(Facet, Deserialize, Debug, PartialEq)]
        pub struct $n { $(pub $f: $t),* }
        impl Of for $n {
            const NAME: &'static str = stringify!($n);
            fn of(r: &R) -> Result<Self, No> {
                let mut es = entries(r)?;
                Ok($n { $($f: match es.iter().position(|(k, _)| k == stringify!($f)) {
                    Some(i) => <$t>::of(&es.swap_remove(i).1)?,
                    None => <$t as Of>::absent().ok_or(Reject)?,
                }),* })
            }
        }
    };
}
record!(Rec { a: Option<String>, b: Option<Box<Rec>>, k: Option<Vec<String>> });
record!(Need { a: Inner, b: String });
record!(Inner { a: Option<String>, b: Option<String>, c: Option<()> });
record!(Texts { k: Option<String>, x: Option<String> });
record!(Tags { k: Option<EText>, x: Option<ESeq>, y: Option<Vec<ERec>> });

/// Enums with the tags `t` and `u`.
macro_rules! choice {
    ($n:ident: $body:tt, $t:expr) => {
        choice!(@def $n $body);
        impl Of for $n {
            const NAME: &'static str = stringify!($n);
            fn of(r: &R) -> Result<Self, No> {
                match r {
                    R::Tag(n, p) if n == "t" => { let f: fn(&R) -> Result<Self, No> = $t; f(p) }
                    R::Tag(n, p) if n == "u" => match &**p { R::Unit => Ok($n::U), R::Obj(es) if es.is_empty() => Err(Lenient), R::Tag(..) => Err(Lenient), _ => Err(Reject) },
                    // a bare name may stand for a unit variant
                    R::Scalar(..) => Err(Undecided),
                    _ => Err(Reject),
                }
            }
        }
    };
    (@def $n:ident { $($b:tt)* }) => {
        #[derive(Facet, Deserialize, Debug, PartialEq)]
        #[facet(rename_all = "lowercase")]
        #[serde(rename_all = "lowercase")]
        #[repr(u8)]
        pub enum $n { $($b)* , U }
    };
}
choice!(EText: { T(String) }, |p| String::of(p).map(EText::T));
choice!(ENum: { T(u8) }, |p| u8::of(p).map(ENum::T));
choice!(EOpt: { T(Option<String>) }, |p| Option::of(p).map(EOpt::T));
choice!(ESeq: { T(Vec<String>) }, |p| Vec::of(p).map(ESeq::T));
choice!(EUnit: { T }, |p| <()>::of(p).map(|_| EUnit::T));
choice!(ENest: { T(Box<ENest>) }, |p| Box::of(p).map(ENest::T));
choice!(EPair: { T(String, Option<String>) }, |p| <(String, Option<String>)>::of(p).map(|(a, b)| EPair::T(a, b)));
choice!(ERec: { T { k: Option<String>, x: Option<String> } }, |p| Texts::of(p).map(|t| ERec::T { k: t.k, x: t.x }));
choice!(EMap: { T(BTreeMap<String, String>) }, |p| BTreeMap::of(p).map(EMap::T));

type Map<T> = BTreeMap<String, T>;

fn one<L: Lib, T: Of>(src: &str, r: &Out, ty: &str, l: &mut Local) {
    l.exec(1);
    let got = L::read::<T>(src);
    let key = || format!("{} {ty} {src}", L::NAME);
    match r {
        Out::Unspecified(_) => l.class("unspecified"),
        Out::Reject(w) => {
            l.class("invalid");
            if let Ok(v) = got {
                l.violation(viol(key(), format!("the document is invalid ({w}), but is read as {v:?}")));
            }
        }
        Out::Accept(es) => {
            let skip = |e: &&refdoc::E| !matches!(&e.key, K::Tag(n, None) if n == "schema");
            match T::of(&R::Obj(es.iter().filter(skip).cloned().collect())) {
                Err(Undecided) => l.class("undecided"),
                Err(Lenient) if L::NAME == "facet" => l.class("lenient"),
                Err(Reject | Lenient) => {
                    l.class("not of the type");
                    if let Ok(v) = got {
                        l.violation(viol(key(), format!("does not describe a value of the type, but is read as {v:?}")));
                    }
                }
                Ok(want) => {
                    l.class("read");
                    l.outcome(&format!("{ty} {want:?}"));
                    match got {
                        Ok(v) if v == want => {}
                        o => l.violation(viol(key(), format!("expected {want:?}, got {o:?}"))),
                    }
                }
            }
        }
    }
}

macro_rules! types {
    ($name:ident: $($t:ty),* $(,)?) => {
        fn $name(src: &str, l: &mut Local) {
            let r = refdoc::parse(src);
            $( one::<FacetLib, $t>(src, &r, stringify!($t), l); one::<SerdeLib, $t>(src, &r, stringify!($t), l); )*
        }
    };
}
types!(general: Map<String>, Map<Option<String>>, Map<Vec<String>>, Map<Map<String>>, Map<Option<Map<Option<String>>>>, Map<Map<Map<String>>>, Rec, Need, Map<Vec<Map<Option<String>>>>, Map<Vec<(String, String)>>);
types!(tags: Map<EText>, Map<EOpt>, Map<ESeq>, Map<EUnit>, Map<ENest>, Map<EPair>, Map<ERec>, Map<EMap>, Map<Vec<EText>>, Map<Option<EUnit>>, Map<Vec<EUnit>>, Map<ENum>, Tags);
types!(scalars: Map<String>, Map<u8>, Map<i8>, Map<u16>, Map<i16>, Map<u32>, Map<i32>, Map<i64>, Map<u64>, Map<i128>, Map<u128>, Map<bool>, Map<char>, Map<Option<u8>>, Map<Vec<i64>>);

fn sweep(ctx: &Ctx, name: &str, alphabet: &'static [&'static str], max: u32, contexts: &'static [(&'static str, &'static str)], f: fn(&str, &mut Local)) {
    let s = Seqs::new(alphabet.len(), 0, max);
    let n = contexts.len() as u64;
    let build = |i: u64| {
        let (p, q) = contexts[(i % n) as usize];
        format!("{p}{}{q}", s.concat(i / n, alphabet))
    };
    ctx.space(name, json!({"alphabet": alphabet, "max_length": max, "contexts": contexts}), s.total() * n, build, |i, l| {
        let src = build(i);
        f(&src, l);
        if i % 1009 == 500 {
            l.sample(i, json!(src));
        }
    });
}

pub fn run(ctx: &Ctx) {
    ctx.assume("what a document means is docs/content/reference/spec/parser.md (as in C01-C03); what it means for a type: scalars are text parsed as the type asks, @ is None or unit, tags name variants, sibling dotted paths are one object, unknown fields are ignored");
    const FULL: &[&str] = &[" ", "\n", "a ", "b", "a.b", "\"a\"", "r#\"k\"#", "@", "@t", "{", "}", "(", ")", ",", "k>", "// c\n", "/// d\n", "<<A\n x\n  A\n", "@schema "];
    sweep(ctx, "full", FULL, ctx.pick(4, 5), &[("", "")], general);
    const NESTED: &[&str] = &["a ", "b ", "x", "{", "} ", "(", ") ", "\n", ",", "@ "];
    sweep(ctx, "nested", NESTED, ctx.pick(5, 6), &[("", ""), ("a {", "}"), ("k (", ")")], general);
    const ATTR: &[&str] = &["a>", "b>", "x", " ", "\n", "(", ")", "{", "}", "@"];
    sweep(ctx, "attributes", ATTR, ctx.pick(5, 6), &[("a ", ""), ("k (", ")")], general);
    const TAG: &[&str] = &["k ", "@t", "@u", "@", "/@t", "\"p\"", "r\"1\"", "{", "}", "(", ")", " ", "x"];
    sweep(ctx, "tags", TAG, ctx.pick(4, 5), &[("k ", ""), ("k (", ")"), ("k @t", ""), ("", "")], tags);
    const NUM: &[&str] = &["0", "1", "-", "+", "2", "5", "6", "e", ".", "_", "\u{661}", "x", "true", "false"];
    sweep(ctx, "scalars", NUM, ctx.pick(4, 5), &[("k ", ""), ("k \"", "\""), ("k <<A\n", "A")], scalars);
    const EDGE: &[&str] = &[
        "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727",
        "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "340282366920938463463374607431768211455",
        "340282366920938463463374607431768211456", "00", "-0", "True", "é", "\"\"", "\" 1\"", "\"é\"", "\"\\n\"", "😀", "\"é \"",
    ];
    sweep(ctx, "limits", EDGE, 1, &[("k ", ""), ("k \"", "\""), ("k (", " 1)"), ("k (1 ", ")")], scalars);
    // histories of plain and dotted keys
    const KEYS: &[&str] = &["a x\n", "a.b x\n", "a.a y\n", "b x\n", "b.a x\n", "b.b.a z\n", "a.c\n", "b.b {a x}\n", "a {b x}\n", "a\n", "a.b.x y\n", "@schema s\n", "@schema @s{a x}\n", "@schema\n"];
    sweep(ctx, "paths", KEYS, ctx.pick(4, 5), &[("", ""), ("a {\n", "}")], general);
}
