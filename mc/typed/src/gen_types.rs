//! Types whose generated schemas need care: defaults, equal names, doc comments, standard library types.
use crate::facet_only::no_serde;
use crate::types::*;
use facet::Facet;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::num::*;
use std::sync::Arc;

macro_rules! v {
    ($($t:ty: $null:expr, |$n:ident| $vals:expr;)*) => {$(
        no_serde!(;$t);
        impl V for $t { const NULL: bool = $null; fn vals($n: usize) -> Vec<Self> { $vals } }
    )*};
}

pub mod one {
    use super::*;
    #[derive(Facet, Clone, Debug, PartialEq)]
    pub struct Item {
        pub x: u8,
    }
    #[derive(Facet, Clone, Debug, PartialEq)]
    #[repr(u8)]
    pub enum Kind {
        A,
        B(Box<Item>),
    }
}
pub mod two {
    use super::*;
    #[derive(Facet, Clone, Debug, PartialEq)]
    pub struct Item {
        pub y: Vec<String>,
        pub next: Option<Box<Item>>,
        pub kind: Kind,
    }
    #[derive(Facet, Clone, Debug, PartialEq)]
    #[repr(u8)]
    pub enum Kind {
        A(u8),
        C,
    }
}
/// Different types of the same name.
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct SameNames {
    pub first: one::Item,
    pub second: two::Item,
    pub kinds: Vec<one::Kind>,
    pub map: BTreeMap<String, two::Kind>,
    pub nested: One<One<u8>>,
    pub option: One<Option<One<String>>>,
}
fn same_names(n: usize) -> Vec<SameNames> {
    let mut out = vec![];
    for i in 0..n.min(8) {
        let leaf = two::Item { y: vec!["s".into(); i % 3], next: None, kind: if i % 2 == 0 { two::Kind::A(1) } else { two::Kind::C } };
        out.push(SameNames {
            first: one::Item { x: i as u8 },
            second: two::Item { next: (i > 1).then(|| Box::new(leaf.clone())), ..leaf },
            kinds: vec![one::Kind::A, one::Kind::B(Box::new(one::Item { x: 1 }))][..i % 3].to_vec(),
            map: BTreeMap::from([("k".into(), two::Kind::C), ("@".into(), two::Kind::A(4))]),
            nested: One { a: One { a: 1 } },
            option: One { a: (i % 2 == 0).then(|| One { a: "x".into() }) },
        });
    }
    out
}

fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}
fn four(n: &u16) -> bool {
    *n == 4
}
#[derive(Facet, Clone, Debug, PartialEq, Default)]
pub struct Part {
    #[facet(default, skip_serializing_if = is_default)]
    pub on: bool,
    #[facet(default, skip_serializing_if = is_default)]
    pub names: Vec<String>,
}
#[derive(Facet, Clone, Copy, Debug, PartialEq, Default)]
#[facet(rename_all = "kebab-case")]
#[repr(u8)]
pub enum Level {
    #[default]
    VeryLow,
    High,
}
/// Fields that may be left out, each in its own way.
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Defaults {
    #[facet(default, skip_serializing_if = is_default)]
    pub number: i64,
    #[facet(default = 4, skip_serializing_if = four)]
    pub four: u16,
    #[facet(default, skip_serializing_if = is_default)]
    pub text: String,
    #[facet(default = "a b\n\"@ c".to_string())]
    pub odd: String,
    #[facet(default, skip_serializing_if = is_default)]
    pub list: Vec<Part>,
    #[facet(default, skip_serializing_if = is_default)]
    pub map: BTreeMap<String, u8>,
    #[facet(default, skip_serializing_if = is_default)]
    pub option: Option<String>,
    #[facet(default = Some(Level::High))]
    pub some: Option<Level>,
    #[facet(default, skip_serializing_if = is_default)]
    pub level: Level,
    #[facet(default, skip_serializing_if = is_default)]
    pub part: Part,
    #[facet(default = Part { on: true, names: vec!["x y".into(), "".into()] })]
    pub full: Part,
    #[facet(default)]
    pub ratio: f64,
    #[facet(skip, default)]
    pub cache: u32,
    #[facet(skip_serializing, default)]
    pub secret: String,
}
fn defaults(n: usize) -> Vec<Defaults> {
    let part = |i: usize| Part { on: i & 1 > 0, names: vec!["n".into(); i / 2 % 3] };
    (0..n)
        .map(|i| Defaults {
            number: [0, i64::MIN][i % 2],
            four: [4, 5][i / 2 % 2],
            text: ["", "x"][i / 4 % 2].into(),
            odd: STRINGS[i % STRINGS.len()].into(),
            list: (0..i % 3).map(part).collect(),
            map: (0..i / 2 % 2).map(|j| (j.to_string(), 1)).collect(),
            option: (i % 3 == 1).then(|| "z".into()),
            some: [None, Some(Level::High), Some(Level::VeryLow)][i / 3 % 3],
            level: [Level::VeryLow, Level::High][i / 5 % 2],
            part: part(i),
            full: part(i + 1),
            ratio: [0.0, 1.5, -1e300][i % 3],
            cache: 0,
            secret: String::new(),
        })
        .collect()
}

/// What the standard library offers to put in a configuration.
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Std {
    pub nonzero: NonZeroU16,
    pub boxed: Box<str>,
    pub shared: Arc<One<u8>>,
    pub set: BTreeSet<u8>,
    pub words: std::collections::HashSet<String>,
    pub array: [Option<String>; 2],
    pub hash: HashMap<String, Vec<Level>>,
    pub unit: (),
    pub empty: Empty,
    pub empty_object: EmptyObject,
    pub single: (String,),
    pub transparent: Transparent,
    pub character: char,
    pub cow: std::borrow::Cow<'static, str>,
}
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Empty;
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct EmptyObject {}
#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(transparent)]
pub struct Transparent(pub Vec<u8>);
fn std_types(n: usize) -> Vec<Std> {
    (0..n)
        .map(|i| Std {
            nonzero: NonZeroU16::new(1 + i as u16).unwrap(),
            boxed: STRINGS[i % STRINGS.len()].into(),
            shared: Arc::new(One { a: i as u8 }),
            set: (0..i as u8 % 3).collect(),
            words: STRINGS[..i % 2].iter().map(|s| s.to_string()).collect(),
            array: [None, (i % 2 == 0).then(|| "x".into())],
            hash: HashMap::from([(STRINGS[i % STRINGS.len()].into(), vec![Level::High; i % 3])]),
            unit: (),
            empty: Empty,
            empty_object: EmptyObject {},
            single: ("s".into(),),
            transparent: Transparent(vec![1; i % 3]),
            character: ['x', '@', '\n'][i % 3],
            cow: STRINGS[i % STRINGS.len()].into(),
        })
        .collect()
}

/// Flattening, twice and together with a map.
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Nested {
    #[facet(flatten)]
    pub outer: Middle,
    pub own: u8,
    #[facet(flatten)]
    pub rest: BTreeMap<String, i64>,
}
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Middle {
    pub mid: Option<String>,
    #[facet(flatten)]
    pub part: Deep,
}
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Deep {
    pub deep: Vec<Deep>,
    pub level: Option<Level>,
}
fn nested(n: usize) -> Vec<Nested> {
    (0..n)
        .map(|i| {
            let leaf = Deep { deep: vec![], level: [None, Some(Level::High)][i % 2] };
            Nested {
                outer: Middle { mid: (i % 3 > 0).then(|| "m".into()), part: Deep { deep: vec![leaf.clone(); i % 3], ..leaf } },
                own: 1,
                rest: (0..i / 2 % 3).map(|j| (format!("k {j}"), j as i64)).collect(),
            }
        })
        .collect()
}
/// Enum variants with flattened and defaulted fields, results, recursion through an enum.
#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(rename_all = "snake_case")]
#[repr(u8)]
pub enum Expr {
    Number(f64),
    Var(String),
    Add(Box<Expr>, Box<Expr>),
    Call {
        name: String,
        args: Vec<Expr>,
        #[facet(default, skip_serializing_if = is_default)]
        strict: bool,
    },
    Nothing,
    #[facet(rename = "LET-it")]
    Let { #[facet(flatten)] part: Part, body: Box<Expr> },
    List(Vec<Expr>),
    Named(BTreeMap<String, Expr>),
    Maybe(Option<Box<Expr>>),
}
fn exprs(n: usize) -> Vec<Expr> {
    let mut level = vec![Expr::Number(1.5), Expr::Var("v".into()), Expr::Nothing, Expr::Maybe(None)];
    for _ in 0..2 {
        let mut next = level.clone();
        for (i, a) in level.iter().enumerate() {
            let b = Box::new(a.clone());
            next.push(Expr::Add(b.clone(), Box::new(level[i / 2].clone())));
            next.push(Expr::Call { name: "f".into(), args: vec![a.clone(); i % 3], strict: i % 2 == 0 });
            next.push(Expr::Let { part: Part { on: i % 2 == 0, names: vec![] }, body: b.clone() });
            next.push(Expr::List(vec![a.clone(), Expr::Nothing]));
            next.push(Expr::Named(BTreeMap::from([("k".into(), a.clone())])));
            next.push(Expr::Maybe(Some(b)));
        }
        level = next;
    }
    spread(n.max(60), level)
}
/// Doc comments on everything.
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Commented {
    /// one line
    pub a: u8,
    /// two
    ///   lines, the second indented
    pub b: Option<CommentedKind>,
    /// a gap
    ///
    /// after it "quotes" \\ and @tag {braces}
    pub c: Vec<u8>,
    pub none: u8,
    /// on a default
    #[facet(default)]
    pub d: u8,
    #[facet(flatten)]
    pub part: CommentedPart,
}
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct CommentedPart {
    /// of a flattened struct
    pub e: u8,
}
#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum CommentedKind {
    /// a variant
    Unit,
    /// with fields
    ///
    /// more
    Fields {
        /// of a field
        f: u8,
    },
    Plain(u8),
}
impl Commented {
    /// Names with their comments, sorted. (The fields of a variant are below the schema's types.)
    pub fn comments() -> Vec<(String, Vec<String>)> {
        let mut v: Vec<(String, Vec<String>)> = [
            ("a", vec!["one line"]),
            ("b", vec!["two", "  lines, the second indented"]),
            ("c", vec!["a gap", "", "after it \"quotes\" \\\\ and @tag {braces}"]),
            ("none", vec![]),
            ("d", vec!["on a default"]),
            ("e", vec!["of a flattened struct"]),
            ("Unit", vec!["a variant"]),
            ("Fields", vec!["with fields", "", "more"]),
            ("Plain", vec![]),
        ]
        .into_iter()
        .map(|(a, b)| (a.to_string(), b.into_iter().map(String::from).collect()))
        .collect();
        v.sort();
        v
    }
}
v! {
    SameNames: false, |n| same_names(n);
    Defaults: false, |n| defaults(n);
    Std: false, |n| std_types(n);
    Nested: false, |n| nested(n);
    Expr: false, |n| exprs(n);
}
