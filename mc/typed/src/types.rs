//! A family of user types, closed under composition, with every value of each type in a fixed order.
use facet::Facet;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

pub trait V: Facet<'static> + Clone + PartialEq + Debug + Serialize + DeserializeOwned + 'static {
    /// Can be written as `@` or as nothing at all.
    const NULL: bool = false;
    /// The first `n` values.
    fn vals(n: usize) -> Vec<Self>;
}

fn first<T: Clone>(n: usize, v: &[T]) -> Vec<T> {
    v[..n.min(v.len())].to_vec()
}
/// At most about `n` of the values, evenly spaced.
pub fn spread<T>(n: usize, v: Vec<T>) -> Vec<T> {
    let step = v.len().div_ceil(n).max(1);
    v.into_iter().step_by(step).collect()
}
/// All pairs, about `n` of them.
fn pairs<A: V, B: V>(n: usize) -> Vec<(A, B)> {
    let k = ((n as f64).sqrt().ceil() as usize).max(2);
    let (a, b) = (spread(4 * k, A::vals(k)), spread(4 * k, B::vals(k)));
    let mut out = vec![];
    for x in &a {
        for y in &b {
            out.push((x.clone(), y.clone()));
        }
    }
    out
}

macro_rules! leaf {
    ($($t:ty => [$($v:expr),* $(,)?];)*) => {$(
        impl V for $t { fn vals(n: usize) -> Vec<Self> { first(n, &[$($v),*]) } }
    )*};
}
leaf! {
    u8 => [0, 255, 7]; u16 => [u16::MAX, 0]; u32 => [u32::MAX, 0]; u64 => [u64::MAX, 0, i64::MAX as u64 + 1]; u128 => [u128::MAX, 0, u64::MAX as u128 + 1];
    i8 => [-128, 127, 0]; i16 => [i16::MIN, i16::MAX]; i32 => [i32::MIN, i32::MAX, 0]; i64 => [i64::MIN, i64::MAX, 0, -1];
    i128 => [i128::MIN, i128::MAX, -1, i64::MIN as i128 - 1]; usize => [usize::MAX, 0]; isize => [isize::MIN, 0];
    bool => [true, false];
    char => ['x', ' ', '"', '\n', '@', 'é', '😀', '\\', '{', '1', ',', '/', '\u{0}', '\u{feff}'];
    f64 => [1.5, -0.0, 0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -1e21, 1e300, 0.1, 1.0, f64::INFINITY, f64::NEG_INFINITY, 123456789012345680.0];
    f32 => [0.1, -0.0, f32::MAX, f32::MIN_POSITIVE, 1e-45, 16777216.0, f32::INFINITY, 0.0];
}
pub const STRINGS: &[&str] = &[
    "x", "", "a b", "l1\nl2\n", "true", "1", "@", "\"q\\", "a.b", "null", "// c", "x{", "é\u{a0}", "a\r\nb", "<<A", "r#\"a\"#", "/// d", "a,b", " lead", "l1\nl2\nl3\n\n", "\u{0}", "k>v", "1.0", "-", "@t", "\t",
];
impl V for String {
    fn vals(n: usize) -> Vec<Self> {
        first(n, STRINGS).into_iter().map(String::from).collect()
    }
}
impl V for () {
    const NULL: bool = true;
    fn vals(_: usize) -> Vec<Self> {
        vec![()]
    }
}

impl<T: V> V for Option<T> {
    const NULL: bool = true;
    fn vals(n: usize) -> Vec<Self> {
        if T::NULL {
            return vec![]; // `Some(None)` and `None` are the same text: no claim
        }
        std::iter::once(None).chain(T::vals(n.saturating_sub(1).max(1)).into_iter().map(Some)).collect()
    }
}
impl<A: V, B: V> V for Result<A, B> {
    fn vals(n: usize) -> Vec<Self> {
        let (a, b) = (A::vals(n), B::vals(n));
        a.into_iter().map(Ok).chain(b.into_iter().map(Err)).collect()
    }
}
impl<T: V> V for Vec<T> {
    fn vals(n: usize) -> Vec<Self> {
        let mut out = vec![vec![]];
        out.extend(T::vals(n.div_ceil(2)).into_iter().map(|x| vec![x]));
        out.extend(pairs::<T, T>(n).into_iter().map(|(a, b)| vec![a, b]));
        if let Some(x) = T::vals(1).first() {
            out.push(vec![x.clone(); 9]);
        }
        out
    }
}
impl<T: V> V for Box<T> {
    const NULL: bool = T::NULL;
    fn vals(n: usize) -> Vec<Self> {
        T::vals(n).into_iter().map(Box::new).collect()
    }
}
impl<T: V> V for HashMap<String, T> {
    fn vals(n: usize) -> Vec<Self> {
        let mut out = vec![HashMap::new()];
        out.extend(pairs::<String, T>(n).into_iter().map(|(k, v)| HashMap::from([(k, v)])));
        out
    }
}
impl<T: V> V for BTreeMap<String, T> {
    fn vals(n: usize) -> Vec<Self> {
        let mut out = vec![BTreeMap::new()];
        for (i, (a, b)) in pairs::<T, T>(n).into_iter().enumerate() {
            let k = STRINGS[i % STRINGS.len()];
            out.push(BTreeMap::from([("first".to_string(), a.clone()), (k.to_string(), b)]));
            out.push(BTreeMap::from([(k.to_string(), a)]));
        }
        out
    }
}
impl<A: V, B: V> V for (A, B) {
    fn vals(n: usize) -> Vec<Self> {
        pairs(n)
    }
}

macro_rules! ty {
    ($(#[$m:meta])* struct $N:ident { $($body:tt)* } null = $null:expr; |$n:ident| $vals:expr) => {
        #[derive(Facet, Serialize, Deserialize, Clone, Debug, PartialEq)]
        $(#[$m])*
        pub struct $N<T> { $($body)* }
        impl<T: V> V for $N<T> { const NULL: bool = $null; fn vals($n: usize) -> Vec<Self> { $vals } }
    };
}
ty!(struct One { pub a: T } null = false; |n| T::vals(n).into_iter().map(|a| One { a }).collect());
ty!(#[serde(rename_all = "kebab-case")] #[facet(rename_all = "kebab-case")]
    struct Two { pub first_one: T, #[serde(rename = "a b.c{d")] #[facet(rename = "a b.c{d")] pub second: T, pub last_one: u8 } null = false;
    |n| pairs::<T, T>(n).into_iter().map(|(first_one, second)| Two { first_one, second, last_one: 3 }).collect());
ty!(struct Wide { pub before: u8, pub t: T, pub after: Option<String>, pub list: Vec<u8>, pub end: bool } null = false;
    |n| T::vals(n).into_iter().enumerate().map(|(i, t)| Wide { before: 1, t, after: (i % 2 == 0).then(|| "z y".into()), list: vec![1; i % 3], end: true }).collect());
ty!(struct Skip { #[serde(default, skip_serializing_if = "Option::is_none")] #[facet(skip_serializing_if = Option::is_none)] pub x: Option<String>, pub t: T, #[serde(default, skip_serializing_if = "Option::is_none")] #[facet(skip_serializing_if = Option::is_none)] pub z: Option<u8> } null = false;
    |n| T::vals(n).into_iter().enumerate().map(|(i, t)| Skip { x: (i & 1 == 0).then(|| "s".into()), t, z: (i & 2 == 0).then_some(9) }).collect());

#[derive(Facet, Serialize, Deserialize, Clone, Debug, PartialEq)]
#[facet(transparent)]
pub struct New<T>(pub T);
impl<T: V> V for New<T> {
    const NULL: bool = T::NULL;
    fn vals(n: usize) -> Vec<Self> {
        T::vals(n).into_iter().map(New).collect()
    }
}

#[derive(Facet, Serialize, Deserialize, Clone, Debug, PartialEq)]
#[facet(rename_all = "kebab-case")]
#[serde(rename_all = "kebab-case")]
#[repr(u8)]
pub enum Enum<T> {
    UnitCase,
    Newtype(T),
    Pair(T, u8),
    Record { x_y: T, z: Option<String> },
}
impl<T: V> V for Enum<T> {
    fn vals(n: usize) -> Vec<Self> {
        let mut out = vec![Enum::UnitCase];
        for (i, t) in T::vals(n).into_iter().enumerate() {
            out.push(Enum::Newtype(t.clone()));
            out.push(Enum::Pair(t.clone(), 4));
            out.push(Enum::Record { x_y: t, z: (i % 2 == 1).then(|| "w".into()) });
        }
        out
    }
}

#[derive(Facet, Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tree {
    pub name: String,
    pub kids: Vec<Tree>,
    pub left: Option<Box<Tree>>,
}
impl V for Tree {
    fn vals(n: usize) -> Vec<Self> {
        let leaf = |s: &str| Tree { name: s.into(), kids: vec![], left: None };
        let mut level: Vec<Tree> = STRINGS[..3].iter().map(|s| leaf(s)).collect();
        for _ in 0..2 {
            let mut next = level.clone();
            for (i, a) in level.iter().enumerate() {
                next.push(Tree { left: Some(Box::new(a.clone())), ..leaf("l") });
                for b in level.iter().skip(i % 3).take(3) {
                    next.push(Tree { kids: vec![a.clone(), b.clone()], ..leaf("k") });
                    next.push(Tree { kids: vec![b.clone()], left: Some(Box::new(a.clone())), ..leaf("kl") });
                }
            }
            level = next;
        }
        first(n.max(40), &level)
    }
}
