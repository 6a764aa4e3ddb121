//! Types only facet can describe: flattening, metadata containers, special keys and enum layouts.
use crate::types::*;
use facet::Facet;
use indexmap::IndexMap;
use facet_styx::{Documented, ObjectKey};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

/// These types are never handed to serde.
macro_rules! no_serde {
    ($(<$g:ident> $t:ty;)* $(; $c:ty)*) => {
        $(impl<$g> serde::Serialize for $t { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { unreachable!() } }
          impl<'de, $g> serde::Deserialize<'de> for $t { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { unreachable!() } })*
        $(impl serde::Serialize for $c { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { unreachable!() } }
          impl<'de> serde::Deserialize<'de> for $c { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { unreachable!() } })*
    };
}
pub(crate) use no_serde;
fn strings(n: usize) -> Vec<String> {
    String::vals(n)
}

/// A struct flattened into another, between two of its fields.
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Flat<T: 'static> {
    pub before: u8,
    #[facet(flatten)]
    pub inner: Two<T>,
    pub after: Option<String>,
}
impl<T: V> V for Flat<T> {
    fn vals(n: usize) -> Vec<Self> {
        Two::vals(n).into_iter().enumerate().map(|(i, inner)| Flat { before: 1, inner, after: (i % 2 == 0).then(|| "z".into()) }).collect()
    }
}
/// Unlisted keys collected in a map.
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rest<T: 'static> {
    pub name: String,
    #[facet(flatten)]
    pub rest: BTreeMap<String, T>,
}
impl<T: V> V for Rest<T> {
    fn vals(n: usize) -> Vec<Self> {
        BTreeMap::<String, T>::vals(n).into_iter().filter(|m| !m.contains_key("name")).map(|rest| Rest { name: "n".into(), rest }).collect()
    }
}
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct TupleStruct<T: 'static>(pub T, pub u8, pub Option<String>);
impl<T: V> V for TupleStruct<T> {
    fn vals(n: usize) -> Vec<Self> {
        T::vals(n).into_iter().enumerate().map(|(i, t)| TupleStruct(t, 5, (i % 2 == 0).then(|| "".into()))).collect()
    }
}
/// Field values with doc comments, which are part of the value.
#[derive(Facet, Clone, Debug)]
pub struct Docs<T: 'static> {
    pub plain: u8,
    pub doc: Documented<T>,
    pub last: Documented<u8>,
}
const DOCS: &[&[&str]] = &[&["one"], &["one", "two"], &["one", "", "two"], &["  indented"], &["trailing  "], &["/ slash"], &["\"{@"]];
impl<T: V> PartialEq for Docs<T> {
    fn eq(&self, o: &Self) -> bool {
        self.plain == o.plain && self.doc == o.doc && self.doc.doc == o.doc.doc && self.last == o.last && self.last.doc == o.last.doc
    }
}
fn docs(i: usize) -> Option<Vec<String>> {
    (i > 0).then(|| DOCS[i - 1].iter().map(|s| s.to_string()).collect())
}
impl<T: V> V for Docs<T> {
    fn vals(n: usize) -> Vec<Self> {
        let mut out = vec![];
        for t in T::vals(n.div_ceil(4)) {
            for i in 0..=DOCS.len() {
                for j in [0, i, (i + 1) % DOCS.len()] {
                    out.push(Docs { plain: 1, doc: Documented { value: t.clone(), doc: docs(i) }, last: Documented { value: 2, doc: docs(j) } });
                }
            }
        }
        out
    }
}
no_serde!(<T> Flat<T>; <T> Rest<T>; <T> TupleStruct<T>; <T> Docs<T>; <T> Internal<T>; <T> Adjacent<T>; <T> Keyed<T>;);
no_serde!(;OddName ;KeyCase ;DocKeys ;Untagged ;Catch ;Num ;Shared);

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(tag = "kind")]
#[repr(u8)]
pub enum Internal<T: 'static> {
    Empty,
    Full { x: T, y: u8 },
}
impl<T: V> V for Internal<T> {
    fn vals(n: usize) -> Vec<Self> {
        std::iter::once(Internal::Empty).chain(T::vals(n).into_iter().map(|x| Internal::Full { x, y: 3 })).collect()
    }
}
#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(tag = "t", content = "c")]
#[repr(u8)]
pub enum Adjacent<T: 'static> {
    Empty,
    One(T),
    Full { x: T, y: u8 },
}
impl<T: V> V for Adjacent<T> {
    fn vals(n: usize) -> Vec<Self> {
        std::iter::once(Adjacent::Empty).chain(T::vals(n).into_iter().flat_map(|x| [Adjacent::One(x.clone()), Adjacent::Full { x, y: 3 }])).collect()
    }
}
#[derive(Facet, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(rename_all = "snake_case")]
#[repr(u8)]
pub enum KeyCase {
    FirstCase,
    #[facet(rename = "_b-2")]
    Second,
}
impl V for KeyCase {
    fn vals(_: usize) -> Vec<Self> {
        vec![KeyCase::FirstCase, KeyCase::Second]
    }
}
/// Maps with keys that are not strings.
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Keyed<T: 'static> {
    pub num: BTreeMap<u32, T>,
    pub neg: BTreeMap<i64, T>,
    pub boolean: BTreeMap<bool, T>,
    pub optional: BTreeMap<Option<String>, T>,
    pub hash: HashMap<u8, u8>,
}
impl<T: V> V for Keyed<T> {
    fn vals(n: usize) -> Vec<Self> {
        T::vals(n)
            .into_iter()
            .enumerate()
            .map(|(i, t)| {
                let k = (i % 3) as u32;
                Keyed {
                    num: (0..k).map(|j| (j * u32::MAX / 2, t.clone())).collect(),
                    neg: (0..3 - k as i64).map(|j| (-j * (i64::MAX / 2), t.clone())).collect(),
                    boolean: [(false, t.clone()), (true, t.clone())].into_iter().take(k as usize).collect(),
                    optional: [(None, t.clone()), (Some(STRINGS[i % STRINGS.len()].into()), t.clone())].into_iter().skip(i % 2).collect(),
                    hash: [(7, 1)].into_iter().take(i % 2).collect(),
                }
            })
            .collect()
    }
}
/// Documented, tagged and plain keys, as in schema files.
#[derive(Facet, Clone, Debug)]
pub struct DocKeys {
    pub fields: IndexMap<Documented<ObjectKey>, u8>,
    pub names: IndexMap<Documented<String>, Option<String>>,
}
impl PartialEq for DocKeys {
    fn eq(&self, o: &Self) -> bool {
        let f = |d: &DocKeys| {
            let mut v: Vec<_> = d.fields.iter().map(|(k, v)| format!("{:?} {:?} {:?} {v:?}", k.value.tag, k.value.value, k.doc)).collect();
            v.sort();
            v.extend(d.names.iter().map(|(k, v)| format!("{:?} {:?} {v:?}", k.value, k.doc)));
            v
        };
        f(self) == f(o)
    }
}
impl V for DocKeys {
    fn vals(n: usize) -> Vec<Self> {
        let mut out = vec![];
        for (i, name) in strings(n.div_ceil(2).max(6)).into_iter().enumerate() {
            for tag in [None, Some("t".to_string()), Some("".to_string())] {
                for named in [false, true] {
                    if !named && tag.is_none() || tag.as_deref() == Some("") && named {
                        continue; // no key / not expressible (`@"x"` is not a key with an empty tag)
                    }
                    for d in 0..=DOCS.len() {
                        let key = ObjectKey { value: named.then(|| name.clone()), tag: tag.clone() };
                        let mut fields = IndexMap::from([(Documented { value: key, doc: docs(d) }, 1)]);
                        if d % 2 == 1 {
                            fields.insert(Documented::new(ObjectKey::named("other key")), 2);
                        }
                        out.push(DocKeys { fields, names: IndexMap::from([(Documented { value: name.clone(), doc: docs((d + i) % (DOCS.len() + 1)) }, None)]) });
                    }
                }
            }
        }
        out
    }
}
#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(untagged)]
#[repr(u8)]
pub enum Untagged {
    Text(String),
    List(Vec<u8>),
    Rec { x: u8, y: Option<String> },
}
impl V for Untagged {
    fn vals(n: usize) -> Vec<Self> {
        let mut out: Vec<_> = strings(n).into_iter().map(Untagged::Text).collect();
        out.extend([Untagged::List(vec![]), Untagged::List(vec![1, 2]), Untagged::Rec { x: 1, y: None }, Untagged::Rec { x: 1, y: Some("".into()) }]);
        out
    }
}
/// A catch-all variant that keeps the tag.
#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(rename_all = "lowercase")]
#[repr(u8)]
pub enum Catch {
    Known,
    Args(Vec<Catch>),
    #[facet(other)]
    Other {
        #[facet(tag)]
        tag: Option<String>,
    },
}
impl V for Catch {
    fn vals(_: usize) -> Vec<Self> {
        let base = vec![Catch::Known, Catch::Args(vec![]), Catch::Other { tag: Some("my-tag".into()) }, Catch::Other { tag: Some("_9".into()) }];
        let mut out = base.clone();
        for a in &base {
            for b in &base {
                out.push(Catch::Args(vec![a.clone(), b.clone()]));
                out.push(Catch::Args(vec![b.clone(), Catch::Args(vec![a.clone()])]));
            }
        }
        out
    }
}
#[derive(Facet, Clone, Copy, Debug, PartialEq)]
#[facet(is_numeric)]
#[repr(i16)]
pub enum Num {
    A = 0,
    B = -5,
    C = 300,
}
impl V for Num {
    fn vals(_: usize) -> Vec<Self> {
        vec![Num::A, Num::B, Num::C]
    }
}
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Shared {
    pub arc: Arc<String>,
    pub cow: Cow<'static, str>,
    pub array: [u8; 3],
    pub set: BTreeSet<String>,
    pub triple: (u8, String, Option<bool>),
    pub boxed: Box<Option<u8>>,
}
impl V for Shared {
    fn vals(n: usize) -> Vec<Self> {
        strings(n)
            .into_iter()
            .enumerate()
            .map(|(i, s)| Shared {
                arc: Arc::new(s.clone()),
                cow: Cow::Owned(s.clone()),
                array: [0, 255, i as u8],
                set: strings(i % 4).into_iter().collect(),
                triple: (1, s, [None, Some(true), Some(false)][i % 3]),
                boxed: Box::new((i % 2 == 0).then_some(4)),
            })
            .collect()
    }
}

/// Variant names that are no tag names: a value of these may be refused, but never written wrongly.
#[derive(Facet, Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum OddName {
    Fine,
    #[facet(rename = "b c")]
    Space,
    #[facet(rename = "a.b")]
    Dot,
    #[facet(rename = "1")]
    Digit,
    #[facet(rename = "\u{e9}")]
    Letter,
    #[facet(rename = "a/@b")]
    Chain(u8),
    #[facet(rename = "-")]
    Dash { x: u8 },
}
impl V for OddName {
    fn vals(_: usize) -> Vec<Self> {
        vec![OddName::Fine, OddName::Space, OddName::Dot, OddName::Digit, OddName::Letter, OddName::Chain(1), OddName::Dash { x: 1 }]
    }
}
