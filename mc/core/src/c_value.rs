//! C22: looking values up, changing them, and joining sibling dotted paths.
use crate::c_doc::{self, Alphabet};
use crate::c_ffi::{follow, segments};
use crate::impltree;
use crate::refdoc::{self, E, K, Kind, Out, R};
use mc_engine::*;
use std::collections::HashMap;
use std::sync::Mutex;
use styx_tree::{Object, Value};

fn payload(r: &R) -> &R {
    match r {
        R::Tag(_, p) => p,
        r => r,
    }
}
fn payload_mut(r: &mut R) -> &mut R {
    match r {
        R::Tag(_, p) => p,
        r => r,
    }
}
fn is_key(k: &K, name: &str) -> bool {
    matches!(k, K::Scalar(_, t) if t == name)
}

/// The entries of sibling dotted paths put together.
pub fn joined(r: &R) -> R {
    match r {
        R::Seq(v) => R::Seq(v.iter().map(joined).collect()),
        R::Tag(n, p) => R::Tag(n.clone(), Box::new(joined(p))),
        R::Obj(es) => {
            let mut out: Vec<E> = vec![];
            for e in es {
                if let (K::Scalar(_, name), R::Obj(more)) = (&e.key, &e.val)
                    && let Some(first) = out.iter_mut().find(|o| is_key(&o.key, name))
                    && let R::Obj(into) = &mut first.val
                {
                    into.extend(more.iter().cloned());
                    continue;
                }
                out.push(e.clone());
            }
            for e in &mut out {
                e.val = joined(&e.val);
            }
            R::Obj(out)
        }
        r => r.clone(),
    }
}

fn key_value(k: &K) -> R {
    match k {
        K::Unit => R::Unit,
        K::Scalar(k, t) => R::Scalar(k.clone(), t.clone()),
        K::Tag(n, p) => R::Tag(n.clone(), Box::new(p.as_ref().map_or(R::Unit, |(k, t)| R::Scalar(k.clone(), t.clone())))),
    }
}

/// Everything the accessors say about a value, against the model.
fn accessors(v: &Value, r: &R) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{what} of {v:?}"));
    let p = payload(r);
    let tag = match r {
        R::Tag(n, _) => Some(n.as_str()),
        _ => None,
    };
    if v.tag_name() != tag || v.is_schema_tag() != (tag == Some("schema")) {
        return bad("tag_name");
    }
    if v.is_unit() != (*r == R::Unit) {
        return bad("is_unit");
    }
    let text = match p {
        R::Scalar(_, t) => Some(t.as_str()),
        _ => None,
    };
    if v.scalar_text() != text || v.as_str() != text.filter(|_| tag.is_none()) {
        return bad("text");
    }
    match (p, v.as_sequence()) {
        (R::Seq(items), Some(s)) => {
            if s.len() != items.len() || s.is_empty() != items.is_empty() || s.get(items.len()).is_some() || s.iter().count() != items.len() {
                return bad("sequence length");
            }
            for (i, m) in items.iter().enumerate() {
                accessors(s.get(i).ok_or("missing item")?, m)?;
            }
        }
        (R::Seq(_), None) | (_, Some(_)) => return bad("as_sequence"),
        _ => {}
    }
    match (p, v.as_object()) {
        (R::Obj(es), Some(o)) => object(o, es)?,
        (R::Obj(_), None) | (_, Some(_)) => return bad("as_object"),
        _ => {}
    }
    Ok(())
}

fn object(o: &Object, es: &[E]) -> Result<(), String> {
    if o.len() != es.len() || o.is_empty() != es.is_empty() || o.iter().count() != es.len() {
        return Err(format!("object length of {o:?}"));
    }
    for ((k, v), m) in o.iter().zip(es) {
        accessors(k, &key_value(&m.key))?;
        accessors(v, &m.val)?;
    }
    for name in ["a", "b", "s", "k", "@", ""] {
        let first = es.iter().find(|e| is_key(&e.key, name));
        if o.contains_key(name) != first.is_some() || o.get(name).map(impltree::from_value) != first.map(|e| e.val.clone()) {
            return Err(format!("key {name:?} of {o:?}"));
        }
    }
    let unit = es.iter().find(|e| e.key == K::Unit);
    if o.contains_unit_key() != unit.is_some() || o.get_unit().map(impltree::from_value) != unit.map(|e| e.val.clone()) {
        return Err(format!("unit key of {o:?}"));
    }
    Ok(())
}

/// Look up every path in a value and in the model of it.
fn lookups(v: &mut Value, r: &R, paths: &[(String, Vec<String>)]) -> Result<(), String> {
    for (path, segs) in paths {
        let want = follow(r, segs);
        let got = v.get(path).map(impltree::from_value);
        if got.as_ref() != want {
            return Err(format!("get({path:?}) gives {got:?}, expected {want:?}"));
        }
        let at: Option<*const Value> = v.get(path).map(|p| p as *const Value);
        let at_mut = v.get_mut(path).map(|p| p as *const Value);
        if at != at_mut {
            return Err(format!("get_mut({path:?}) finds another value than get"));
        }
    }
    Ok(())
}

fn paths(segs: &[&str], max: u32) -> Vec<(String, Vec<String>)> {
    let s = Seqs::new(segs.len(), 0, max);
    let mut v = vec![];
    (0..s.total())
        .map(|i| {
            s.decode(i, &mut v);
            let mut p = String::new();
            for &k in &v {
                if !p.is_empty() && !segs[k].starts_with('[') {
                    p.push('.');
                }
                p.push_str(segs[k]);
            }
            let parts = segments(&p);
            assert_eq!(parts.len(), v.len());
            (p, parts)
        })
        .collect()
}

fn read_doc(src: &str) -> Option<(R, Value)> {
    match refdoc::parse(src) {
        Out::Accept(es) if !impltree::has_chain(&R::Obj(es.clone())) => Some((R::Obj(es), styx_tree::parse(src).ok()?)),
        _ => None,
    }
}

fn check_doc(src: &str, l: &mut Local) {
    thread_local!(static PATHS: Vec<(String, Vec<String>)> = paths(&["a", "b", "k", "[0]", "[1]"], 3));
    let Some((r, mut v)) = read_doc(src) else {
        l.class("not a document");
        return;
    };
    l.exec(1);
    l.class("document");
    let j = joined(&r);
    l.outcome(&j);
    let fail = |l: &mut Local, m: String| l.violation(viol(src, m));
    if let Err(m) = accessors(&v, &r) {
        return fail(l, m);
    }
    if let Err(m) = PATHS.with(|p| lookups(&mut v, &r, p)) {
        return fail(l, m);
    }
    let doc = match styx_tree::Document::parse(src) {
        Ok(d) => d,
        Err(e) => return fail(l, format!("Document::parse: {e}")),
    };
    let ok = PATHS.with(|p| p.iter().skip(1).find(|(p, s)| doc.get(p).map(impltree::from_value).as_ref() != follow(&r, s)).map(|p| p.0.clone()));
    if let Some(p) = ok {
        return fail(l, format!("Document::get({p:?}) gives {:?}", doc.get(&p).map(impltree::from_value)));
    }
    let got = impltree::from_value(&v.with_joined_paths());
    if got != j {
        return fail(l, format!("joined: {got:?}, expected {j:?}"));
    }
    // what a path finds that lies beyond the split object is also in the joined one
    let mut w = v.with_joined_paths().into_owned();
    if let Err(m) = PATHS.with(|p| lookups(&mut w, &j, p)) {
        fail(l, format!("after joining, {m}"));
    }
}

#[derive(Clone, Debug)]
enum Op {
    Insert(&'static str, usize),
    InsertUnit(usize),
    Push(usize),
    Replace(usize),
    Tag,
}

fn values() -> Vec<(Value, R)> {
    let s = |t: &str| R::Scalar(Kind::Bare, t.into());
    vec![
        (Value::scalar("1"), s("1")),
        (Value::unit(), R::Unit),
        (Value::object(), R::Obj(vec![])),
        (Value::sequence(), R::Seq(vec![])),
        (Value::seq(vec![Value::scalar("x")]), R::Seq(vec![s("x")])),
        (Value::tagged("t", Value::object()), R::Tag("t".into(), Box::new(R::Obj(vec![])))),
        (Value::tag("u"), R::Tag("u".into(), Box::new(R::Unit))),
    ]
}

fn follow_mut<'a>(r: &'a mut R, path: &[String]) -> Option<&'a mut R> {
    let Some((first, rest)) = path.split_first() else { return Some(r) };
    match payload_mut(r) {
        R::Obj(es) => {
            let at = es.iter().position(|e| is_key(&e.key, first) && follow(&e.val, rest).is_some())?;
            follow_mut(&mut es[at].val, rest)
        }
        R::Seq(v) => {
            let n: usize = first.strip_prefix('[')?.strip_suffix(']')?.parse().ok()?;
            follow_mut(v.get_mut(n)?, rest)
        }
        _ => None,
    }
}

/// Apply to the model; `None` when the target does not have that kind of value.
fn apply_model(r: &mut R, path: &[String], op: &Op, vals: &[(Value, R)]) -> Option<()> {
    let t = follow_mut(r, path)?;
    match op {
        Op::Insert(k, i) => {
            let R::Obj(es) = payload_mut(t) else { return None };
            let Some(first) = es.iter().position(|e| is_key(&e.key, k)) else {
                es.push(E { doc: None, key: K::Scalar(Kind::Bare, k.to_string()), val: vals[*i].1.clone() });
                return Some(());
            };
            es[first].val = vals[*i].1.clone();
            let mut n = 0;
            es.retain(|e| {
                let dup = is_key(&e.key, k) && n > first;
                n += 1;
                !dup
            });
        }
        Op::InsertUnit(i) => {
            let R::Obj(es) = payload_mut(t) else { return None };
            match es.iter_mut().find(|e| e.key == K::Unit) {
                Some(e) => e.val = vals[*i].1.clone(),
                None => es.push(E { doc: None, key: K::Unit, val: vals[*i].1.clone() }),
            }
        }
        Op::Push(i) => {
            let R::Seq(v) = payload_mut(t) else { return None };
            v.push(vals[*i].1.clone());
        }
        Op::Replace(i) => *t = vals[*i].1.clone(),
        Op::Tag => {
            let p = payload(t).clone();
            *t = R::Tag("w".into(), Box::new(p));
        }
    }
    Some(())
}

fn apply_real(v: &mut Value, path: &str, op: &Op, vals: &[(Value, R)]) -> Option<()> {
    let t = v.get_mut(path)?;
    match op {
        Op::Insert(k, i) => t.as_object_mut()?.insert(*k, vals[*i].0.clone()),
        Op::InsertUnit(i) => {
            let o = t.as_object_mut()?;
            // both ways to set it
            match o.get_unit_mut() {
                Some(u) if *i == 0 => *u = vals[*i].0.clone(),
                _ => o.insert_unit(vals[*i].0.clone()),
            }
        }
        Op::Push(i) => t.as_sequence_mut()?.push(vals[*i].0.clone()),
        Op::Replace(i) => *t = vals[*i].0.clone(),
        Op::Tag => *t = std::mem::replace(t, Value::unit()).with_tag("w"),
    }
    Some(())
}

fn size(r: &R) -> usize {
    1 + match r {
        R::Seq(v) => v.iter().map(size).sum(),
        R::Obj(es) => es.iter().map(|e| size(&e.val)).sum(),
        R::Tag(_, p) => size(p),
        _ => 0,
    }
}

fn histories(ctx: &Ctx) {
    let vals = values();
    let mut ops: Vec<(&str, Op)> = vec![];
    for target in ["", "a", "a.b", "s", "s[0]"] {
        for k in ["a", "b", "s"] {
            ops.extend((0..vals.len()).map(|i| (target, Op::Insert(k, i))));
        }
        ops.extend([0, 1, 4].map(|i| (target, Op::InsertUnit(i))));
        ops.extend([0, 2, 4].map(|i| (target, Op::Push(i))));
        ops.push((target, Op::Tag));
        if !target.is_empty() {
            ops.extend([0, 2, 4, 6].map(|i| (target, Op::Replace(i))));
        }
    }
    let depth = ctx.pick(4, 5);
    let limit = ctx.pick(9, 10);
    const START: &[&str] = &["", "a.b 1\na.s 2\ns (1)", "/// d\na {b.a 1\nb.b 2}\n@ 1\n@k 2", "s @t({a 1} {b.a 1, b.s 2})\n\"a\" @t{b {}}"];
    let all = paths(&["a", "b", "s", "[0]", "[1]"], 2);
    let mut seen: HashMap<R, (Value, String)> = HashMap::new();
    let mut layer: Vec<(R, Value, String)> = START
        .iter()
        .map(|s| {
            let (r, v) = read_doc(s).expect("starting document");
            (r, v, format!("{s:?}"))
        })
        .collect();
    for d in 1..=depth {
        let next: Mutex<HashMap<R, (Value, String)>> = Mutex::new(HashMap::new());
        ctx.space(
            &format!("histories-{d}"),
            json!({"depth": d, "operations": ops.len(), "states": layer.len(), "largest_value": limit, "start": START}),
            layer.len() as u64,
            |i| layer[i as usize].2.clone(),
            |i, l| {
                let (r, v, how) = &layer[i as usize];
                let mut found: Vec<(R, Value, String)> = vec![];
                for (path, op) in &ops {
                    let (mut r, mut v) = (r.clone(), v.clone());
                    let m = apply_model(&mut r, &segments(path), op, &vals);
                    let a = apply_real(&mut v, path, op, &vals);
                    l.exec(1);
                    let how = || format!("{how}; {op:?} at {path:?}");
                    if m.is_some() != a.is_some() {
                        l.violation(viol(how(), format!("applied: {} expected: {}", a.is_some(), m.is_some())));
                        continue;
                    }
                    if m.is_none() {
                        l.class("no such target");
                        continue;
                    }
                    l.class("applied");
                    let got = impltree::from_value(&v);
                    if got != r {
                        l.violation(viol(how(), format!("gives {got:?}, expected {r:?}")));
                        continue;
                    }
                    if let Err(e) = accessors(&v, &r).and_then(|_| lookups(&mut v, &r, &all)) {
                        l.violation(viol(how(), e));
                        continue;
                    }
                    let j = impltree::from_value(&v.with_joined_paths());
                    if j != joined(&r) {
                        l.violation(viol(how(), format!("joined: {j:?}, expected {:?}", joined(&r))));
                        continue;
                    }
                    l.outcome(&r);
                    if d < depth && size(&r) <= limit {
                        found.push((r, v, how()));
                    }
                }
                let mut n = next.lock().unwrap();
                for (r, v, how) in found {
                    // the shortest description of each state, whatever the order of exploration
                    let e = n.entry(r).or_insert_with(|| (v, how.clone()));
                    if how < e.1 {
                        e.1 = how;
                    }
                }
            },
        );
        for (r, v, _) in &layer {
            seen.insert(r.clone(), (v.clone(), String::new()));
        }
        layer = next.into_inner().unwrap().into_iter().filter(|(r, _)| !seen.contains_key(r)).map(|(r, (v, h))| (r, v, h)).collect();
        layer.sort_by(|a, b| a.2.cmp(&b.2));
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("paths are `name`, `.name` and `[n]` segments; a path through a key containing such characters is not judged");
    if c_doc::replay(ctx, check_doc) {
        return;
    }
    histories(ctx);
    const NAV: Alphabet = &["a ", "b ", "a.b ", "b.a ", "(", ") ", "{", "} ", "1", "\n", "@t", ", ", "\"a\" "];
    c_doc::sweep(ctx, "navigation", NAV, ctx.pick(6, 7), &[("", "")], check_doc);
    c_doc::sweep(ctx, "nested", NAV, ctx.pick(5, 6), &[("a {", "}"), ("k (", ")"), ("k @t{b (", ")}"), ("a.b 1\n", "")], check_doc);
    const LINES: Alphabet = &["a.a 1", "a.b 1", "a.b.a 1", "a.b.k (1 {a 2})", "b 1", "k.a 1", "k.b.a {a.a 1, a.b 2}", "a (1 2)", "@ 1", "@a 1", "/// d", "\"a\".b 1", "a @t{b 1}"];
    let s = Seqs::new(LINES.len(), 0, ctx.pick(5, 6));
    let build = |i: u64| {
        let mut v = vec![];
        s.decode(i, &mut v);
        v.iter().map(|&k| LINES[k]).collect::<Vec<_>>().join("\n")
    };
    ctx.space("lines", json!({"lines": LINES, "max_lines": s.max}), s.total(), build, |i, l| {
        let src = build(i);
        check_doc(&src, l);
        if i % 1009 == 500 {
            l.sample(i, json!(src));
        }
    });
}
