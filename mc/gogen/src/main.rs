//! C21: Go generated from a schema compiles, has the schema's shape, is the same every
//! time, and its validation enforces the schema's bounds.
use mc_engine::*;
use serde_json::{Value as Json, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// A type of a schema.
#[derive(Clone, Debug)]
enum T {
    /// text and Go type
    Leaf(&'static str, &'static str),
    Obj(Vec<(String, T)>),
    Seq(Box<T>),
    Map(Box<T>),
    Map2(Box<T>),
    Opt(Box<T>),
    Def(Box<T>),
    Dep(Box<T>),
    Union(Box<T>),
    OneOf(Box<T>),
    /// not compared
    Tuple(Box<T>),
    Enum(Vec<String>),
    Ref(String),
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            c if c.is_control() => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn text(t: &T) -> String {
    match t {
        T::Leaf(s, _) => s.to_string(),
        T::Obj(fields) => {
            let mut o = String::from("@object{");
            for (i, (n, t)) in fields.iter().enumerate() {
                if i % 2 == 1 {
                    o.push_str("\n/// a */ `doc`\n/// \"comment\"");
                }
                o.push_str(&format!("\n{} {}", quote(n), text(t)));
            }
            o + "\n}"
        }
        T::Seq(t) => format!("@seq({})", text(t)),
        T::Map(t) => format!("@map({})", text(t)),
        T::Map2(t) => format!("@map(@int {})", text(t)),
        T::Opt(t) => format!("@optional({})", text(t)),
        T::Def(t) => format!("@default(1 {})", text(t)),
        T::Dep(t) => format!("@deprecated(\"no \\\"x\" {})", text(t)),
        T::Union(t) => format!("@union(@int {})", text(t)),
        T::OneOf(t) => format!("@one-of({} (1 2))", text(t)),
        T::Tuple(t) => format!("@tuple({} @int)", text(t)),
        T::Enum(v) => {
            let v: Vec<_> = v.iter().map(|v| format!("\n/// of an enum\n{} @unit", quote(v))).collect();
            format!("@enum{{{}\n}}", v.concat())
        }
        T::Ref(n) => format!("@{n}"),
    }
}

/// The types of a schema by name; the root is `@`.
type Env = BTreeMap<String, T>;

fn schema_text(env: &Env) -> String {
    let mut o = String::from("meta {id x, version 1}\nschema {\n");
    for (n, t) in env {
        o.push_str(&if n == "@" { "@".to_string() } else { quote(n) });
        o.push_str(&format!(" {}\n", text(t)));
    }
    o + "}\n"
}

// ---- what the Go types should be ----

/// A named type that is being written out: one of the schema's, or a nested object.
type Path_<'a> = Vec<Option<&'a str>>;

fn strip(mut t: &T) -> &T {
    while let T::Def(i) | T::Dep(i) = t {
        t = i;
    }
    t
}

fn named<'a>(env: &'a Env, name: &'a str, path: &Path_<'a>) -> String {
    if let Some(i) = path.iter().position(|p| *p == Some(name)) {
        return format!("^{}", path.len() - i);
    }
    let mut path = path.clone();
    path.push(Some(name));
    let mut t = strip(&env[name]);
    let mut alias = false;
    while let T::Ref(n) = t {
        alias = true;
        t = strip(&env[n]);
    }
    match t {
        T::Enum(_) if alias => "string".into(),
        T::Enum(v) => {
            let mut v: Vec<_> = v.iter().map(|v| go_quote(v)).collect();
            v.sort();
            format!("enum({})", v.join(","))
        }
        T::Obj(f) => object(env, f, &path),
        t => inner(env, t, &path),
    }
}

/// A string as the Go program writes it.
fn go_quote(s: &str) -> String {
    let c = s.chars().map(|c| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("<{:x}>", c as u32) });
    format!("'{}'", c.collect::<String>())
}

fn object<'a>(env: &'a Env, fields: &'a [(String, T)], path: &Path_<'a>) -> String {
    let mut out: Vec<String> = fields
        .iter()
        .map(|(n, t)| {
            let (mut t, mut optional) = (t, false);
            loop {
                t = strip(t);
                match t {
                    T::Opt(i) => {
                        optional = true;
                        t = i;
                    }
                    _ => break,
                }
            }
            let ty = match t {
                T::Obj(f) => {
                    let mut path = path.clone();
                    path.push(None);
                    object(env, f, &path)
                }
                t => inner(env, t, path),
            };
            let q = if optional { "?" } else { "" };
            format!("{}{q}:{q}{ty}", go_quote(n))
        })
        .collect();
    out.sort();
    format!("{{{}}}", out.join(","))
}

fn inner<'a>(env: &'a Env, t: &'a T, path: &Path_<'a>) -> String {
    match t {
        T::Leaf(_, go) => go.to_string(),
        T::Obj(_) => "map[string]any".into(),
        T::Seq(t) => format!("[]{}", inner(env, t, path)),
        T::Map(t) => format!("map[string]{}", inner(env, t, path)),
        T::Map2(t) => format!("map[int64]{}", inner(env, t, path)),
        T::Opt(t) => format!("?{}", inner(env, t, path)),
        T::Def(t) | T::Dep(t) => inner(env, t, path),
        T::Union(_) | T::OneOf(_) => "any".into(),
        T::Tuple(_) => unreachable!(),
        T::Enum(_) => "string".into(),
        T::Ref(n) => named(env, n, path),
    }
}

fn has_tuple(t: &T) -> bool {
    match t {
        T::Tuple(_) => true,
        T::Obj(f) => f.iter().any(|(_, t)| has_tuple(t)),
        T::Seq(t) | T::Map(t) | T::Map2(t) | T::Opt(t) | T::Def(t) | T::Dep(t) | T::Union(t) | T::OneOf(t) => {
            has_tuple(t)
        }
        T::Leaf(..) | T::Enum(_) | T::Ref(_) => false,
    }
}

/// A slice, a map or an empty interface is its own optional.
fn normal(s: &str) -> String {
    let mut s = s.to_string();
    loop {
        let t = s.replace("?[]", "[]").replace("?map[", "map[").replace("?any", "any").replace("??", "?");
        if t == s {
            return s;
        }
        s = t;
    }
}

// ---- running Go ----

fn go(dir: &Path) -> Command {
    let mut c = Command::new("go");
    c.current_dir(dir)
        .env("GOTOOLCHAIN", "local")
        .env("GOPROXY", "off")
        .env("GOSUMDB", "off")
        .env("GOFLAGS", "-mod=mod")
        .env("GOWORK", "off")
        .env("CGO_ENABLED", "0")
        .env("GOCACHE", verif_dir().join("target/gocache"))
        .env("GOPATH", verif_dir().join("target/gopath"));
    c
}

fn go_build(dir: &Path, out: &Path) -> Result<(), String> {
    let r = go(dir).args(["build", "-o"]).arg(out).arg(".").output().expect("go");
    if r.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&r.stderr).into_owned()) }
}

/// A program that answers each line with a line.
struct Server {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Server {
    fn start(program: &Path) -> Server {
        let mut c = Command::new(program)
            .env("STYX_GO", repo_dir().join("implementations/styx-go"))
            .env("CGO_ENABLED", "0")
            .env("GOMAXPROCS", "2")
            .env("GOTOOLCHAIN", "local")
            .env("GOFLAGS", "-mod=mod")
            .env("GOCACHE", verif_dir().join("target/gocache"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("starting the Go program");
        let to = c.stdin.take().unwrap();
        let from = BufReader::new(c.stdout.take().unwrap());
        Server { _child: c, to, from }
    }
    fn ask(&mut self, line: &str) -> Json {
        self.to.write_all(line.as_bytes()).unwrap();
        self.to.write_all(b"\n").unwrap();
        self.to.flush().unwrap();
        let mut s = String::new();
        self.from.read_line(&mut s).unwrap();
        serde_json::from_str(&s).unwrap_or_else(|e| panic!("the Go program answers {s:?}: {e}"))
    }
}

/// The scratch directory; removed at the end.
fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("mc-gogen-{}", std::process::id()))
}
thread_local! {
    static SERVER: RefCell<Option<(Server, PathBuf)>> = const { RefCell::new(None) };
}

fn generate(schema: &str, dir: &Path) -> Result<Vec<String>, String> {
    let file = guarded(|| facet_styx::from_str::<facet_styx::SchemaFile>(schema))
        .map_err(|p| format!("panic in the schema parser: {p}"))?
        .map_err(|e| format!("the schema is not read: {e}"))?;
    guarded(|| styx_gen_go::generate(&file, "gen", dir.to_str().unwrap()))
        .map_err(|p| format!("panic: {p}"))?
        .map_err(|e| format!("error: {e}"))?;
    Ok(["types.go", "validation.go", "parse.go"].map(|f| std::fs::read_to_string(dir.join(f)).unwrap_or_default()).into())
}

/// Generate a schema's code and judge it.
fn judge(env: &Env, l: &mut Local) {
    let schema = schema_text(env);
    l.exec(1);
    SERVER.with_borrow_mut(|s| {
        let (server, dir) = s.get_or_insert_with(|| {
            static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let dir = scratch().join(format!("w{n}"));
            std::fs::create_dir_all(&dir).unwrap();
            (Server::start(&scratch().join("gocheck")), dir)
        });
        let mut first: Option<Vec<String>> = None;
        for _ in 0..3 {
            let code = match generate(&schema, dir) {
                Ok(c) => c,
                Err(e) => return l.violation(viol(schema.clone(), e)),
            };
            match &first {
                None => first = Some(code),
                Some(f) if *f != code => {
                    return l.violation(viol(schema.clone(), "the code differs from one generation to the next"));
                }
                _ => {}
            }
        }
        let a = server.ask(dir.to_str().unwrap());
        if let Some(e) = a["errors"].as_array().and_then(|a| a.first()) {
            let e = e.as_str().unwrap_or_default().replace(dir.to_str().unwrap(), "");
            return l.violation(viol(schema.clone(), format!("the code does not compile: {e}")));
        }
        if env.values().any(has_tuple) {
            l.class("compiled");
            return;
        }
        let shape = normal(a["shape"].as_str().unwrap_or_default());
        let want = match env.contains_key("@") {
            true => normal(&named(env, "@", &vec![])),
            false => "none".into(),
        };
        l.outcome(&want);
        l.class("compiled and compared");
        if shape != want {
            l.violation(viol(schema.clone(), format!("the Go types are {shape}, expected {want}")));
        }
    })
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn obj(f: &[(&str, T)]) -> T {
    T::Obj(f.iter().map(|(n, t)| (n.to_string(), t.clone())).collect())
}
const STRING: T = T::Leaf("@string", "string");
const INT: T = T::Leaf("@int", "int64");

fn leaves() -> Vec<T> {
    vec![
        STRING,
        INT,
        T::Leaf("@float", "float64"),
        T::Leaf("@bool", "bool"),
        T::Leaf("@unit", "{}"),
        T::Leaf("@any", "any"),
        T::Leaf("@string{minLen 1}", "string"),
        T::Enum(strs(&["x", "y z"])),
        obj(&[]),
        obj(&[("x", STRING)]),
        T::Ref("A".into()),
    ]
}
const CTORS: u64 = 11;
fn ctor(i: usize, t: T) -> T {
    let t = Box::new(t);
    match i {
        0 => T::Seq(t),
        1 => T::Map(t),
        2 => T::Map2(t),
        3 => T::Opt(t),
        4 => T::Def(t),
        5 => T::Dep(t),
        6 => T::Union(t),
        7 => T::OneOf(t),
        8 => T::Tuple(t),
        9 => obj(&[("x", *t), ("y", INT)]),
        _ => obj(&[("x-x", STRING), ("x_x", *t)]),
    }
}

fn types(ctx: &Ctx) {
    let leaves = leaves();
    // what @A is
    let targets =
        [obj(&[("q", INT), ("again", T::Opt(Box::new(T::Ref("A".into()))))]), T::Enum(strs(&["p", "q-r"])), STRING, T::Seq(Box::new(INT))];
    for depth in 0..=ctx.pick(2, 3) {
        let mut dims = vec![leaves.len() as u64, targets.len() as u64, 4];
        dims.extend(std::iter::repeat_n(CTORS, depth));
        let p = Product(dims);
        let env = |i: u64| -> Env {
            let d = p.decode(i);
            let mut t = leaves[d[0]].clone();
            for c in &d[3..] {
                t = ctor(*c, t);
            }
            let mut env = Env::new();
            env.insert("A".into(), targets[d[1]].clone());
            let root = match d[2] {
                0 => obj(&[("f", t)]),
                1 => {
                    env.insert("B".into(), t);
                    obj(&[("f", T::Ref("B".into())), ("g", T::Opt(Box::new(T::Ref("B".into()))))])
                }
                2 => {
                    env.insert("B".into(), obj(&[("f", t.clone()), ("f2", t)]));
                    obj(&[("g", T::Seq(Box::new(T::Ref("B".into()))))])
                }
                _ => t,
            };
            env.insert("@".into(), root);
            env
        };
        let name = format!("types of depth {depth}");
        ctx.space(
            &name,
            json!({"depth": depth, "leaves": leaves.len(), "constructors": CTORS, "positions": 4, "targets of @A": targets.len()}),
            p.total(),
            |i| schema_text(&env(i)),
            |i, l| judge(&env(i), l),
        );
    }
}

const NAMES: [&str; 38] = [
    "a", "A", "a2", "a-b", "a_b", "aB", "AB", "A2", "ab", "1", "_", "-", "", "a b", "a.b", "\"", "\\", "a`b", "'", "a\nb", "\t", "é", "É", "你",
    "²", "Ⅷ", "ß", "type", "func", "validate", "Validate", "string", "nil", "int64", "error", "v", "errs", "@",
];

fn names(ctx: &Ctx) {
    let n = NAMES.len() as u64;
    let p = Product(vec![n, n, 5]);
    let env = |i: u64| -> Env {
        let d = p.decode(i);
        let (a, b) = (NAMES[d[0]], NAMES[d[1]]);
        let mut env = Env::new();
        let two = |s: T, t: T| if a == b { obj(&[(a, s)]) } else { obj(&[(a, s), (b, t)]) };
        let root = match d[2] {
            0 => two(STRING, T::Opt(Box::new(INT))),
            1 => two(obj(&[("x", STRING)]), T::Opt(Box::new(obj(&[("y", INT)])))),
            2 => two(T::Leaf("@string{minLen 2, maxLen 3}", "string"), T::Opt(Box::new(T::Leaf("@int{min 1, max 3}", "int64")))),
            3 => obj(&[(a, obj(&[(b, obj(&[("x", STRING)]))])), ("b", INT)]),
            _ => {
                let v = if a == b { vec![a.to_string()] } else { strs(&[a, b]) };
                env.insert("A".into(), T::Enum(v));
                obj(&[("e", T::Ref("A".into()))])
            }
        };
        env.insert("@".into(), root);
        env
    };
    ctx.space(
        "names of fields and variants",
        json!({"names": NAMES.len(), "in one object": 2, "uses": 5}),
        p.total(),
        |i| schema_text(&env(i)),
        |i, l| judge(&env(i), l),
    );

    // two named types that refer to each other, and a nested object that may take their names
    let names =
        ["a", "A", "a-b", "a_b", "AB", "root", "Root", "parse", "ValidationError", "validation-errors", "LoadFromFile", "String", "x", "rootB", "A2"];
    let bodies = 6;
    let p = Product(vec![names.len() as u64, bodies, names.len() as u64, bodies, 2]);
    let env = |i: u64| -> Option<Env> {
        let d = p.decode(i);
        let (a, b) = (names[d[0]], names[d[2]]);
        if a == b {
            return None;
        }
        let body = |k: usize, other: &str| match k {
            0 => obj(&[("b", obj(&[("x", STRING)])), ("o", T::Opt(Box::new(T::Ref(other.into()))))]),
            1 => T::Enum(strs(&["b", "B", "2"])),
            2 => STRING,
            3 => T::Seq(Box::new(T::Ref(other.into()))),
            4 => obj(&[]),
            _ => T::Ref(other.into()),
        };
        // a type that is only itself has no meaning
        if d[1] == 5 && d[3] == 5 {
            return None;
        }
        let mut env = Env::new();
        env.insert(a.into(), body(d[1], b));
        env.insert(b.into(), body(d[3], a));
        if d[4] == 0 {
            env.insert("@".into(), obj(&[("a", T::Ref(a.into())), ("b", obj(&[("c", T::Ref(b.into()))]))]));
        } else {
            env.insert("@".into(), T::Ref(a.into()));
        }
        Some(env)
    };
    ctx.space(
        "names of types",
        json!({"names": names.len(), "bodies": bodies, "types": 2, "roots": 2}),
        p.total(),
        |i| env(i).map(|e| schema_text(&e)).unwrap_or_default(),
        |i, l| match env(i) {
            Some(e) => judge(&e, l),
            None => l.class("not a schema"),
        },
    );

    // every character as a name
    let chunk = 128;
    let chars: Vec<char> = (1..ctx.pick(0x10000u32, 0x30000)).filter_map(char::from_u32).filter(|c| *c != ',').collect();
    let chunks: Vec<&[char]> = chars.chunks(chunk).collect();
    let env = |i: u64| -> Env {
        let f: Vec<_> = chunks[i as usize / 2]
            .iter()
            .map(|c| {
                let n = if i % 2 == 0 { c.to_string() } else { format!("a{c}") };
                (n, INT)
            })
            .collect();
        Env::from([("@".to_string(), T::Obj(f))])
    };
    ctx.space(
        "characters of names",
        json!({"characters": chars.len(), "positions": 2, "fields in an object": chunk}),
        2 * chunks.len() as u64,
        |i| schema_text(&env(i)),
        |i, l| judge(&env(i), l),
    );
}

// ---- validation ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum C {
    Str(Option<u64>, Option<u64>),
    Int(Option<i128>, Option<i128>),
    Float(Option<f64>, Option<f64>),
}

fn constraint_text(c: C) -> String {
    fn two<A: std::fmt::Display>(n: &str, lo: &str, hi: &str, a: Option<A>, b: Option<A>) -> String {
        let a = a.map(|v| format!("{lo} {v}"));
        let b = b.map(|v| format!("{hi} {v}"));
        let v: Vec<_> = a.into_iter().chain(b).collect();
        if v.is_empty() { format!("@{n}") } else { format!("@{n}{{{}}}", v.join(", ")) }
    }
    match c {
        C::Str(a, b) => two("string", "minLen", "maxLen", a, b),
        C::Int(a, b) => two("int", "min", "max", a, b),
        C::Float(a, b) => two("float", "min", "max", a, b),
    }
}

const STRINGS: [&str; 8] = ["", "a", "é", "ab", "日本", "🦀🦀", "abc", "日本語の"];
const INTS: [i64; 9] = [i64::MIN, i64::MIN + 1, -2, -1, 0, 1, 2, i64::MAX - 1, i64::MAX];
const FLOATS: [f64; 9] = [f64::MIN, -1.5, -1.0, 0.0, 1e-300, 1.0, 2500.0, 2500.5, f64::MAX];

fn values(c: C) -> Vec<Json> {
    match c {
        C::Str(..) => STRINGS.iter().map(|s| json!(s)).collect(),
        C::Int(..) => INTS.iter().map(|s| json!(s)).collect(),
        C::Float(..) => FLOATS.iter().map(|s| json!(s)).collect(),
    }
}

/// Which bounds a value is outside of: below, above.
fn broken(c: C, v: &Json) -> (bool, bool) {
    fn two<A: PartialOrd>(v: A, a: Option<A>, b: Option<A>) -> (bool, bool) {
        (a.is_some_and(|a| v < a), b.is_some_and(|b| v > b))
    }
    match c {
        C::Str(a, b) => two(v.as_str().unwrap().chars().count() as u64, a, b),
        C::Int(a, b) => two(v.as_i64().unwrap() as i128, a, b),
        C::Float(a, b) => two(v.as_f64().unwrap(), a, b),
    }
}

/// Whether a message tells the bound that was broken.
fn mentions(c: C, low: bool, message: &str) -> bool {
    let mut words = message.split(|c: char| c == ' ' || c == ',');
    let bound = match (c, low) {
        (C::Str(a, b), _) => words.any(|w| w.parse().ok() == if low { a } else { b }),
        (C::Int(a, b), _) => words.any(|w| w.parse().ok() == if low { a } else { b }),
        (C::Float(a, b), _) => words.any(|w| w.parse().ok() == if low { a } else { b }),
    };
    bound && !message.contains("%!")
}

fn constraints() -> Vec<C> {
    let mut out = vec![];
    let lens = [None, Some(0), Some(1), Some(2), Some(3)];
    for a in lens {
        for b in lens {
            out.push(C::Str(a, b));
        }
    }
    let ints = [None, Some(i64::MIN as i128), Some(-1), Some(0), Some(1), Some(i64::MAX as i128), Some(i64::MIN as i128 - 1), Some(i64::MAX as i128 + 1)];
    for a in ints {
        for b in ints {
            // no int64 is in these
            if a == ints[7] || b == ints[6] {
                continue;
            }
            out.push(C::Int(a, b));
        }
    }
    let floats = [None, Some(-1.5), Some(0.0), Some(1e-300), Some(1.0), Some(2500.0), Some(1e300)];
    for a in floats {
        for b in floats {
            out.push(C::Float(a, b));
        }
    }
    out
}

const WRAPS: [(&str, bool); 5] = [("%", false), ("@optional(%)", true), ("@default(1 %)", false), ("@deprecated(no %)", false), ("@optional(@default(1 %))", true)];

const RUNNER: &str = r#"package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"os"
	"reflect"
	"strings"

	gen "runner/gen"
)

type Question struct {
	Type   string         `json:"type"`
	Values map[string]any `json:"values"`
}
type Answer struct {
	Errors [][2]string `json:"errors"`
	Text   string      `json:"text"`
	Bad    string      `json:"bad"`
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<24)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		d := json.NewDecoder(strings.NewReader(in.Text()))
		d.UseNumber()
		var q Question
		if err := d.Decode(&q); err != nil {
			panic(err)
		}
		b, err := json.Marshal(answer(q))
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func answer(q Question) (a Answer) {
	p := all[q.Type]()
	v := reflect.ValueOf(p).Elem()
	seen := 0
	for i := 0; i < v.NumField(); i++ {
		name, _, _ := strings.Cut(v.Type().Field(i).Tag.Get("styx"), ",")
		x, ok := q.Values[name]
		if !ok {
			continue
		}
		seen++
		f := v.Field(i)
		if f.Kind() == reflect.Pointer {
			f.Set(reflect.New(f.Type().Elem()))
			f = f.Elem()
		}
		switch x := x.(type) {
		case string:
			f.SetString(x)
		case json.Number:
			if f.Kind() == reflect.Float64 {
				n, err := x.Float64()
				if err != nil {
					panic(err)
				}
				f.SetFloat(n)
			} else {
				n, err := x.Int64()
				if err != nil {
					panic(err)
				}
				f.SetInt(n)
			}
		}
	}
	if seen != len(q.Values) {
		a.Bad = "a field is missing"
	}
	err := p.(interface{ Validate() error }).Validate()
	if err == nil {
		return
	}
	a.Text = err.Error()
	var errs gen.ValidationErrors
	if !errors.As(err, &errs) {
		a.Bad = "not ValidationErrors"
		return
	}
	for _, e := range errs {
		a.Errors = append(a.Errors, [2]string{e.Field, e.Message})
	}
	return
}
"#;

/// One object of fields with bounds, and values for some of them.
struct Case {
    ty: String,
    fields: Vec<(String, C, bool, Option<Json>)>,
}

fn validation(ctx: &Ctx) {
    let cs = constraints();
    // the types: one per wrapper with a field for each constraint, one per pair of a few constraints
    let mut env_text = String::from("meta {id x, version 1}\nschema {\n@ @object{a @string}\n");
    let mut tys: Vec<(String, Vec<(String, C, bool)>)> = vec![];
    for (w, (wrap, optional)) in WRAPS.iter().enumerate() {
        let fields: Vec<_> = cs.iter().enumerate().map(|(i, c)| (format!("f{i}"), *c, *optional)).collect();
        env_text.push_str(&format!("W{w} @object{{\n"));
        for (n, c, _) in &fields {
            env_text.push_str(&format!("{n} {}\n", wrap.replace('%', &constraint_text(*c))));
        }
        env_text.push_str("}\n");
        tys.push((format!("W{w}"), fields));
    }
    let few = [
        C::Str(Some(1), Some(2)),
        C::Str(Some(3), None),
        C::Int(Some(-1), Some(1)),
        C::Int(None, Some(0)),
        C::Float(Some(0.0), Some(2500.0)),
        C::Float(Some(1.0), None),
    ];
    for (i, a) in few.iter().enumerate() {
        for (j, b) in few.iter().enumerate() {
            for w in 0..4 {
                let fields = vec![("a".to_string(), *a, WRAPS[w % 2].1), ("b c".to_string(), *b, WRAPS[w / 2].1)];
                let ty = format!("P{i}x{j}x{w}");
                env_text.push_str(&format!(
                    "{ty} @object{{a {}, \"b c\" {}}}\n",
                    WRAPS[w % 2].0.replace('%', &constraint_text(*a)),
                    WRAPS[w / 2].0.replace('%', &constraint_text(*b))
                ));
                tys.push((ty, fields));
            }
        }
    }
    env_text.push_str("}\n");

    let dir = scratch().join("runner");
    std::fs::create_dir_all(dir.join("gen")).unwrap();
    let all: Vec<_> = tys.iter().map(|(n, _)| format!("\t{n:?}: func() any {{ return new(gen.{n}) }},")).collect();
    std::fs::write(dir.join("all.go"), format!("package main\n\nimport gen \"runner/gen\"\n\nvar all = map[string]func() any{{\n{}\n}}\n", all.join("\n"))).unwrap();
    std::fs::write(dir.join("main.go"), RUNNER).unwrap();
    std::fs::write(
        dir.join("go.mod"),
        format!(
            "module runner\n\ngo 1.22\n\nrequire github.com/bearcove/styx/implementations/styx-go v0.0.0\n\nreplace github.com/bearcove/styx/implementations/styx-go => {}\n",
            repo_dir().join("implementations/styx-go").display()
        ),
    )
    .unwrap();
    let built = generate(&env_text, &dir.join("gen")).and_then(|_| go_build(&dir, &scratch().join("runner-bin")));
    ctx.sequential("the validating program builds", json!({"types": tys.len()}), |l| {
        l.exec(1);
        l.class("built");
        if let Err(e) = &built {
            l.violation(viol("runner", e.clone()));
        }
    });
    if built.is_err() {
        return;
    }

    // one value for one field, the others as they are; all pairs of values in the pairs
    let mut cases: Vec<Case> = vec![];
    for (ty, fields) in &tys {
        if let Some(_) = ty.strip_prefix('W') {
            for f in fields {
                let vals = values(f.1).into_iter().map(Some).chain([None]);
                for v in vals {
                    cases.push(Case { ty: ty.clone(), fields: vec![(f.0.clone(), f.1, f.2, v)] });
                }
            }
        } else {
            let opt = |f: &(String, C, bool)| -> Vec<Option<Json>> { values(f.1).into_iter().map(Some).chain([None]).collect() };
            for a in opt(&fields[0]) {
                for b in opt(&fields[1]) {
                    cases.push(Case {
                        ty: ty.clone(),
                        fields: vec![
                            (fields[0].0.clone(), fields[0].1, fields[0].2, a.clone()),
                            (fields[1].0.clone(), fields[1].1, fields[1].2, b),
                        ],
                    });
                }
            }
        }
    }
    thread_local! { static RUNNER_: RefCell<Option<Server>> = const { RefCell::new(None) }; }
    let describe = |i: u64| {
        let c = &cases[i as usize];
        let f: Vec<_> = c.fields.iter().map(|(_, c, o, v)| json!([constraint_text(*c), o, v])).collect();
        format!("{} {}", if c.ty.starts_with('W') { &c.ty } else { "P" }, json!(f))
    };
    ctx.space(
        "values and bounds",
        json!({"constraints": cs.len(), "wrappers": WRAPS.len(), "pairs": few.len() * few.len() * 4}),
        cases.len() as u64,
        describe,
        |i, l| {
            let c = &cases[i as usize];
            l.exec(1);
            let values: serde_json::Map<String, Json> =
                c.fields.iter().filter_map(|(n, _, _, v)| v.clone().map(|v| (n.clone(), v))).collect();
            let a = RUNNER_.with_borrow_mut(|r| {
                r.get_or_insert_with(|| Server::start(&scratch().join("runner-bin"))).ask(&json!({"type": c.ty, "values": values}).to_string())
            });
            if let Some(b) = a["bad"].as_str().filter(|b| !b.is_empty()) {
                return l.violation(viol(describe(i), b));
            }
            let errors: Vec<(String, String)> = serde_json::from_value(a["errors"].clone()).unwrap_or_default();
            for (name, k, optional, v) in &c.fields {
                // a field without a value is nil, or the zero of its type
                let zero = match k {
                    C::Str(..) => json!(""),
                    C::Int(..) => json!(0),
                    C::Float(..) => json!(0.0),
                };
                let (low, high) = match v {
                    Some(v) => broken(*k, v),
                    None if *optional => (false, false),
                    None => broken(*k, &zero),
                };
                let mine: Vec<&String> = errors.iter().filter(|(f, _)| f == name).map(|(_, m)| m).collect();
                let right = mine.len() == low as usize + high as usize
                    && (!low || mine.iter().any(|m| mentions(*k, true, m)))
                    && (!high || mine.iter().any(|m| mentions(*k, false, m)))
                    && mine.iter().all(|m| a["text"].as_str().unwrap_or_default().contains(m.as_str()));
                l.class(match (low, high) {
                    (false, false) => "within",
                    (true, false) => "below",
                    (false, true) => "above",
                    _ => "both",
                });
                l.outcome(&(&mine, low, high));
                if !right {
                    let zero = if v.is_none() && !*optional { " (left at zero)" } else { "" };
                    l.violation(viol(
                        describe(i),
                        format!("{name}{zero}: expected below={low} above={high}, Validate reports {mine:?}"),
                    ));
                }
            }
        },
    );
}

fn main() {
    supervise();
    let prop = std::env::args().nth(1).expect("usage: mc-gogen C21");
    let ctx = Ctx::new(&prop, "model_checking");
    std::fs::create_dir_all(scratch()).unwrap();
    struct Clean;
    impl Drop for Clean {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(scratch());
        }
    }
    let clean = Clean;
    let src = verif_dir().join("mc/gogen/gocheck");
    if let Err(e) = go_build(&src, &scratch().join("gocheck")) {
        eprintln!("{e}");
        std::process::exit(2);
    }
    types(&ctx);
    names(&ctx);
    validation(&ctx);
    ctx.assume("Go's own front end (go/parser, go/types) decides what compiles; the values of tuples have no type of their own in the generated code");
    drop(clean);
    ctx.finish()
}
