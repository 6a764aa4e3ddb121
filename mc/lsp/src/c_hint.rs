//! C26: what the language server says about a place of a document is what the schema says about it.
//!
//! A schema is a chain of type constructors around an object; a document of it is written along
//! with what is to be said at every key (from the schema's doc comments and types) and which
//! fields every object lacks. Types that the place does not have contain fields of the same name.
use crate::session::*;
use mc_engine::{Ctx, Local, Product, Seqs, guarded, viol};
use serde_json::{Value as Json, json};
use std::cell::RefCell;
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Optional,
    Default,
    Deprecated,
    Named,
    Seq,
    Second,
    Map,
    Map1,
    Any,
    Rest,
    Enum,
    Field,
    Tuple,
    Flat,
    Union,
}
use W::*;
const ALL: &[W] = &[Optional, Default, Deprecated, Named, Seq, Second, Map, Map1, Any, Rest, Enum, Field, Tuple, Flat, Union];

/// Constructors that leave the value as it is.
fn same(w: W) -> bool {
    matches!(w, Optional | Default | Deprecated | Named | Union)
}

/// Whether the chain is a type that has documents (as the language defines types).
fn sound(ws: &[W]) -> bool {
    for (i, &w) in ws.iter().enumerate() {
        let after = ws[i + 1..].iter().copied().find(|&w| !same(w));
        // a tag has no tag
        if w == Enum && after == Some(Enum) {
            return false;
        }
        // only a named object is flattened
        if w == Flat {
            let n = ws[i + 1..].iter().take_while(|&&w| w == Named).count();
            if n == 0 || !matches!(ws.get(i + 1 + n), None | Some(Field | Flat)) {
                return false;
            }
        }
        // whether a field may be missing is said once, at the field
        if same(w) && w != Named && i + 1 < ws.len() && matches!(ws[i + 1], Optional | Default) {
            return false;
        }
    }
    true
}

fn type_of(ws: &[W], level: usize, defs: &mut String) -> String {
    let Some((&w, rest)) = ws.split_first() else {
        return "@object{\n/// innermost p\np @string\n/// innermost q\n/// in two lines\nq @optional(@int)\n\"r s\" @bool\n}".into();
    };
    let t = type_of(rest, level + 1, defs);
    match w {
        Optional => format!("@optional({t})"),
        Default => {
            let mut d = Text { inline: true, ..Text::new(0) };
            d.value(rest, level + 1, &[]);
            format!("@default({} {t})", d.text)
        }
        Deprecated => format!("@deprecated(\"old\" {t})"),
        Named => {
            *defs += &format!("T{level} {t}\n");
            format!("@T{level}")
        }
        Seq | Second => format!("@seq({t})"),
        Map => format!("@map(@string {t})"),
        Map1 => format!("@map({t})"),
        Any => format!("@object{{\n@string {t}\n}}"),
        Rest => format!("@object{{\n/// rest p{level}\np @int\n@ {t}\n}}"),
        Enum => format!("@enum{{\nother @object{{\n/// other p{level}\np @float\nq @int\n}}\nv {t}\n}}"),
        Field => format!("@object{{\n/// field y{level}\ny {t}\n/// field p{level}\np @optional(@int)\n}}"),
        Tuple => format!("@tuple(@object{{\n/// tuple p{level}\np @int\n}} {t})"),
        Flat => format!("@object{{\n/// own{level}\nown{level} @optional(@int)\nrest{level} @flatten({t})\n}}"),
        Union => format!("@union(@int {t})"),
    }
}

/// What is to be said at a key.
struct Key {
    at: usize,
    path: Vec<String>,
    doc: Option<String>,
    ty: String,
}

struct Text {
    text: String,
    layout: usize,
    inline: bool,
    keys: Vec<Key>,
    /// a place in an object, and the fields it lacks
    gaps: Vec<(usize, Vec<(String, &'static str)>)>,
}

/// The layouts of a document.
const LAYOUTS: &[&str] = &["{p one}", "{\\n p one\\n}", "{\"p\" one}", "x.p one", "x p>one", "{p one,q 1}", "x.k {p one}", "x.k {\n p one\n}"];
/// Whether the layout can write the chain.
fn writable(layout: usize, ws: &[W]) -> bool {
    match layout {
        // every value up to the innermost is an object
        3 | 6 | 7 => ws.iter().all(|&w| same(w) || matches!(w, Map | Map1 | Any | Field | Flat)),
        4 => ws.iter().all(|&w| same(w) || w == Flat),
        _ => true,
    }
}

impl Text {
    fn new(layout: usize) -> Text {
        Text { text: String::new(), layout, inline: false, keys: vec![], gaps: vec![] }
    }
    fn key(&mut self, name: &str, path: &[String], doc: Option<String>, ty: impl Into<String>) -> Vec<String> {
        let mut path = path.to_vec();
        path.push(name.to_string());
        self.keys.push(Key { at: self.text.len(), path: path.clone(), doc, ty: ty.into() });
        self.text += &if self.layout == 2 { format!("\"{name}\"") } else { name.to_string() };
        self.again(self.text.len() - 1);
        path
    }
    /// The last key is also the one at this place.
    fn again(&mut self, at: usize) {
        let k = self.keys.last().unwrap();
        let k = Key { at, path: k.path.clone(), doc: k.doc.clone(), ty: k.ty.clone() };
        self.keys.push(k);
    }
    /// An object of entries; `lacks` are the fields it does not have.
    fn object(&mut self, last: bool, lacks: Vec<(String, &'static str)>, f: impl FnOnce(&mut Text)) {
        let multi = matches!(self.layout, 1 | 7) && !self.inline;
        match self.layout {
            6 | 7 if !self.inline && !last => {
                self.text += ".";
                return f(self);
            }
            6 | 7 if !self.inline => self.text += if multi { " {\n    " } else { " {" },
            3 | 4 if !self.inline => {
                self.text += if self.layout == 3 { "." } else { " " };
                return f(self);
            }
            _ => self.text += if multi { "{\n    " } else { "{" },
        }
        if !multi {
            self.gaps.push((self.text.len(), lacks.clone()));
        }
        f(self);
        if multi {
            self.text += "\n    ";
            self.gaps.push((self.text.len(), lacks));
            self.text += "\n";
        }
        self.text += "}";
    }
    /// The fields of the object that the chain flattens into another, and what it lacks.
    fn lacks(ws: &[W], level: usize, full: bool) -> Vec<(String, &'static str)> {
        let Some((&w, rest)) = ws.split_first() else {
            let mut l: Vec<(String, &'static str)> = vec![("r s".into(), "@bool")];
            if !full {
                l.push(("q".into(), "@optional(@int)"));
            }
            return l;
        };
        match w {
            Flat => {
                let mut l = Text::lacks(rest, level + 1, full);
                l.push((format!("own{level}"), "@optional(@int)"));
                l
            }
            Field => vec![("p".into(), "@optional(@int)")],
            _ => Text::lacks(rest, level + 1, full),
        }
    }
    fn entries(&mut self, ws: &[W], level: usize, path: &[String]) {
        let Some((&w, rest)) = ws.split_first() else {
            self.key("p", path, Some("innermost p".into()), "@string");
            self.text += if self.layout == 4 && !self.inline { ">one" } else { " one" };
            self.again(self.text.len() - 3);
            if self.layout == 5 || self.inline {
                // a default has every field
                self.text += ",";
                self.key("q", path, Some("innermost q\nin two lines".into()), "@optional(@int)");
                self.text += " 1";
                self.again(self.text.len() - 1);
            }
            if self.inline {
                self.text += ",\"r s\" true";
            }
            return;
        };
        match w {
            Field => {
                let path = self.key("y", path, Some(format!("field y{level}")), head(rest, level + 1));
                self.field(rest, level + 1, &path);
            }
            _ => self.entries(rest, level + 1, path),
        }
    }
    /// The value of a key.
    fn field(&mut self, ws: &[W], level: usize, path: &[String]) {
        if !matches!(self.layout, 3 | 4 | 6 | 7) || self.inline {
            self.text += " ";
        }
        self.value(ws, level, path);
    }
    fn value(&mut self, ws: &[W], level: usize, path: &[String]) {
        let full = self.layout == 5;
        let Some((&w, rest)) = ws.split_first() else {
            return self.object(true, Text::lacks(ws, level, full), |t| t.entries(ws, level, path));
        };
        let item = |i: usize| {
            let mut p = path.to_vec();
            p.push(i.to_string());
            p
        };
        match w {
            Optional | Default | Deprecated | Named | Union => self.value(rest, level + 1, path),
            Seq => {
                self.text += "(";
                self.value(rest, level + 1, &item(0));
                self.text += ")";
            }
            Second => {
                self.text += "(";
                self.value(rest, level + 1, &item(0));
                self.text += " ";
                self.value(rest, level + 1, &item(1));
                self.text += ")";
            }
            Tuple => {
                self.text += "(";
                let inline = std::mem::replace(&mut self.inline, true);
                self.object(false, vec![], |t| {
                    t.key("p", &item(0), Some(format!("tuple p{level}")), "@int");
                    t.text += " 1";
                });
                self.inline = inline;
                self.text += " ";
                self.value(rest, level + 1, &item(1));
                self.text += ")";
            }
            Map | Map1 | Any => self.object(false, vec![], |t| {
                let path = t.key("k", path, None, head(rest, level + 1));
                t.field(rest, level + 1, &path);
            }),
            Rest => self.object(false, vec![], |t| {
                t.key("p", path, Some(format!("rest p{level}")), "@int");
                t.text += if t.layout == 1 && !t.inline { " 1\n" } else { " 1," };
                let path = t.key("k", path, None, head(rest, level + 1));
                t.field(rest, level + 1, &path);
            }),
            Enum => {
                self.text += "@v";
                self.value(rest, level + 1, path);
            }
            Field | Flat => self.object(false, Text::lacks(ws, level, full), |t| t.entries(ws, level, path)),
        }
    }
}

/// How the type of a chain starts.
fn head(ws: &[W], level: usize) -> String {
    match ws.first() {
        None | Some(Any | Rest | Field | Flat) => "@object{".into(),
        Some(Optional) => "@optional(".into(),
        Some(Default) => "@default(".into(),
        Some(Deprecated) => "@deprecated(".into(),
        Some(Named) => format!("@T{level}`"),
        Some(Seq | Second) => "@seq(".into(),
        Some(Map | Map1) => "@map(".into(),
        Some(Enum) => "@enum{".into(),
        Some(Tuple) => "@tuple(".into(),
        Some(Union) => "@union(".into(),
    }
}

/// A schema and a document for it.
fn build(ws: &[W], layout: usize) -> (String, Text) {
    let mut defs = String::new();
    let root = type_of(ws, 0, &mut defs);
    let schema = format!(
        "meta {{id s}}\nschema {{\nDecoy @object{{\n/// decoy p\np @float\n/// decoy x\nx @float\n/// decoy y\ny @float\n}}\n@ @object{{\n/// root decoy\nz @optional(@Decoy)\n/// root x\nx {root}\n/// root p\np @optional(@int)\n}}\n{defs}}}\n"
    );
    let mut t = Text::new(layout);
    t.text = "@schema s.styx\n".into();
    let path = t.key("x", &[], Some("root x".into()), head(ws, 0));
    t.field(ws, 0, &path);
    t.text += "\n";
    t.gaps.push((t.text.len(), vec![("z".into(), "@optional(@Decoy)"), ("p".into(), "@optional(@int)")]));
    (schema, t)
}

fn position(s: &str, offset: usize) -> (u64, u64) {
    let before = &s[..offset];
    (before.matches('\n').count() as u64, (offset - before.rfind('\n').map_or(0, |i| i + 1)) as u64)
}

/// Where the schema has the field with this doc comment.
fn place(schema: &str, doc: &str) -> (usize, usize) {
    let line = format!("/// {}\n", doc.replace('\n', "\n/// "));
    let at = schema.find(&line).unwrap() + line.len();
    (at, at + schema[at..].find(' ').unwrap())
}

thread_local! {
    static SERVER: RefCell<Option<Session>> = const { RefCell::new(None) };
}

fn check(dir: &Path, schema: &str, t: &Text, l: &mut Local) -> Result<u64, (&'static str, String)> {
    let dir = dir.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("s.styx"), schema).unwrap();
    let uri = format!("file://{}/d.styx", dir.display());
    let schema_uri = format!("file://{}/s.styx", dir.display());
    SERVER.with(|c| {
        let mut c = c.borrow_mut();
        let mut s = c.take().unwrap_or_else(Session::new);
        let got = s.open(&uri, &t.text, 1);
        let errors: Vec<&Json> = got
            .iter()
            .filter(|m| m["method"] == "textDocument/publishDiagnostics")
            .flat_map(|m| m["params"]["diagnostics"].as_array().unwrap())
            .filter(|d| d["severity"] == 1)
            .collect();
        // (no variant of a union lacks a field)
        let lacking = |m: &str| m.contains("missing required field 'r s'") || schema.contains("@union(") && m.contains("match any union variant");
        if errors.iter().any(|e| !lacking(e["message"].as_str().unwrap())) {
            return Err(("invalid", format!("{errors:?}")));
        }
        let mut n = 0;
        let mut said = vec![];
        for k in &t.keys {
            let (line, character) = position(&t.text, k.at);
            let mut ask = |method: &str| {
                let r = s.request(method, request_params(method, &uri, line, character));
                if r["error"].is_null() { Ok(r["result"].clone()) } else { Err(("error", r["error"].to_string())) }
            };
            n += 2;
            let hover = ask("textDocument/hover")?;
            let got = hover["contents"]["value"].as_str().unwrap_or("nothing");
            let field = k.doc.as_ref().map(|d| place(schema, d));
            let link = match field {
                Some(f) => {
                    let (line, character) = position(schema, f.0);
                    format!("[@]({schema_uri}#L{}:{})", line + 1, character + 1)
                }
                None => format!("[@]({schema_uri}"),
            };
            let doc = k.doc.as_ref().map_or(String::new(), |d| format!("{d}\n\n"));
            let rest = got.strip_prefix(&doc).and_then(|g| g.strip_prefix(&link));
            let path = format!(" › {}: `", k.path.join(" › "));
            let ok = rest.is_some_and(|r| r.split_once(&path).is_some_and(|(link, ty)| (k.doc.is_none() || link.is_empty()) && format!("{ty}").starts_with(&k.ty) && ty.ends_with('`')));
            if !ok {
                return Err(("hover", format!("at {} it says {got:?}, not {doc:?} {link:?} {path:?} {:?}", k.path.join("."), k.ty)));
            }
            said.push(got.split_once('#').map_or(got, |g| g.1).to_string());
            // its definition is there
            let definition = ask("textDocument/definition")?;
            if let Some((a, b)) = field {
                let ((l0, c0), (l1, c1)) = (position(schema, a), position(schema, b));
                let want = json!({"uri": schema_uri, "range": {"start": {"line": l0, "character": c0}, "end": {"line": l1, "character": c1}}});
                if definition != want {
                    return Err(("definition", format!("the definition of {} is {definition}, not {want}", k.path.join("."))));
                }
            }
        }
        for (at, lacks) in &t.gaps {
            let (line, character) = position(&t.text, *at);
            n += 1;
            let r = s.request("textDocument/completion", request_params("textDocument/completion", &uri, line, character));
            let items = r["result"].as_array().cloned().unwrap_or_default();
            let mut got: Vec<(String, String)> = items.iter().map(|i| (i["label"].as_str().unwrap().to_string(), i["detail"].as_str().unwrap().to_string())).collect();
            got.sort();
            let mut want: Vec<(String, String)> = lacks.iter().map(|(n, t)| (n.clone(), t.to_string())).collect();
            want.sort();
            // each is put where the cursor is
            for i in &items {
                let name = i["label"].as_str().unwrap();
                let text = if name == "r s" { "\"r s\" ".to_string() } else { format!("{name} ") };
                let here = json!({"line": line, "character": character});
                if i["textEdit"] != json!({"range": {"start": here, "end": here}, "newText": text}) {
                    return Err(("completion", format!("{name} is put in as {}", i["textEdit"])));
                }
            }
            if got != want {
                return Err(("completion", format!("at {line}:{character} it offers {got:?}, not {want:?}")));
            }
        }
        l.outcome(&said);
        s.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
        *c = Some(s);
        Ok(n)
    })
}

pub fn run(ctx: &Ctx, dir: &Path) {
    let n = ctx.pick(3, 4);
    let seqs = Seqs::new(ALL.len(), 0, n);
    let dims = Product(vec![LAYOUTS.len() as u64, seqs.total()]);
    let chain = |i: u64| {
        let d = dims.decode(i);
        let mut v = vec![];
        seqs.decode(d[1] as u64, &mut v);
        (d[0], v.into_iter().map(|i| ALL[i]).collect::<Vec<W>>())
    };
    ctx.space(
        "types around an object",
        json!({"constructors": format!("{ALL:?}"), "up to": n, "layouts": LAYOUTS, "asked": "hover and definition at every key, completion in every object"}),
        dims.total(),
        |i| format!("{:?}", chain(i)),
        |i, l| {
            let (layout, ws) = chain(i);
            if !sound(&ws) || !writable(layout, &ws) {
                return l.class("no such document");
            }
            let (schema, t) = build(&ws, layout);
            match guarded(|| check(dir, &schema, &t, l)) {
                Ok(Ok(n)) => {
                    l.class(LAYOUTS[layout]);
                    l.exec(n)
                }
                Ok(Err((kind, e))) => l.violation(viol(format!("{kind} {ws:?} {}", LAYOUTS[layout]), format!("{e}\nschema {schema:?}\ndocument {:?}", t.text))),
                Err(p) => l.violation(viol(format!("panic {ws:?} {}", LAYOUTS[layout]), format!("panic: {p}\nschema {schema:?}\ndocument {:?}", t.text))),
            }
        },
    );

    // types that refer to themselves: every question is answered, and what is said is in the schema
    let mut types = vec![];
    for r in ["@A", "@B"] {
        for t in ["%", "@optional(%)", "@union(% @int)", "@object{f @flatten(%)}", "@object{\n/// x of\nx @optional(%)\n}", "@seq(%)", "@enum{v %}", "@map(%)", "@object{@string %}", "@deprecated(\"old\" %)"] {
            types.push(t.replace('%', r));
        }
    }
    let docs = ["x {}", "x {x {}}", "x ({} {x {}})", "x @v{x @v{}}", "x.x.x 1", "x {y {x {}}}"];
    let dims = Product(vec![types.len() as u64, types.len() as u64, docs.len() as u64]);
    ctx.space(
        "types that refer to themselves",
        json!({"types": types, "documents": docs, "asked": "hover, definition, references and completion at every key and in every object"}),
        dims.total(),
        |i| format!("{:?}", dims.decode(i)),
        |i, l| {
            let d = dims.decode(i);
            let schema = format!("meta {{id s}}\nschema {{\n@ @object{{\n/// root x\nx @A\n}}\nA {}\nB {}\n}}\n", types[d[0]], types[d[1]]);
            let doc = format!("@schema s.styx\n{}\n", docs[d[2]]);
            let dir = dir.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("s.styx"), &schema).unwrap();
            let uri = format!("file://{}/d.styx", dir.display());
            let r = guarded(|| {
                SERVER.with(|c| {
                    let mut c = c.borrow_mut();
                    let mut s = c.take().unwrap_or_else(Session::new);
                    s.open(&uri, &doc, 1);
                    let mut said = vec![];
                    for (at, _) in doc.match_indices(['x', 'y', '{']).skip_while(|(at, _)| *at < 15) {
                        let brace = doc[at..].starts_with('{');
                        let (line, character) = position(&doc, at + brace as usize);
                        for method in ["textDocument/hover", "textDocument/definition", "textDocument/references", "textDocument/completion"] {
                            let r = s.request(method, request_params(method, &uri, line, character));
                            l.exec(1);
                            if !r["error"].is_null() {
                                return Err(format!("{method} at {at} fails: {}", r["error"]));
                            }
                            if method.ends_with("completion") && r["result"].as_array().is_some_and(|a| a.iter().any(|i| i["label"] != "x")) {
                                return Err(format!("{method} at {at} offers {}", r["result"]));
                            }
                            if at == 15 && method.ends_with("hover") && !r["result"]["contents"]["value"].as_str().unwrap_or("").starts_with("root x\n") {
                                return Err(format!("{method} at {at} says {}", r["result"]));
                            }
                            said.push(r["result"].to_string().len());
                        }
                    }
                    l.outcome(&said);
                    s.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
                    *c = Some(s);
                    Ok(())
                })
            });
            let key = format!("A {} B {} {}", types[d[0]], types[d[1]], docs[d[2]]);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => l.violation(viol(key, e)),
                Err(p) => l.violation(viol(key, format!("panic: {p}"))),
            }
        },
    );

    // fields and the documents that use them
    let forms: Vec<(usize, &str)> = (0..3).flat_map(|d| ["", "x 1\n", "y 1\n", "x 1\ny 2\n", "/// é\ny 1\nx {y 1}\n"].map(|b| (d, b))).collect();
    let text = |f: usize| format!("{}{}", ["@schema s.styx\n", "@schema t.styx\n", ""][forms[f].0], forms[f].1);
    let n = forms.len() as u64;
    let dims = Product(vec![n, n, n, ctx.pick(2, n)]);
    ctx.space(
        "fields and the documents that use them",
        json!({"documents": "3, each of either of 2 schemas or none, with 5 bodies; one of them had other text before", "asked": "references and definition at every field of the documents and of both schemas"}),
        dims.total(),
        |i| format!("{:?}", dims.decode(i)),
        |i, l| {
            let d = dims.decode(i);
            // (the text that the second document had before)
            let before = if d[3] == 0 { d[1] } else if n == dims.0[3] { d[3] - 1 } else { 8 };
            let dir = dir.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
            std::fs::create_dir_all(&dir).unwrap();
            let uri = |f: &str| format!("file://{}/{f}.styx", dir.display());
            let schemas = ["meta {id s}\nschema {@ @object{\n/// of s\nx @optional(@any)\n/// of s\ny @optional(@any)\n}}\n", "meta {id t}\nschema {@ @object{y @optional(@any), x @optional(@any)}}\n"];
            let r = guarded(|| {
                SERVER.with(|c| {
                    let mut c = c.borrow_mut();
                    let mut s = c.take().unwrap_or_else(Session::new);
                    let files = ["s", "t", "a", "b", "c"];
                    let texts = [schemas[0].to_string(), schemas[1].to_string(), text(d[0]), text(d[1]), text(d[2])];
                    for (f, t) in files.iter().zip(&texts) {
                        if f.len() == 1 && "st".contains(f) {
                            std::fs::write(dir.join(format!("{f}.styx")), t).unwrap();
                        }
                        if *f == "b" && before != d[1] {
                            s.open(&uri(f), &text(before), 1);
                            s.notify("textDocument/didChange", json!({"textDocument": {"uri": uri(f), "version": 2}, "contentChanges": [{"text": t}]}));
                        } else {
                            s.open(&uri(f), t, 1);
                        }
                    }
                    // every field at the top of a file (that is, at the start of a line or in a schema's object)
                    let schema_of = [0, 1, forms[d[0]].0, forms[d[1]].0, forms[d[2]].0];
                    let mut uses = vec![];
                    for (f, t) in texts.iter().enumerate() {
                        for name in ["x", "y"] {
                            let at = t.match_indices(name).map(|(at, _)| at).find(|&at| if f < 2 { t[at + 1..].starts_with(" @o") } else { at == 0 || t[..at].ends_with('\n') });
                            if let Some(at) = at {
                                uses.push((f, name, position(t, at)));
                            }
                        }
                    }
                    let location = |f: usize, (line, character): (u64, u64)| format!("{} {line}:{character}-{line}:{}", uri(files[f]), character + 1);
                    let show = |j: &Json| format!("{} {}:{}-{}:{}", j["uri"].as_str().unwrap(), j["range"]["start"]["line"], j["range"]["start"]["character"], j["range"]["end"]["line"], j["range"]["end"]["character"]);
                    let mut said = vec![];
                    for &(f, name, (line, character)) in &uses {
                        let of = |g: usize| schema_of[f] < 2 && schema_of[g] == schema_of[f];
                        let fields: Vec<String> = uses.iter().filter(|u| u.1 == name && u.0 >= 2 && of(u.0)).map(|u| location(u.0, u.2)).collect();
                        let schema: Vec<String> = uses.iter().filter(|u| u.1 == name && u.0 < 2 && of(u.0)).map(|u| location(u.0, u.2)).collect();
                        let r = s.request("textDocument/references", request_params("textDocument/references", &uri(files[f]), line, character));
                        l.exec(1);
                        let mut got: Vec<String> = r["result"].as_array().map(|a| a.iter().map(show).collect()).unwrap_or_default();
                        let mut want = fields.clone();
                        if f >= 2 {
                            want.extend(schema.clone());
                        }
                        got.sort();
                        want.sort();
                        if got != want {
                            return Err(format!("references of {name} in {} are {got:?}, not {want:?}", files[f]));
                        }
                        let r = s.request("textDocument/definition", request_params("textDocument/definition", &uri(files[f]), line, character));
                        l.exec(1);
                        let got = (!r["result"].is_null()).then(|| show(&r["result"]));
                        let want = if f < 2 { &fields } else { &schema };
                        if got.as_ref().map_or(!want.is_empty(), |g| !want.contains(g)) {
                            return Err(format!("definition of {name} in {} is {got:?}, not one of {want:?}", files[f]));
                        }
                        said.push(got.is_some());
                    }
                    l.outcome(&said);
                    for f in files {
                        s.notify("textDocument/didClose", json!({"textDocument": {"uri": uri(f)}}));
                    }
                    *c = Some(s);
                    Ok(())
                })
            });
            let key = format!("uses {:?} {:?} {:?} before {:?}", text(d[0]), text(d[1]), text(d[2]), text(before));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => l.violation(viol(key, e)),
                Err(p) => l.violation(viol(key, format!("panic: {p}"))),
            }
        },
    );
}
