//! C17: every position the server gives or takes is a position of the document, and every edit it
//! offers does what it says and nothing else.
//!
//! The reference is a second reading of the protocol's rules (lines end with `\n`, `\r\n` or `\r`;
//! characters are UTF-16 code units; a character past the end of its line is the end of the line),
//! the parser's tree before and after an edit, and the lexer's tokens.
use crate::session::*;
use mc_engine::{Ctx, Local, Product, Seqs, guarded, viol};
use serde_json::{Value as Json, json};
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;
use styx_lsp_ext::StyxLspHost;
use styx_parse::{EventKind, TokenKind};
use styx_tree::{Payload, Value};

// ---- positions ----

/// The start of each line and the end of its text.
fn lines(s: &str) -> Vec<(usize, usize)> {
    let b = s.as_bytes();
    let (mut out, mut start, mut i) = (vec![], 0, 0);
    while i < b.len() {
        let n = match b[i] {
            b'\n' => 1,
            b'\r' => 1 + (b.get(i + 1) == Some(&b'\n')) as usize,
            _ => 0,
        };
        if n > 0 {
            out.push((start, i));
            start = i + n;
        }
        i += n.max(1);
    }
    out.push((start, b.len()));
    out
}
fn width(s: &str) -> u64 {
    s.encode_utf16().count() as u64
}
/// Where an offset is; the offset between `\r` and `\n` belongs to the end of the line.
fn position(s: &str, offset: usize) -> (u64, u64) {
    let ls = lines(s);
    let l = ls.iter().rposition(|(a, _)| *a <= offset).unwrap();
    (l as u64, width(&s[ls[l].0..offset.min(ls[l].1)]))
}
/// The offset of a position, if the document has it.
fn offset(s: &str, line: u64, character: u64) -> Option<usize> {
    let (a, b) = *lines(s).get(line as usize)?;
    (a..=b).find(|o| s.is_char_boundary(*o) && width(&s[a..*o]) == character)
}
fn at(s: &str, p: &Json) -> Option<usize> {
    offset(s, p["line"].as_u64()?, p["character"].as_u64()?)
}
fn range(s: &str, r: &Json) -> Option<(usize, usize)> {
    let (a, b) = (at(s, &r["start"])?, at(s, &r["end"])?);
    (a <= b).then_some((a, b))
}

const CHARS: &[&str] = &["a", "é", "\u{1F600}", "\n", "\r", "\r\n", " ", "\u{2028}"];

fn conversions(src: &str, l: &mut Local) {
    use styx_lsp_ext::{OffsetToPositionParams, Position, PositionToOffsetParams};
    let key = format!("{src:?}");
    let uri = tower_lsp::lsp_types::Url::parse("file:///d.styx").unwrap();
    let parse = styx_cst::parse(src);
    let state = styx_lsp::DocumentState { content: src.into(), parse, tree: None, version: 1 };
    let docs = Arc::new(tokio::sync::RwLock::new(HashMap::from([(uri.clone(), state)])));
    let host = styx_lsp::extensions::StyxLspHostImpl::new(docs);
    let now = |f: std::pin::Pin<Box<dyn std::future::Future<Output = Option<(u64, u64)>> + Send + '_>>| futures::executor::block_on(f);
    for o in (0..=src.len()).filter(|o| src.is_char_boundary(*o)) {
        let want = position(src, o);
        let p = Position::from_offset(src, o as u32);
        if (p.line as u64, p.character as u64) != want {
            return l.violation(viol(key, format!("Position::from_offset({o}) is {p:?}, but the offset is at {want:?}")));
        }
        let got = now(Box::pin(async {
            let q = OffsetToPositionParams { document_uri: uri.to_string(), offset: o as u32 };
            host.offset_to_position(q).await.map(|p| (p.line as u64, p.character as u64))
        }));
        if got != Some(want) {
            return l.violation(viol(key, format!("offset_to_position({o}) is {got:?}, but the offset is at {want:?}")));
        }
    }
    let ls = lines(src);
    for (n, (a, b)) in ls.iter().enumerate() {
        let end = width(&src[*a..*b]);
        for c in 0..=end + 2 {
            let Some(want) = offset(src, n as u64, c.min(end)) else { continue };
            let got = now(Box::pin(async {
                let position = Position { line: n as u32, character: c as u32 };
                host.position_to_offset(PositionToOffsetParams { document_uri: uri.to_string(), position }).await.map(|o| (o as u64, 0))
            }));
            if got != Some((want as u64, 0)) {
                return l.violation(viol(key, format!("position_to_offset({n}:{c}) is {got:?}, but the position is at {want}")));
            }
        }
    }
    l.exec(src.len() as u64);
    l.outcome(&key);
}

// ---- trees ----

fn plain(v: &Value) -> String {
    let tag = v.tag.as_ref().map(|t| format!("@{}", t.name)).unwrap_or_default();
    let payload = match &v.payload {
        None => "@".into(),
        Some(Payload::Scalar(s)) => format!("{:?}", s.text),
        Some(Payload::Sequence(s)) => format!("({})", s.items.iter().map(plain).collect::<Vec<_>>().join(" ")),
        Some(Payload::Object(o)) => format!("{{{}}}", o.entries.iter().map(plain_entry).collect::<Vec<_>>().join(", ")),
    };
    tag + &payload
}
fn plain_entry(e: &styx_tree::Entry) -> String {
    format!("{}{} {}", e.doc_comment.as_ref().map(|d| format!("/{d:?}/")).unwrap_or_default(), plain(&e.key), plain(&e.value))
}
/// Every object of the tree with the path of keys that leads to it.
fn objects<'a>(v: &'a Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, &'a styx_tree::Object)>) {
    match &v.payload {
        Some(Payload::Object(o)) => {
            out.push((path.clone(), o));
            for (i, e) in o.entries.iter().enumerate() {
                path.push(step(o, i));
                objects(&e.value, path, out);
                path.pop();
            }
        }
        Some(Payload::Sequence(s)) => {
            for (i, x) in s.items.iter().enumerate() {
                path.push(i.to_string());
                objects(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
/// The key of an entry, and which of several with that key it is.
fn step(o: &styx_tree::Object, i: usize) -> String {
    let k = plain(&o.entries[i].key);
    let n = o.entries[..i].iter().filter(|e| plain(&e.key) == k).count();
    if n == 0 { k } else { format!("{k}#{n}") }
}
/// The ways to rename one key of the tree.
fn renamed(v: &Value, from: &str, to: &str, out: &mut Vec<Value>) {
    match &v.payload {
        Some(Payload::Object(o)) => {
            for (i, e) in o.entries.iter().enumerate() {
                let mut put = |f: &dyn Fn(&mut styx_tree::Entry)| {
                    let mut n = o.clone();
                    f(&mut n.entries[i]);
                    let mut w = v.clone();
                    w.payload = Some(Payload::Object(n));
                    out.push(w);
                };
                if e.key.as_str() == Some(from) {
                    put(&|e| {
                        if let Some(Payload::Scalar(s)) = &mut e.key.payload {
                            s.text = to.into();
                        }
                    });
                }
                let mut inner = vec![];
                renamed(&e.value, from, to, &mut inner);
                for x in inner {
                    put(&|e| e.value = x.clone());
                }
            }
        }
        Some(Payload::Sequence(s)) => {
            for (i, x) in s.items.iter().enumerate() {
                let mut inner = vec![];
                renamed(x, from, to, &mut inner);
                for y in inner {
                    let mut n = s.clone();
                    n.items[i] = y;
                    let mut w = v.clone();
                    w.payload = Some(Payload::Sequence(n));
                    out.push(w);
                }
            }
        }
        _ => {}
    }
}
/// The key a piece of source text names.
fn key_of(text: &str) -> Option<String> {
    let t = styx_tree::parse(&format!("{text} x")).ok()?;
    let o = t.as_object()?;
    (o.entries.len() == 1).then(|| o.entries[0].key.as_str().map(String::from))?
}
fn comments(src: &str) -> Vec<String> {
    let mut v: Vec<String> = styx_parse::Tokenizer::new(src)
        .filter(|t| matches!(t.kind, TokenKind::LineComment | TokenKind::DocComment))
        .map(|t| t.text.to_string())
        .collect();
    v.sort();
    v
}

// ---- highlighting ----

/// What each byte of a document should be shown as; `?` where no claim is made.
fn classes(src: &str) -> Option<Vec<u8>> {
    let events = styx_parse::Parser::new(src).parse_to_vec();
    let mut keys = vec![];
    for e in &events {
        match &e.kind {
            EventKind::Error { .. } => return None,
            EventKind::Key { .. } => keys.push((e.span.start as usize, e.span.end as usize)),
            _ => {}
        }
    }
    let mut out = vec![b'.'; src.len()];
    for t in styx_parse::Tokenizer::new(src) {
        let (a, b) = (t.span.start as usize, t.span.end as usize);
        let key = keys.iter().any(|(x, y)| *x <= a && a < *y);
        let c = match t.kind {
            TokenKind::LineComment => b'c',
            TokenKind::DocComment => b'd',
            TokenKind::BareScalar | TokenKind::QuotedScalar | TokenKind::RawScalar => if key { b'p' } else { b's' },
            TokenKind::Tag => if key { b'p' } else { b't' },
            TokenKind::At => if key { b'?' } else { b't' },
            TokenKind::Gt | TokenKind::HeredocStart | TokenKind::HeredocEnd => b'o',
            TokenKind::HeredocContent => b'h',
            TokenKind::Error => return None,
            _ => continue,
        };
        for (i, x) in src[a..b].bytes().enumerate() {
            out[a + i] = if matches!(x, b'\r' | b'\n') { b'?' } else { c };
        }
    }
    Some(out)
}
const LEGEND: [u8; 8] = *b"cs##t#po";

fn tokens(src: &str, data: &Json) -> Result<Vec<u8>, String> {
    let n: Vec<u64> = data.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
    let mut out = vec![b'.'; src.len()];
    let (mut line, mut start) = (0, 0);
    for t in n.chunks(5) {
        start = if t[0] == 0 { start + t[1] } else { t[1] };
        line += t[0];
        let what = format!("token at {line}:{start} of length {}", t[2]);
        let (Some(a), Some(b)) = (offset(src, line, start), offset(src, line, start + t[2])) else {
            return Err(format!("{what} does not lie in its line"));
        };
        if a == b {
            return Err(format!("{what} is empty"));
        }
        let c = LEGEND[t[3] as usize];
        for x in &mut out[a..b] {
            if *x != b'.' {
                return Err(format!("{what} overlaps another"));
            }
            *x = if c == b'c' && t[4] == 1 { b'd' } else { c };
        }
    }
    Ok(out)
}

fn differ(want: &[u8], got: &[u8], heredoc: u8) -> Option<usize> {
    (0..want.len()).find(|i| {
        let w = if want[*i] == b'h' { heredoc } else { want[*i] };
        w != b'?' && w != got[*i]
    })
}

// ---- a document in the server ----

struct Field {
    name: &'static str,
    required: bool,
}
/// The schema the documents name, and what its objects hold.
const SCHEMA: &str = "meta {id s, version 1.0.0, description words}\nschema {\n    @ @object{\n        /// é\n        name @int\n        \"b c\" @string\n        o @Sub\n        list @optional(@seq(@string))\n        pick @default(one @one-of(@string (one \"t w\")))\n    }\n    Sub @object{\n        port @int\n        host @one-of(@string (\"é :\" x))\n        on @optional(@bool)\n        seq @seq(@int)\n    }\n}\n";
const ROOT: &[Field] = &[
    Field { name: "name", required: true },
    Field { name: "b c", required: true },
    Field { name: "o", required: true },
    Field { name: "list", required: false },
    Field { name: "pick", required: false },
];
const SUB: &[Field] = &[
    Field { name: "port", required: true },
    Field { name: "host", required: true },
    Field { name: "on", required: false },
    Field { name: "seq", required: true },
];

thread_local! {
    static SERVER: RefCell<Option<Session>> = const { RefCell::new(None) };
}

struct Doc<'a> {
    s: &'a mut Session,
    uri: &'a str,
    text: &'a str,
    schema_uri: &'a str,
    tree: Option<Value>,
}

impl Doc<'_> {
    fn ask(&mut self, method: &str, params: Json) -> Result<Json, String> {
        let r = self.s.request(method, params);
        if !r["error"].is_null() {
            return Err(format!("{method} is answered with {}", r["error"]));
        }
        let r = r["result"].clone();
        self.ranges(&r, self.uri, &mut vec![]).map_err(|e| format!("{method}: {e}"))?;
        Ok(r)
    }
    fn text_of(&self, uri: &str) -> &str {
        if uri == self.schema_uri { SCHEMA } else { self.text }
    }
    /// Every range and position of an answer lies in the document it is about.
    fn ranges(&self, r: &Json, uri: &str, path: &mut Vec<String>) -> Result<(), String> {
        match r {
            Json::Object(m) => {
                let uri = m.get("uri").or_else(|| m.get("targetUri")).and_then(|u| u.as_str()).unwrap_or(uri);
                if m.contains_key("start") && m.contains_key("end") {
                    if range(self.text_of(uri), r).is_none() {
                        return Err(format!("{} is {r}, which the document does not have", path.join(".")));
                    }
                    return Ok(());
                }
                if m.contains_key("line") && m.contains_key("character") && at(self.text_of(uri), r).is_none() {
                    return Err(format!("{} is {r}, which the document does not have", path.join(".")));
                }
                for (k, v) in m {
                    let uri = if path.last().is_some_and(|p| p == "changes") { k } else { uri };
                    path.push(k.clone());
                    self.ranges(v, uri, path)?;
                    path.pop();
                }
                if let (Some(a), Some(b)) = (m.get("range"), m.get("selectionRange")) {
                    let (a, b) = (range(self.text, a).unwrap(), range(self.text, b).unwrap());
                    if !(a.0 <= b.0 && b.1 <= a.1) {
                        return Err(format!("{}: the selection range is outside the range", path.join(".")));
                    }
                }
                Ok(())
            }
            Json::Array(a) => a.iter().try_for_each(|x| self.ranges(x, uri, path)),
            _ => Ok(()),
        }
    }
    fn apply(&self, edits: &Json) -> Result<String, String> {
        let mut es: Vec<((usize, usize), &str)> =
            edits.as_array().ok_or("no list of edits")?.iter().map(|e| (range(self.text, &e["range"]).unwrap(), e["newText"].as_str().unwrap())).collect();
        es.sort();
        if es.windows(2).any(|w| w[0].0.1 > w[1].0.0) {
            return Err("the edits overlap".into());
        }
        let mut out = self.text.to_string();
        for ((a, b), t) in es.into_iter().rev() {
            out.replace_range(a..b, t);
        }
        Ok(out)
    }
}

fn with_doc<T>(dir: &Path, name: &str, text: &str, f: impl FnOnce(&mut Doc, &[Json]) -> Result<T, String>) -> Result<T, String> {
    let uri = format!("file://{}/{name}", dir.display());
    let schema_uri = format!("file://{}/s.styx", dir.display());
    SERVER.with(|c| {
        let mut c = c.borrow_mut();
        // a server that panicked is not used again
        let mut s = c.take().unwrap_or_else(Session::new);
        let got = s.open(&uri, text, 1);
        let mut d = Doc { s: &mut s, uri: &uri, text, schema_uri: &schema_uri, tree: styx_tree::parse(text).ok() };
        let diags: Vec<Json> =
            got.iter().filter(|m| m["method"] == "textDocument/publishDiagnostics").flat_map(|m| m["params"]["diagnostics"].as_array().unwrap().clone()).collect();
        let r = d.ranges(&json!(diags), &uri, &mut vec!["diagnostics".into()]).and_then(|_| f(&mut d, &diags));
        s.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
        *c = Some(s);
        r
    })
}

fn positions(src: &str, every: bool) -> Vec<(u64, u64)> {
    let offsets: Vec<usize> = if every {
        (0..=src.len()).filter(|o| src.is_char_boundary(*o)).collect()
    } else {
        let mut v: Vec<usize> = styx_parse::Tokenizer::new(src).filter(|t| t.kind != TokenKind::Whitespace).map(|t| t.span.start as usize).collect();
        v.push(src.len());
        v
    };
    let mut v: Vec<(u64, u64)> = offsets.into_iter().map(|o| position(src, o)).collect();
    v.dedup();
    v
}

/// What holds for any text.
fn any_text(d: &mut Doc, every: bool) -> Result<u64, String> {
    let uri = d.uri.to_string();
    let src = d.text.to_string();
    let mut steps = 0;
    // highlighting
    let r = d.ask("textDocument/semanticTokens/full", request_params("textDocument/semanticTokens/full", &uri, 0, 0))?;
    let got = tokens(&src, &r["data"]).map_err(|e| format!("semantic tokens: {e}"))?;
    let parse = styx_cst::parse(&src);
    let mut spans = vec![b'.'; src.len()];
    for s in styx_lsp::compute_highlight_spans(&parse) {
        if s.start >= s.end || !src.is_char_boundary(s.start) || !src.is_char_boundary(s.end) {
            return Err(format!("highlight span {s:?} is not a piece of the text"));
        }
        for x in &mut spans[s.start..s.end] {
            if *x != b'.' {
                return Err(format!("highlight span {s:?} overlaps another"));
            }
            let c = LEGEND[s.token_type as usize];
            *x = if c == b'c' && s.is_doc_comment { b'd' } else { c };
        }
    }
    if d.tree.is_some() && parse.is_ok() && let Some(want) = classes(&src) {
        let show = |v: &[u8]| String::from_utf8_lossy(v).into_owned();
        if differ(&want, &got, b'.').is_some() {
            return Err(format!("semantic tokens show {}, but the text is {}", show(&got), show(&want)));
        }
        if differ(&want, &spans, b's').is_some() {
            return Err(format!("highlight spans show {}, but the text is {}", show(&spans), show(&want)));
        }
    }
    // outline
    let r = d.ask("textDocument/documentSymbol", request_params("textDocument/documentSymbol", &uri, 0, 0))?;
    if let Some(t) = d.tree.clone() {
        outline(&src, t.as_object().map(|o| o.entries.as_slice()).unwrap_or(&[]), r.as_array().map(Vec::as_slice).unwrap_or(&[]))?;
    }
    // formatting
    let r = d.ask("textDocument/formatting", request_params("textDocument/formatting", &uri, 0, 0))?;
    if d.tree.is_some() {
        let want = styx_format::format_source(&src, styx_format::FormatOptions::default().indent("    "));
        let got = if r.is_null() { src.clone() } else { d.apply(&r)? };
        if got != want {
            return Err(format!("formatting makes {got:?}, but the formatter makes {want:?}"));
        }
    } else if !r.is_null() {
        return Err(format!("a document with errors is formatted: {r}"));
    }
    for m in ["textDocument/documentLink", "textDocument/inlayHint"] {
        d.ask(m, request_params(m, &uri, 0, 0))?;
    }
    let before = d.tree.as_ref().map(plain);
    for (line, character) in positions(&src, every) {
        steps += 1;
        let here = at(&src, &json!({"line": line, "character": character})).unwrap();
        let r = d.ask("textDocument/onTypeFormatting", request_params("textDocument/onTypeFormatting", &uri, line, character))?;
        if !r.is_null() {
            let new = d.apply(&r)?;
            if let Some(b) = &before {
                let a = styx_tree::parse(&new).ok().map(|t| plain(&t));
                if a.as_ref() != Some(b) {
                    return Err(format!("a newline typed before {line}:{character} makes {new:?}, which reads as {a:?}, not {b}"));
                }
            }
            let (a, b) = range(&src, &r[0]["range"]).unwrap();
            let blank = |s: &str| s.bytes().all(|c| matches!(c, b' ' | b'\t'));
            if r.as_array().unwrap().len() != 1 || lines(&src)[line as usize].0 != a || !blank(&src[a..b]) || !blank(r[0]["newText"].as_str().unwrap()) {
                return Err(format!("a newline typed before {line}:{character} changes more than the indentation: {r}"));
            }
        }
        // the indentation is what the brackets say
        if before.is_some() {
            let (mut depth, mut inside) = (0usize, false);
            for t in styx_parse::Tokenizer::new(&src) {
                let (a, b) = (t.span.start as usize, t.span.end as usize);
                inside |= a < lines(&src)[line as usize].0 && lines(&src)[line as usize].0 < b;
                inside |= matches!(t.kind, TokenKind::HeredocContent | TokenKind::HeredocEnd) && a <= lines(&src)[line as usize].0 && lines(&src)[line as usize].0 < b;
                if b <= here {
                    match t.kind {
                        TokenKind::LBrace | TokenKind::LParen => depth += 1,
                        TokenKind::RBrace | TokenKind::RParen => depth -= 1,
                        _ => {}
                    }
                }
            }
            let (a, b) = lines(&src)[line as usize];
            let now = src[a..b].len() - src[a..b].trim_start_matches([' ', '\t']).len();
            let want = if inside { None } else { Some("    ".repeat(depth)) };
            let got = if r.is_null() { src[a..a + now].to_string() } else { r[0]["newText"].as_str().unwrap().to_string() };
            if want.as_ref().is_some_and(|w| *w != got) || (inside && !r.is_null()) {
                return Err(format!("a newline typed before {line}:{character} indents with {got:?}, not {want:?}"));
            }
        }
        // what the key under the cursor is
        let key = d.tree.is_some().then(|| key_at(&src, here)).flatten();
        for m in ["textDocument/definition", "textDocument/references"] {
            let r = d.ask(m, request_params(m, &uri, line, character))?;
            let Some(k) = &key else { continue };
            let places = if r.is_array() { r.as_array().unwrap().clone() } else { vec![r.clone()] };
            for p in places.iter().filter(|p| p["uri"].is_string()) {
                let text = d.text_of(p["uri"].as_str().unwrap());
                let (a, b) = range(text, &p["range"]).unwrap();
                if key_of(&text[a..b]).as_ref() != Some(k) {
                    return Err(format!("{m} on {k:?} leads to {:?}", &text[a..b]));
                }
            }
            if places.iter().all(|p| !p["uri"].is_string()) && ROOT.iter().chain(SUB).any(|f| f.name == k) && src.starts_with("@schema s.styx") && known(d, here) {
                return Err(format!("{m} on {k:?} leads nowhere"));
            }
        }
        d.ask("textDocument/hover", request_params("textDocument/hover", &uri, line, character))?;
        let r = d.ask("textDocument/completion", request_params("textDocument/completion", &uri, line, character))?;
        let items = r.as_array().or_else(|| r["items"].as_array()).cloned().unwrap_or_default();
        for i in items {
            let e = &i["textEdit"];
            if !e.is_object() {
                continue;
            }
            let (a, b) = range(&src, &e["range"]).unwrap();
            let text = e["newText"].as_str().unwrap();
            if !(a <= here && here <= b) || src[a..b].contains(['\n', '\r']) {
                return Err(format!("a completion at {line}:{character} replaces {:?}", &src[a..b]));
            }
            if let Some(label) = i["label"].as_str()
                && ROOT.iter().chain(SUB).any(|f| f.name == label)
                && key_of(text.trim_end()).as_deref() != Some(label)
            {
                return Err(format!("the completion {label:?} inserts {text:?}, which is another key"));
            }
        }
    }
    Ok(steps)
}

/// The untagged single key an offset is strictly inside of (or at the start of).
fn key_at(src: &str, here: usize) -> Option<String> {
    let events = styx_parse::Parser::new(src).parse_to_vec();
    events.iter().find_map(|e| match &e.kind {
        EventKind::Key { tag: None, payload: Some(p), .. } if e.span.start as usize <= here && here < e.span.end as usize => Some(p.to_string()),
        _ => None,
    })
}

/// Whether the key here is one the schema describes.
fn known(d: &Doc, here: usize) -> bool {
    let Some(t) = &d.tree else { return false };
    let mut os = vec![];
    objects(t, &mut vec![], &mut os);
    os.iter().any(|(path, o)| {
        let fields = match path.as_slice() {
            [] => ROOT,
            [x] if x == "\"o\"" || x.starts_with("\"o\"#") => SUB,
            _ => return false,
        };
        o.entries.iter().any(|e| {
            e.key.span.is_some_and(|s| s.start as usize <= here && here < s.end as usize) && e.key.as_str().is_some_and(|k| fields.iter().any(|f| f.name == k))
        })
    })
}

fn outline(src: &str, entries: &[styx_tree::Entry], symbols: &[Json]) -> Result<(), String> {
    let want: Vec<&styx_tree::Entry> = entries.iter().filter(|e| e.key.as_str().is_some()).collect();
    if want.len() != symbols.len() {
        return Err(format!("the outline has {} symbols for {} entries", symbols.len(), want.len()));
    }
    for (e, s) in want.iter().zip(symbols) {
        let k = e.key.as_str().unwrap();
        let name = s["name"].as_str().unwrap();
        if name != if k.is_empty() { "\"\"" } else { k } {
            return Err(format!("the outline calls {k:?} {name:?}"));
        }
        let (a, b) = range(src, &s["selectionRange"]).unwrap();
        let tagged = e.key.tag.is_some();
        if !tagged && &src[a..b] != k && key_of(&src[a..b]).as_deref() != Some(k) {
            return Err(format!("the outline selects {:?} for {k:?}", &src[a..b]));
        }
        let none = vec![];
        let children = s["children"].as_array().unwrap_or(&none);
        // a symbol is around what it selects, its value and its children
        let (c, d) = range(src, &s["range"]).unwrap();
        let around = children.iter().map(|s| range(src, &s["range"]).unwrap()).chain([(a, b)]).chain(e.value.span.filter(|_| !e.value.is_unit()).map(|s| (s.start as usize, s.end as usize)));
        if let Some((x, y)) = around.into_iter().find(|&(x, y)| x < c || d < y) {
            return Err(format!("the outline says {k:?} is {:?}, without {:?}", &src[c..d], &src[x..y]));
        }
        outline(src, e.value.as_object().map(|o| o.entries.as_slice()).unwrap_or(&[]), children)?;
    }
    Ok(())
}

/// What the offered edits do.
fn edits(d: &mut Doc, diags: &[Json], every: bool, l: &mut Local) -> Result<u64, String> {
    let uri = d.uri.to_string();
    let src = d.text.to_string();
    let mut steps = 0;
    let Some(tree) = d.tree.clone() else { return Ok(0) };
    let before = plain(&tree);
    let mut old = vec![];
    objects(&tree, &mut vec![], &mut old);
    let mut seen: Vec<String> = vec![];
    for (line, character) in positions(&src, every) {
        steps += 1;
        let pos = json!({"line": line, "character": character});
        let params = json!({"textDocument": {"uri": uri}, "range": {"start": pos, "end": pos}, "context": {"diagnostics": diags}});
        let r = d.ask("textDocument/codeAction", params)?;
        for a in r.as_array().cloned().unwrap_or_default() {
            let title = a["title"].as_str().unwrap();
            if a["edit"].is_null() || seen.contains(&a.to_string()) {
                continue;
            }
            seen.push(a.to_string());
            let m = a["edit"]["changes"].as_object().ok_or(format!("{title:?} changes nothing"))?;
            if m.len() != 1 || !m.contains_key(&uri) {
                return Err(format!("{title:?} at {line}:{character} changes {:?}", m.keys().collect::<Vec<_>>()));
            }
            let new = d.apply(&m[&uri]).map_err(|e| format!("{title:?}: {e}"))?;
            let fail = |what: String| format!("{title:?} at {line}:{character} makes {new:?}: {what}");
            let after = styx_tree::parse(&new).map_err(|e| fail(format!("which is not a document: {e}")))?;
            let data = &a["diagnostics"][0]["data"];
            if title.starts_with("Rename") {
                l.class("rename");
                let (from, to) = (data["from"].as_str().unwrap(), data["to"].as_str().unwrap());
                let mut ways = vec![];
                renamed(&tree, from, to, &mut ways);
                if !ways.iter().any(|w| plain(w) == plain(&after)) {
                    return Err(fail("more than the key has changed".into()));
                }
            } else if title.starts_with("Fill") {
                l.class("fill");
                let mut now = vec![];
                objects(&after, &mut vec![], &mut now);
                // the object that has more entries than before
                let grown: Vec<(&[String], &styx_tree::Object, &styx_tree::Object)> = old
                    .iter()
                    .filter_map(|(p, o)| now.iter().find(|(q, n)| p == q && n.entries.len() != o.entries.len()).map(|(_, n)| (p.as_slice(), *o, *n)))
                    .collect();
                let [(path, o, n)] = grown.as_slice() else { return Err(fail(format!("{} objects have changed", grown.len()))) };
                let fields = match path {
                    [] => ROOT,
                    [x] if x == "\"o\"" || x.starts_with("\"o\"#") => SUB,
                    p => return Err(fail(format!("the schema says nothing about {p:?}"))),
                };
                // the cursor is in the object
                let here = offset(&src, line, character).unwrap();
                if let Some(sp) = o.span
                    && !path.is_empty()
                    && !(sp.start as usize <= here && here <= sp.end as usize)
                {
                    return Err(fail(format!("the cursor is not in {path:?}")));
                }
                let has = |f: &Field| o.entries.iter().any(|e| e.key.as_str() == Some(f.name));
                let missing: Vec<&str> = fields.iter().filter(|f| !has(f)).map(|f| f.name).collect();
                let required: Vec<&str> = fields.iter().filter(|f| !has(f) && f.required).map(|f| f.name).collect();
                let mut added = vec![];
                let mut rest = o.entries.iter().map(plain_entry).peekable();
                for e in &n.entries {
                    if rest.peek() == Some(&plain_entry(e)) {
                        rest.next();
                    } else {
                        added.push(e.key.as_str().unwrap_or("@"));
                    }
                }
                if rest.next().is_some() {
                    return Err(fail(format!("an entry of {path:?} has changed")));
                }
                let all = title.starts_with("Fill all");
                if added.iter().any(|a| !missing.contains(a)) || required.iter().any(|r| !added.contains(r)) || (all && added.len() != missing.len()) {
                    return Err(fail(format!("{added:?} are added where {missing:?} are missing ({required:?} required)")));
                }
                // nothing else has changed
                let mut back = after.clone();
                remove(&mut back, path, &added);
                if plain(&back) != before {
                    return Err(fail("something else has changed".into()));
                }
                if comments(&src) != comments(&new) {
                    return Err(fail("the comments have changed".into()));
                }
            } else if title.starts_with("Reorder") {
                l.class("reorder");
                let rank = |e: &styx_tree::Entry| {
                    if e.key.as_str().is_none() {
                        return (0, 0);
                    }
                    match ROOT.iter().position(|f| e.key.as_str() == Some(f.name)) {
                        Some(i) => (1, i),
                        None => (2, 0),
                    }
                };
                let mut want: Vec<&styx_tree::Entry> = tree.as_object().unwrap().entries.iter().collect();
                want.sort_by_key(|e| rank(e));
                let want: Vec<String> = want.into_iter().map(plain_entry).collect();
                let got: Vec<String> = after.as_object().unwrap().entries.iter().map(plain_entry).collect();
                if want != got {
                    return Err(fail(format!("the entries are {got:?}, not {want:?}")));
                }
                if comments(&src) != comments(&new) {
                    return Err(fail("the comments have changed".into()));
                }
            } else if title.starts_with("Add") || title.starts_with("Don't use") {
                l.class("declare");
                let entries = |t: &Value| -> Vec<String> { t.as_object().unwrap().entries.iter().map(plain_entry).collect() };
                let (old, new) = (entries(&tree), entries(&after));
                let want = if title.starts_with("Add") { "@schema@ {" } else { "@schema@ @" };
                if new.len() != old.len() + 1 || !new[0].starts_with(want) || new[1..] != old {
                    return Err(fail(format!("the entries are {new:?}, not a declaration and {old:?}")));
                }
                if comments(&src) != comments(d.text) {
                    return Err(fail("the comments have changed".into()));
                }
            } else {
                return Err(format!("an action nobody asked for: {title:?}"));
            }
        }
    }
    // every suggestion the diagnostics make is offered, about the key they name
    for g in diags.iter().filter(|g| g["data"]["type"] == "rename_field") {
        let (a, b) = range(&src, &g["range"]).unwrap();
        let from = g["data"]["from"].as_str().unwrap();
        if key_of(&src[a..b]).as_deref() != Some(from) {
            return Err(format!("the diagnostic about {from:?} points at {:?}", &src[a..b]));
        }
    }
    Ok(steps)
}

fn remove(v: &mut Value, path: &[String], names: &[&str]) {
    let Some(Payload::Object(o)) = &mut v.payload else { return };
    match path {
        [] => o.entries.retain(|e| !e.key.as_str().is_some_and(|k| names.contains(&k))),
        [p, rest @ ..] => {
            if let Some(i) = (0..o.entries.len()).find(|i| step(o, *i) == *p) {
                remove(&mut o.entries[i].value, rest, names)
            }
        }
    }
}

fn check(dir: &Path, name: &str, src: &str, every: bool, with_edits: bool, l: &mut Local) {
    let r = guarded(|| {
        with_doc(dir, name, src, |d, diags| {
            let mut n = any_text(d, every)?;
            if with_edits {
                n += edits(d, diags, every, l)?;
            }
            l.outcome(&(d.tree.as_ref().map(plain), diags.len()));
            Ok(n)
        })
    });
    match r {
        Ok(Ok(n)) => l.exec(n + 1),
        Ok(Err(e)) => l.violation(viol(format!("{src:?}"), e)),
        Err(p) => l.violation(viol(format!("{src:?}"), format!("panic: {p}"))),
    }
}

pub fn run(ctx: &Ctx, dir: &Path) {
    std::fs::write(dir.join("s.styx"), SCHEMA).unwrap();
    // lines and characters
    let n = ctx.pick(5, 7);
    let seqs = Seqs::new(CHARS.len(), 0, n);
    ctx.space(
        "positions and offsets",
        json!({"characters": CHARS, "up to": n, "positions": "every offset, every line and character and two past each line"}),
        seqs.total(),
        |i| format!("{:?}", seqs.concat(i, CHARS)),
        |i, l| conversions(&seqs.concat(i, CHARS), l),
    );
    // any text
    let pieces: &[&str] = &[
        "a", " ", "\n", "\r\n", "{", "}", "(", ")", "\"é\u{1F600}\"", "\u{1F600}", "// é\n", "/// d\n", "@t", "@", ",", "x>1", "<<E\n é\nE\n", "r#\"q\"#", "\"p\nq\"", "b.c",
    ];
    let n = ctx.pick(4, 5);
    let seqs = Seqs::new(pieces.len(), 0, n);
    ctx.space(
        "requests about any text",
        json!({"pieces": pieces, "up to": n, "requests": "outline, tokens, formatting, links, hints; at every token: newline typed, definition, references, hover, completion"}),
        seqs.total(),
        |i| format!("{:?}", seqs.concat(i, pieces)),
        |i, l| check(dir, "d.styx", &seqs.concat(i, pieces), false, false, l),
    );
    // documents with a schema
    let entries: &[&str] = &[
        "name 1", "nmae 1", "\"b c\" é", "o {port 1}", "o {\n    host x // n\n}", "o {}", "o {port 1, hsot x}", "o.port 1", "o @t{port 1}", "u (1 {v 2})", "list (é \u{1F600})", "pick <<E\n one\n E", "o port>1",
    ];
    let seps: &[&str] = &["\n", ", ", "\n\n", "\n// c\n", "\r\n", " // t\n", "\n/// d\n", "\n  "];
    let heads: &[&str] = &["@schema s.styx\n", "@schema s.styx, ", "// top\n\n@schema s.styx\n\n", "/// h\n@schema s.styx\r\n", "\u{FEFF}@schema s.styx\n"];
    for k in 0..=2 {
        let mut dims = vec![heads.len() as u64];
        for _ in 0..k {
            dims.extend([entries.len() as u64, seps.len() as u64]);
        }
        let p = Product(dims);
        let text = |i: u64| {
            let d = p.decode(i);
            let mut s = heads[d[0]].to_string();
            for c in d[1..].chunks(2) {
                s += entries[c[0]];
                s += seps[c[1]];
            }
            s
        };
        ctx.space(
            &format!("edits of documents with {k} entries"),
            json!({"heads": heads, "entries": entries, "separators": seps, "schema": SCHEMA, "at": if k < 2 { "every position" } else { "every token" }}),
            p.total(),
            |i| format!("{:?}", text(i)),
            |i, l| check(dir, "d.styx", &text(i), k < 2, true, l),
        );
    }
    // the inside of a nested object, and a root with braces
    let forms: &[(&str, &str)] = &[
        ("@schema s.styx\nname 1\no {", "}"),
        ("@schema s.styx\no {\n    ", "\n}\nname 1\n"),
        ("@schema s.styx\no { // é\n  ", " }"),
        ("@schema s.styx\no @t{", "}\n"),
        ("{@schema s.styx, o {", "}, name 1}"),
        ("{\n    @schema s.styx\n    o {\n        ", "\n    }\n}\n"),
    ];
    let inner: &[&str] = &["port 1", "host x", "hsot x", "on true", "seq (1)", "zz {on 1}"];
    let seps: &[&str] = &[", ", "\n    ", ",\n    ", " // \u{1F600}\n    ", "\r\n"];
    for k in 0..=ctx.pick(2, 3) {
        let mut dims = vec![forms.len() as u64];
        for _ in 0..k {
            dims.extend([inner.len() as u64, seps.len() as u64]);
        }
        let p = Product(dims);
        let text = |i: u64| {
            let d = p.decode(i);
            let mut s = forms[d[0]].0.to_string();
            for (j, c) in d[1..].chunks(2).enumerate() {
                s += inner[c[0]];
                // with or without something after the last one
                if j + 1 < k || c[1] > 0 {
                    s += seps[c[1]];
                }
            }
            s + forms[d[0]].1
        };
        ctx.space(
            &format!("edits of nested objects with {k} entries"),
            json!({"around": forms, "entries": inner, "separators": seps, "schema": SCHEMA, "at": "every token"}),
            p.total(),
            |i| format!("{:?}", text(i)),
            |i, l| check(dir, "d.styx", &text(i), false, true, l),
        );
    }
    // documents a schema is suggested for
    std::fs::create_dir_all(dir.join(".config/tracey")).unwrap();
    std::fs::create_dir_all(dir.join(".git")).unwrap();
    let pieces: &[&str] = &["a", " ", "\n", "\r\n", "{", "}", "// é\n", "/// d\n", "@schema", ",", "@t", "x>1", "<<E\n é\nE\n"];
    let seqs = Seqs::new(pieces.len(), 0, ctx.pick(4, 5));
    ctx.space(
        "declaring a schema",
        json!({"pieces": pieces, "up to": ctx.pick(4, 5)}),
        seqs.total(),
        |i| format!("{:?}", seqs.concat(i, pieces)),
        |i, l| check(dir, ".config/tracey/config.styx", &seqs.concat(i, pieces), false, true, l),
    );
}
