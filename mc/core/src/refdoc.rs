//! Reference model of the Styx document language, written from
//! docs/content/reference/spec/parser.md (not from the implementation).
//!
//! `parse` maps a document to `Accept(tree)`, `Reject` or `Unspecified` (the specification does
//! not decide; nothing is claimed about such documents beyond the all-inputs properties).

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Bare,
    Quoted,
    Raw,
    Heredoc,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum R {
    Unit,
    Scalar(Kind, String),
    Seq(Vec<R>),
    Obj(Vec<E>),
    /// Tag name and payload (`Unit` when there is none).
    Tag(String, Box<R>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Unit,
    Scalar(Kind, String),
    Tag(String, Option<(Kind, String)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct E {
    pub doc: Option<String>,
    pub key: K,
    pub val: R,
}

/// Key identity: scalar text regardless of quoting / unit / tag name and payload.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum KeyId {
    Unit,
    Scalar(String),
    Tag(String, Option<String>),
}

impl K {
    pub fn id(&self) -> KeyId {
        match self {
            K::Unit => KeyId::Unit,
            K::Scalar(_, s) => KeyId::Scalar(s.clone()),
            K::Tag(n, p) => KeyId::Tag(n.clone(), p.as_ref().map(|p| p.1.clone())),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Accept(Vec<E>),
    Reject(&'static str),
    Unspecified(&'static str),
}

enum Stop {
    Reject(&'static str),
    Unspec(&'static str),
}
use Stop::*;

type Res<T> = Result<T, Stop>;

/// A parsed atom, before it is used as key or value.
enum Atom {
    Val(R),
    /// attributes object
    Attrs(Vec<E>),
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

fn is_ws(c: char) -> bool {
    c == ' ' || c == '\t'
}
fn bare_stop(c: char) -> bool {
    matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '>') || c.is_whitespace()
}
fn tag_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_'
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn at(&self, n: usize) -> Option<char> {
        self.s.get(self.i + n).copied()
    }
    fn lit(&self, l: &str) -> bool {
        l.chars().enumerate().all(|(k, c)| self.at(k) == Some(c))
    }
    fn newline_len(&self) -> usize {
        match self.peek() {
            Some('\n') => 1,
            Some('\r') if self.at(1) == Some('\n') => 2,
            _ => 0,
        }
    }
    fn skip_ws(&mut self) {
        while let Some(c) = self.peek() {
            if is_ws(c) { self.i += 1 } else { break }
        }
    }
    /// A comment must be at the start of the file or preceded by whitespace.
    fn comment_ok(&self) -> Res<()> {
        if self.i == 0 || self.s[self.i - 1].is_whitespace() {
            Ok(())
        } else {
            Err(Unspec("comment not preceded by whitespace"))
        }
    }
    fn line_rest(&mut self) -> String {
        let mut t = String::new();
        while let Some(c) = self.peek() {
            if c == '\n' || c == '\r' {
                break;
            }
            t.push(c);
            self.i += 1;
        }
        t
    }

    /// Entries of an object body up to `}` (closed=true) or EOF.
    fn body(&mut self, braces: bool) -> Res<Vec<E>> {
        let mut out = Vec::new();
        let mut paths = Paths::default();
        let mut doc: Option<Vec<String>> = None;
        // separator bookkeeping: an entry may only start after a newline, comma or at the start
        let mut commas_since_entry = 0;
        let mut newlines_since_doc = 0;
        let mut seen_entry = false;
        loop {
            self.skip_ws();
            let n = self.newline_len();
            if n > 0 {
                self.i += n;
                newlines_since_doc += 1;
                continue;
            }
            match self.peek() {
                None => {
                    if doc.is_some() {
                        return Err(Reject("dangling doc comment"));
                    }
                    if braces {
                        return Err(Reject("unclosed object"));
                    }
                    return Ok(out);
                }
                Some('}') if braces => {
                    if doc.is_some() {
                        return Err(Reject("dangling doc comment"));
                    }
                    self.i += 1;
                    return Ok(out);
                }
                Some(',') => {
                    if doc.is_some() {
                        return Err(Unspec("comma after doc comment"));
                    }
                    if !seen_entry {
                        return Err(Unspec("leading comma"));
                    }
                    commas_since_entry += 1;
                    if commas_since_entry > 1 {
                        return Err(Unspec("repeated comma"));
                    }
                    self.i += 1;
                    continue;
                }
                _ => {}
            }
            if self.lit("////") {
                return Err(Unspec("four slashes"));
            }
            if self.lit("///") {
                self.comment_ok()?;
                if doc.is_some() && newlines_since_doc > 1 {
                    return Err(Unspec("blank line inside doc comment"));
                }
                self.i += 3;
                let t = self.line_rest();
                let t = t.strip_prefix(' ').map(str::to_string).unwrap_or(t);
                doc.get_or_insert_with(Vec::new).push(t);
                newlines_since_doc = 0;
                continue;
            }
            if self.lit("//") {
                self.comment_ok()?;
                if doc.is_some() {
                    return Err(Unspec("comment between doc comment and entry"));
                }
                self.line_rest();
                continue;
            }
            if doc.is_some() && newlines_since_doc > 1 {
                return Err(Unspec("blank line after doc comment"));
            }
            // an entry
            let d = doc.take().map(|v| v.join("\n"));
            self.entry(d, &mut paths, &mut out)?;
            seen_entry = true;
            commas_since_entry = 0;
            newlines_since_doc = 0;
        }
    }

    fn entry(&mut self, doc: Option<String>, paths: &mut Paths, out: &mut Vec<E>) -> Res<()> {
        let mut atoms: Vec<Atom> = Vec::new();
        loop {
            self.skip_ws();
            match self.peek() {
                None | Some('\n') | Some(',') | Some('}') => break,
                Some('\r') if self.at(1) == Some('\n') => break,
                Some(')') => {
                    return Err(Reject("stray )"));
                }
                _ => {}
            }
            if self.lit("///") {
                return Err(Unspec("doc comment inside entry"));
            }
            if self.lit("//") {
                self.comment_ok()?;
                self.line_rest();
                break;
            }
            let start = self.i;
            let a = self.atom(true)?;
            if atoms.is_empty()
                && let Atom::Val(R::Scalar(Kind::Bare, _)) = &a
                && matches!(self.peek(), Some('{') | Some('('))
            {
                return Err(Reject("missing whitespace before block"));
            }
            if atoms.is_empty() && self.i == start {
                return Err(Reject("unexpected character"));
            }
            atoms.push(a);
        }
        if atoms.is_empty() {
            // `}` at the root, or nothing parseable
            return Err(Reject("unexpected token"));
        }
        if atoms.len() > 2 {
            return Err(Reject("too many atoms"));
        }
        let mut it = atoms.into_iter();
        let key = match it.next().unwrap() {
            Atom::Attrs(_) => return Err(Unspec("attributes in key position")),
            Atom::Val(v) => v,
        };
        let has_value = it.len() == 1;
        let val = match it.next() {
            None => R::Unit,
            Some(Atom::Val(v)) => v,
            Some(Atom::Attrs(e)) => R::Obj(e),
        };
        let is_obj = has_value && matches!(val, R::Obj(_));
        // key -> path of segments
        let segs: Vec<K> = match key {
            R::Unit => vec![K::Unit],
            R::Scalar(Kind::Heredoc, _) => return Err(Reject("heredoc as key")),
            R::Scalar(Kind::Bare, t) => {
                if t.contains('.') {
                    let parts: Vec<&str> = t.split('.').collect();
                    if parts.iter().any(|p| p.is_empty()) {
                        return Err(Reject("empty path segment"));
                    }
                    parts.iter().map(|p| K::Scalar(Kind::Bare, p.to_string())).collect()
                } else {
                    vec![K::Scalar(Kind::Bare, t)]
                }
            }
            R::Scalar(k, t) => vec![K::Scalar(k, t)],
            R::Seq(_) | R::Obj(_) => return Err(Reject("object or sequence as key")),
            R::Tag(n, p) => match *p {
                R::Unit => vec![K::Tag(n, None)],
                R::Scalar(Kind::Heredoc, _) => return Err(Unspec("tagged heredoc as key")),
                R::Scalar(k, t) => vec![K::Tag(n, Some((k, t)))],
                R::Tag(..) => return Err(Unspec("chained tag as key")),
                _ => return Err(Reject("tag with object or sequence payload as key")),
            },
        };
        let ids: Vec<KeyId> = segs.iter().map(K::id).collect();
        let inner: Vec<KeyId> = match &val {
            R::Obj(es) => es.iter().map(|e| e.key.id()).collect(),
            _ => vec![],
        };
        paths.add(&ids, is_obj, inner)?;
        let mut v = val;
        let mut segs = segs;
        while segs.len() > 1 {
            let k = segs.pop().unwrap();
            // the doc comment belongs to the entry as written, i.e. to the outermost key
            v = R::Obj(vec![E { doc: None, key: k, val: v }]);
        }
        out.push(E { doc, key: segs.pop().unwrap(), val: v });
        Ok(())
    }

    fn atom(&mut self, in_entry: bool) -> Res<Atom> {
        let c = self.peek().unwrap();
        match c {
            '{' => {
                self.i += 1;
                Ok(Atom::Val(R::Obj(self.body(true)?)))
            }
            '(' => {
                self.i += 1;
                Ok(Atom::Val(R::Seq(self.sequence()?)))
            }
            '"' => Ok(Atom::Val(R::Scalar(Kind::Quoted, self.quoted()?))),
            'r' if self.raw_ahead() => Ok(Atom::Val(R::Scalar(Kind::Raw, self.raw()?))),
            'r' if self.at(1) == Some('#') => {
                // r## not followed by a quote: looks like the start of a raw scalar
                Err(Unspec("r# without quote"))
            }
            '<' if self.at(1) == Some('<') => {
                Ok(Atom::Val(R::Scalar(Kind::Heredoc, self.heredoc()?)))
            }
            '@' => {
                let t = self.tag()?;
                Ok(Atom::Val(t))
            }
            '}' | ')' | ',' | '>' | '=' => Err(Reject("unexpected punctuation")),
            _ if c.is_whitespace() => Err(Reject("unexpected whitespace character")),
            _ => {
                if self.lit("//") {
                    return Err(Unspec("comment here"));
                }
                let t = self.bare();
                if self.peek() == Some('>') {
                    return Ok(Atom::Attrs(self.attrs(t)?));
                }
                let _ = in_entry;
                Ok(Atom::Val(R::Scalar(Kind::Bare, t)))
            }
        }
    }

    fn bare(&mut self) -> String {
        let mut t = String::new();
        while let Some(c) = self.peek() {
            if bare_stop(c) {
                break;
            }
            t.push(c);
            self.i += 1;
        }
        t
    }

    /// The caller consumed the first attribute key; we are at `>`.
    fn attrs(&mut self, first: String) -> Res<Vec<E>> {
        let mut out: Vec<E> = Vec::new();
        let mut key = first;
        loop {
            self.i += 1; // >
            match self.peek() {
                None => return Err(Reject("expected a value")),
                Some(c) if c.is_whitespace() => return Err(Reject("expected a value")),
                Some('}') | Some(')') | Some(',') | Some('>') | Some('=') => {
                    return Err(Reject("expected a value"));
                }
                Some('@') => return Err(Unspec("tag as attribute value")),
                Some('<') if self.at(1) == Some('<') => {
                    if matches!(self.at(2), Some(c) if c.is_ascii_uppercase()) {
                        return Err(Unspec("heredoc as attribute value"));
                    }
                    return Err(Reject("<< not followed by uppercase"));
                }
                _ => {}
            }
            if self.lit("//") {
                return Err(Unspec("comment as attribute value"));
            }
            if key.contains('.') {
                return Err(Unspec("dotted attribute key"));
            }
            let v = match self.atom(false)? {
                Atom::Val(v) => v,
                Atom::Attrs(_) => return Err(Unspec("nested attribute")),
            };
            let id = KeyId::Scalar(key.clone());
            if out.iter().any(|e| e.key.id() == id) {
                return Err(Reject("duplicate attribute key"));
            }
            out.push(E { doc: None, key: K::Scalar(Kind::Bare, std::mem::take(&mut key)), val: v });
            // another attribute on the same line?
            let save = self.i;
            let had_ws = matches!(self.peek(), Some(c) if is_ws(c));
            self.skip_ws();
            let ok = match self.peek() {
                Some(c)
                    if !bare_stop(c)
                        && !matches!(c, '=' | '@')
                        && !self.lit("//")
                        && !self.lit("<<")
                        && !(c == 'r' && matches!(self.at(1), Some('"') | Some('#'))) =>
                {
                    let t = self.bare();
                    if self.peek() == Some('>') {
                        if !had_ws {
                            return Err(Unspec("adjacent attributes"));
                        }
                        key = t;
                        true
                    } else {
                        false
                    }
                }
                _ => false,
            };
            if !ok {
                self.i = save;
                return Ok(out);
            }
        }
    }

    fn sequence(&mut self) -> Res<Vec<R>> {
        let mut out = Vec::new();
        let mut sep = true;
        loop {
            loop {
                let b = self.i;
                self.skip_ws();
                self.i += self.newline_len();
                if self.i == b {
                    break;
                }
                sep = true;
            }
            match self.peek() {
                None => return Err(Reject("unclosed sequence")),
                Some(')') => {
                    self.i += 1;
                    return Ok(out);
                }
                Some(',') => return Err(Reject("comma in sequence")),
                _ => {}
            }
            if self.lit("///") {
                return Err(Unspec("doc comment in sequence"));
            }
            if self.lit("//") {
                self.comment_ok()?;
                self.line_rest();
                continue;
            }
            if !sep {
                // Elements are separated by whitespace.  Whatever does not start an atom is an
                // error either way; two adjacent atoms are not decided by the specification.
                match self.peek() {
                    Some('}') | Some('>') | Some('=') => return Err(Reject("unexpected punctuation")),
                    _ => return Err(Unspec("adjacent sequence elements")),
                }
            }
            let a = self.atom(false)?;
            out.push(match a {
                Atom::Val(v) => v,
                Atom::Attrs(e) => R::Obj(e),
            });
            sep = false;
        }
    }

    fn quoted(&mut self) -> Res<String> {
        self.i += 1;
        let mut t = String::new();
        loop {
            let Some(c) = self.peek() else { return Err(Reject("unterminated string")) };
            self.i += 1;
            match c {
                '"' => return Ok(t),
                '\n' | '\r' => {
                    // line breaks inside quotes: the specification is silent
                    return self.rest_unspec("line break in quoted scalar");
                }
                '\\' => {
                    let Some(e) = self.peek() else { return Err(Reject("unterminated string")) };
                    self.i += 1;
                    match e {
                        'n' => t.push('\n'),
                        'r' => t.push('\r'),
                        't' => t.push('\t'),
                        '\\' => t.push('\\'),
                        '"' => t.push('"'),
                        'u' => t.push(self.unicode()?),
                        _ => return Err(Reject("invalid escape")),
                    }
                }
                _ => t.push(c),
            }
        }
    }
    fn rest_unspec<T>(&self, why: &'static str) -> Res<T> {
        Err(Unspec(why))
    }

    fn unicode(&mut self) -> Res<char> {
        let mut hex = String::new();
        if self.peek() == Some('{') {
            self.i += 1;
            loop {
                match self.peek() {
                    Some('}') => {
                        self.i += 1;
                        break;
                    }
                    Some(c) if c.is_ascii_hexdigit() => {
                        hex.push(c);
                        self.i += 1;
                    }
                    _ => return Err(Reject("invalid unicode escape")),
                }
            }
            if hex.is_empty() {
                return Err(Reject("invalid unicode escape"));
            }
            if hex.len() > 6 {
                return Err(Unspec("more than six hex digits"));
            }
        } else {
            for _ in 0..4 {
                match self.peek() {
                    Some(c) if c.is_ascii_hexdigit() => {
                        hex.push(c);
                        self.i += 1;
                    }
                    _ => return Err(Reject("invalid unicode escape")),
                }
            }
        }
        let code = u32::from_str_radix(&hex, 16).map_err(|_| Reject("invalid unicode escape"))?;
        char::from_u32(code).ok_or(Reject("not a unicode scalar value"))
    }

    fn raw_ahead(&self) -> bool {
        let mut k = 1;
        while self.at(k) == Some('#') {
            k += 1;
        }
        self.at(k) == Some('"')
    }
    fn raw(&mut self) -> Res<String> {
        self.i += 1;
        let mut n = 0;
        while self.peek() == Some('#') {
            n += 1;
            self.i += 1;
        }
        self.i += 1; // quote
        let mut t = String::new();
        loop {
            let Some(c) = self.peek() else { return Err(Reject("unterminated raw string")) };
            if c == '"' && (1..=n).all(|k| self.at(k) == Some('#')) {
                self.i += 1 + n;
                return Ok(t);
            }
            t.push(c);
            self.i += 1;
        }
    }

    fn heredoc(&mut self) -> Res<String> {
        self.i += 2;
        let mut d = String::new();
        match self.peek() {
            Some(c) if c.is_ascii_uppercase() => {}
            _ => return Err(Reject("<< not followed by uppercase")),
        }
        while let Some(c) = self.peek() {
            if c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_' {
                d.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        if d.len() > 16 {
            return Err(Reject("heredoc delimiter too long"));
        }
        if self.peek() == Some(',') {
            match self.at(1) {
                Some(c) if c.is_ascii_lowercase() => {
                    self.i += 2;
                    while let Some(c) = self.peek() {
                        if c.is_ascii_lowercase() || c.is_ascii_digit() || matches!(c, '_' | '.' | '-') {
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                }
                _ => return Err(Unspec("malformed heredoc language hint")),
            }
        }
        let n = self.newline_len();
        if n == 0 {
            return match self.peek() {
                None => Err(Reject("unterminated heredoc")),
                _ => Err(Unspec("text after heredoc delimiter")),
            };
        }
        self.i += n;
        // lines until the delimiter on its own line
        let mut lines: Vec<String> = Vec::new();
        loop {
            if self.i >= self.s.len() {
                return Err(Reject("unterminated heredoc"));
            }
            let mut line = String::new();
            while let Some(c) = self.peek() {
                if c == '\n' || (c == '\r' && self.at(1) == Some('\n')) {
                    break;
                }
                line.push(c);
                self.i += 1;
            }
            let body = line.trim_start_matches([' ', '\t']);
            if body == d {
                let indent = line.chars().count() - body.chars().count();
                // leave the newline after the delimiter: it separates entries
                let mut out = String::new();
                for l in &lines {
                    let mut chars = l.chars().peekable();
                    let mut k = 0;
                    while k < indent && matches!(chars.peek(), Some(' ') | Some('\t')) {
                        chars.next();
                        k += 1;
                    }
                    out.extend(chars);
                }
                return Ok(out);
            }
            // keep the line break verbatim
            let n = self.newline_len();
            if n == 0 {
                return Err(Reject("unterminated heredoc"));
            }
            for k in 0..n {
                line.push(self.s[self.i + k]);
            }
            self.i += n;
            lines.push(line);
        }
    }

    /// `@`, `@tag`, `@tag<payload>`, `@a/@b...`
    fn tag(&mut self) -> Res<R> {
        self.i += 1;
        match self.peek() {
            Some(c) if tag_start(c) => {}
            None => return Ok(R::Unit),
            Some(c) if bare_stop(c) => {
                return match c {
                    '"' => Err(Unspec("@ adjacent to a quoted scalar")),
                    '{' | '(' => Err(Unspec("@ adjacent to a block")),
                    _ => Ok(R::Unit),
                };
            }
            Some('@') => return Err(Unspec("adjacent @")),
            Some('=') => return Err(Unspec("@=")),
            Some('<') if self.at(1) == Some('<') => return Err(Unspec("@ adjacent to heredoc")),
            Some('/') if self.at(1) == Some('/') => return Err(Unspec("@ adjacent to comment")),
            Some(_) => return Err(Reject("invalid tag name")),
        }
        let mut name = String::new();
        name.push(self.peek().unwrap());
        self.i += 1;
        while let Some(c) = self.peek() {
            if c == 'r' && self.at(1) == Some('#') {
                break; // raw payload
            }
            if c.is_ascii_alphanumeric() || c == '_' || c == '-' {
                name.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        if name == "r" && self.peek() == Some('#') {
            return Err(Unspec("@r followed by #"));
        }
        let payload = match self.peek() {
            None => R::Unit,
            Some('{') => {
                self.i += 1;
                R::Obj(self.body(true)?)
            }
            Some('(') => {
                self.i += 1;
                R::Seq(self.sequence()?)
            }
            Some('"') => R::Scalar(Kind::Quoted, self.quoted()?),
            Some('r') if self.raw_ahead() => R::Scalar(Kind::Raw, self.raw()?),
            Some('r') if self.at(1) == Some('#') => return Err(Unspec("r# without quote")),
            Some('<') if self.at(1) == Some('<') => R::Scalar(Kind::Heredoc, self.heredoc()?),
            Some('@') => {
                // explicit unit; `@a@b` is not described
                match self.at(1) {
                    None => {}
                    Some(c) if c.is_whitespace() || matches!(c, '}' | ')' | ',') => {}
                    _ => return Err(Unspec("@ payload followed by an atom")),
                }
                self.i += 1;
                R::Unit
            }
            Some('/') if self.at(1) == Some('@') => {
                match self.at(2) {
                    Some(c) if tag_start(c) => {}
                    _ => return Err(Unspec("dangling tag chain")),
                }
                self.i += 1;
                self.tag()?
            }
            Some('>') => return Err(Reject("> after tag")),
            Some('/') if self.at(1) == Some('/') => return Err(Unspec("comment after tag")),
            Some('=') => return Err(Reject("= after tag")),
            Some(c) if bare_stop(c) => R::Unit,
            Some(_) => return Err(Reject("invalid tag name")),
        };
        Ok(R::Tag(name, Box::new(payload)))
    }
}

/// The dotted-path rules: siblings must be contiguous, closed paths may not be reopened,
/// duplicate keys are forbidden, terminal values cannot be nested into.
#[derive(Default)]
struct Paths {
    root_closed: HashMap<KeyId, ()>,
    open: Vec<Node>,
}
struct Node {
    key: KeyId,
    object: bool,
    closed: HashMap<KeyId, ()>,
    /// keys written inside an explicit `{...}` value
    explicit: Vec<KeyId>,
}

impl Paths {
    fn add(&mut self, path: &[KeyId], is_obj: bool, explicit: Vec<KeyId>) -> Res<()> {
        let common = self.open.iter().zip(path).take_while(|(n, k)| n.key == **k).count();
        if common == path.len() {
            return Err(Reject("duplicate key"));
        }
        if common > 0 {
            let n = &self.open[common - 1];
            if !n.object {
                return Err(Reject("nest into terminal"));
            }
            if n.explicit.contains(&path[common]) {
                return Err(Unspec("dotted key repeats a key of an explicit object"));
            }
        }
        while self.open.len() > common {
            let n = self.open.pop().unwrap();
            match self.open.last_mut() {
                Some(p) => p.closed.insert(n.key, ()),
                None => self.root_closed.insert(n.key, ()),
            };
        }
        let closed = match self.open.last() {
            Some(p) => &p.closed,
            None => &self.root_closed,
        };
        if closed.contains_key(&path[common]) {
            return Err(Reject("reopened path"));
        }
        for (i, k) in path.iter().enumerate().skip(common) {
            let last = i + 1 == path.len();
            self.open.push(Node {
                key: k.clone(),
                object: !last || is_obj,
                closed: HashMap::new(),
                explicit: if last { explicit.clone() } else { vec![] },
            });
        }
        Ok(())
    }
}

pub fn parse(src: &str) -> Out {
    let chars: Vec<char> = src.chars().collect();
    let mut p = P { s: &chars, i: 0 };
    // explicit root?
    let r = (|| -> Res<Vec<E>> {
        loop {
            p.skip_ws();
            let n = p.newline_len();
            if n > 0 {
                p.i += n;
                continue;
            }
            if p.lit("//") && !p.lit("///") {
                p.comment_ok()?;
                p.line_rest();
                continue;
            }
            break;
        }
        if p.peek() == Some('{') {
            p.i += 1;
            let es = p.body(true)?;
            loop {
                p.skip_ws();
                let n = p.newline_len();
                if n > 0 {
                    p.i += n;
                    continue;
                }
                if p.lit("///") {
                    return Err(Unspec("doc comment after explicit root"));
                }
                if p.lit("//") {
                    p.comment_ok()?;
                    p.line_rest();
                    continue;
                }
                break;
            }
            return match p.peek() {
                None => Ok(es),
                Some(',') => Err(Unspec("comma after explicit root")),
                Some(_) => Err(Reject("trailing content")),
            };
        }
        if p.lit("///") {
            // a doc comment directly in front of an explicit root object is not described
            let save = p.i;
            loop {
                p.skip_ws();
                let n = p.newline_len();
                if n > 0 {
                    p.i += n;
                } else if p.lit("//") {
                    p.line_rest();
                } else {
                    break;
                }
            }
            if p.peek() == Some('{') {
                return Err(Unspec("doc comment before explicit root"));
            }
            p.i = save;
        }
        p.body(false)
    })();
    match r {
        Ok(es) => Out::Accept(es),
        Err(Reject(w)) => Out::Reject(w),
        Err(Unspec(w)) => Out::Unspecified(w),
    }
}
