//! What the implementation says about a document, folded into the reference tree types.
use crate::refdoc::{E, K, Kind, R};
use styx_parse::{Event, EventKind, ParseErrorKind, Parser, ScalarKind};

pub fn kind(k: ScalarKind) -> Kind {
    match k {
        ScalarKind::Bare => Kind::Bare,
        ScalarKind::Quoted => Kind::Quoted,
        ScalarKind::Raw => Kind::Raw,
        ScalarKind::Heredoc => Kind::Heredoc,
    }
}

pub fn events(src: &str) -> Vec<Event<'_>> {
    let mut p = Parser::new(src);
    let mut v = Vec::new();
    // 64 events per byte is far beyond anything a terminating parser emits
    let limit = 64 * (src.len() + 8);
    while let Some(e) = p.next_event() {
        v.push(e);
        if v.len() > limit {
            panic!("parser emitted more than {limit} events");
        }
    }
    v
}

#[derive(Debug, Clone, PartialEq)]
pub enum Impl {
    Accept(Vec<E>),
    Reject(Vec<ParseErrorKind>),
    /// The event stream is not a well-formed document.
    Malformed(String),
}

/// Fold the event stream into a tree.  Structure is checked on the way: every event must be
/// legal where it occurs.
pub fn fold(evs: &[Event<'_>]) -> Impl {
    let errs: Vec<ParseErrorKind> = evs
        .iter()
        .filter_map(|e| match &e.kind {
            EventKind::Error { kind } => Some(kind.clone()),
            _ => None,
        })
        .collect();
    if !errs.is_empty() {
        return Impl::Reject(errs);
    }
    let mut f = F { evs, i: 0 };
    match f.doc() {
        Ok(t) => Impl::Accept(t),
        Err(e) => Impl::Malformed(e),
    }
}

struct F<'a, 'b> {
    evs: &'a [Event<'b>],
    i: usize,
}
impl<'a, 'b> F<'a, 'b> {
    fn next(&mut self) -> Option<&'a EventKind<'b>> {
        // plain comments may appear anywhere
        loop {
            let e = self.evs.get(self.i)?;
            self.i += 1;
            if !matches!(e.kind, EventKind::Comment { .. }) {
                return Some(&e.kind);
            }
        }
    }
    fn doc(&mut self) -> Result<Vec<E>, String> {
        match self.next() {
            Some(EventKind::DocumentStart) => {}
            o => return Err(format!("expected DocumentStart, got {o:?}")),
        }
        let es = match self.next() {
            Some(EventKind::ObjectStart) => {
                let es = self.entries()?;
                match self.next() {
                    Some(EventKind::DocumentEnd) => {}
                    o => return Err(format!("expected DocumentEnd, got {o:?}")),
                }
                es
            }
            Some(EventKind::DocumentEnd) => vec![],
            o => return Err(format!("expected ObjectStart or DocumentEnd, got {o:?}")),
        };
        match self.next() {
            None => Ok(es),
            o => Err(format!("event after DocumentEnd: {o:?}")),
        }
    }
    fn entries(&mut self) -> Result<Vec<E>, String> {
        let mut out = vec![];
        let mut doc: Option<String> = None;
        loop {
            match self.next() {
                Some(EventKind::ObjectEnd) => return Ok(out),
                Some(EventKind::DocComment { lines }) => {
                    let t = lines.join("\n");
                    doc = Some(match doc {
                        None => t,
                        Some(d) => format!("{d}\n{t}"),
                    });
                }
                Some(EventKind::EntryStart) => {
                    let key = match self.next() {
                        Some(EventKind::Key { tag, payload, kind: k }) => match (tag, payload) {
                            (None, None) => K::Unit,
                            (None, Some(p)) => K::Scalar(kind(*k), p.to_string()),
                            (Some(t), None) => K::Tag(t.to_string(), None),
                            (Some(t), Some(p)) => K::Tag(t.to_string(), Some((kind(*k), p.to_string()))),
                        },
                        o => return Err(format!("expected Key, got {o:?}")),
                    };
                    let ev = self.next();
                    let val = self.value(ev)?;
                    match self.next() {
                        Some(EventKind::EntryEnd) => {}
                        o => return Err(format!("expected EntryEnd, got {o:?}")),
                    }
                    out.push(E { doc: doc.take(), key, val });
                }
                o => return Err(format!("unexpected in object: {o:?}")),
            }
        }
    }
    fn value(&mut self, ev: Option<&'a EventKind<'b>>) -> Result<R, String> {
        Ok(match ev {
            Some(EventKind::Scalar { value, kind: k }) => R::Scalar(kind(*k), value.to_string()),
            Some(EventKind::Unit) => R::Unit,
            Some(EventKind::ObjectStart) => R::Obj(self.entries()?),
            Some(EventKind::SequenceStart) => {
                let mut v = vec![];
                loop {
                    match self.next() {
                        Some(EventKind::SequenceEnd) => return Ok(R::Seq(v)),
                        ev => v.push(self.value(ev)?),
                    }
                }
            }
            Some(EventKind::TagStart { name }) => {
                let p = match self.next() {
                    Some(EventKind::TagEnd) => return Ok(R::Tag(name.to_string(), Box::new(R::Unit))),
                    ev => self.value(ev)?,
                };
                match self.next() {
                    Some(EventKind::TagEnd) => R::Tag(name.to_string(), Box::new(p)),
                    o => return Err(format!("expected TagEnd, got {o:?}")),
                }
            }
            o => return Err(format!("expected a value, got {o:?}")),
        })
    }
}

/// styx_tree::Value (root) -> reference tree.
pub fn from_value(v: &styx_tree::Value) -> R {
    use styx_tree::Payload;
    let p = match &v.payload {
        None => R::Unit,
        Some(Payload::Scalar(s)) => R::Scalar(kind(s.kind), s.text.clone()),
        Some(Payload::Sequence(s)) => R::Seq(s.items.iter().map(from_value).collect()),
        Some(Payload::Object(o)) => R::Obj(
            o.entries
                .iter()
                .map(|e| E {
                    doc: e.doc_comment.clone(),
                    key: match (&e.key.tag, &e.key.payload) {
                        (None, None) => K::Unit,
                        (None, Some(Payload::Scalar(s))) => K::Scalar(kind(s.kind), s.text.clone()),
                        (Some(t), None) => K::Tag(t.name.clone(), None),
                        (Some(t), Some(Payload::Scalar(s))) => {
                            K::Tag(t.name.clone(), Some((kind(s.kind), s.text.clone())))
                        }
                        _ => K::Scalar(Kind::Bare, format!("<bad key {:?}>", e.key)),
                    },
                    val: from_value(&e.value),
                })
                .collect(),
        ),
    };
    match &v.tag {
        None => p,
        Some(t) => R::Tag(t.name.clone(), Box::new(p)),
    }
}

pub fn has_chain(r: &R) -> bool {
    match r {
        R::Tag(_, p) => matches!(**p, R::Tag(..)) || has_chain(p),
        R::Seq(v) => v.iter().any(has_chain),
        R::Obj(es) => es.iter().any(|e| has_chain(&e.val)),
        _ => false,
    }
}
