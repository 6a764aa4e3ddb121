//! C04: what must hold for *every* byte sequence, valid or not.
use crate::c_doc::{Alphabet, replay, sweep};
use crate::impltree::{self, Impl};
use mc_engine::*;
use styx_parse::{Event, EventKind, Lexeme, Lexer, ParseErrorKind, Parser, Span, TokenKind, Tokenizer};

fn span_ok(src: &str, s: Span) -> Result<(), String> {
    let (a, b) = (s.start as usize, s.end as usize);
    if a > b || b > src.len() {
        return Err(format!("span {a}..{b} outside the source (length {})", src.len()));
    }
    if !src.is_char_boundary(a) || !src.is_char_boundary(b) {
        return Err(format!("span {a}..{b} splits a character"));
    }
    Ok(())
}

fn tokens(src: &str) -> Result<(), String> {
    let mut t = Tokenizer::new(src);
    let mut pos = 0usize;
    for n in 0.. {
        if n > 4 * src.len() + 8 {
            return Err("tokenizer does not terminate".into());
        }
        let k = t.next_token();
        span_ok(src, k.span)?;
        if k.kind == TokenKind::Eof {
            if pos != src.len() {
                return Err(format!("tokenizer stops at {pos} of {}", src.len()));
            }
            break;
        }
        if k.span.start as usize != pos {
            return Err(format!("token {:?} starts at {} instead of {pos}", k.kind, k.span.start));
        }
        if &src[pos..k.span.end as usize] != k.text {
            return Err(format!("token text {:?} is not the source text", k.text));
        }
        pos = k.span.end as usize;
    }
    if t.next_token().kind != TokenKind::Eof {
        return Err("a token after Eof".into());
    }
    Ok(())
}

fn lexemes(src: &str) -> Result<(), String> {
    let mut l = Lexer::new(src);
    let mut last = 0;
    for n in 0.. {
        if n > 4 * src.len() + 8 {
            return Err("lexer does not terminate".into());
        }
        let x = l.next_lexeme();
        if matches!(x, Lexeme::Eof) {
            break;
        }
        let s = x.span();
        span_ok(src, s)?;
        if s.start < last {
            return Err(format!("lexeme {x:?} starts before the end of the previous one"));
        }
        last = s.start;
    }
    Ok(())
}

/// Nesting discipline of the event stream, errors or not.
fn nesting(src: &str, evs: &[Event<'_>], expr: bool) -> Result<(), String> {
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum S {
        Obj,
        Seq,
        Tag,
        /// key seen, value seen
        Entry(bool, bool),
    }
    let mut st: Vec<S> = vec![];
    let mut started = expr;
    let mut ended = false;
    let mut values = 0;
    let mut errors = 0;
    for (i, e) in evs.iter().enumerate() {
        span_ok(src, e.span).map_err(|m| format!("event {i} {:?}: {m}", e.kind))?;
        let is_err = matches!(e.kind, EventKind::Error { .. });
        errors += is_err as usize;
        if !started && !matches!(e.kind, EventKind::DocumentStart) {
            return Err(format!("event {i} {:?} before DocumentStart", e.kind));
        }
        if ended && !matches!(e.kind, EventKind::Error { kind: ParseErrorKind::TrailingContent }) {
            return Err(format!("event {i} {:?} after DocumentEnd", e.kind));
        }
        let is_value = matches!(
            e.kind,
            EventKind::Scalar { .. } | EventKind::Unit | EventKind::ObjectStart | EventKind::SequenceStart | EventKind::TagStart { .. }
        );
        if is_value {
            match st.last_mut() {
                Some(S::Entry(_, v)) => {
                    if *v {
                        return Err(format!("event {i} {:?}: second value in one entry", e.kind));
                    }
                    *v = true;
                }
                Some(S::Seq) => {}
                Some(S::Tag) => {}
                Some(S::Obj) => return Err(format!("event {i} {:?}: value directly inside an object", e.kind)),
                None => {
                    values += 1;
                    if values > 1 {
                        return Err(format!("event {i} {:?}: second root value", e.kind));
                    }
                }
            }
        }
        match &e.kind {
            EventKind::DocumentStart => {
                if started {
                    return Err("second DocumentStart".into());
                }
                started = true;
            }
            EventKind::DocumentEnd => {
                if !st.is_empty() {
                    return Err(format!("DocumentEnd with {st:?} open"));
                }
                ended = true;
            }
            EventKind::ObjectStart => st.push(S::Obj),
            EventKind::SequenceStart => st.push(S::Seq),
            EventKind::TagStart { .. } => st.push(S::Tag),
            EventKind::EntryStart => {
                if st.last() != Some(&S::Obj) {
                    return Err(format!("event {i}: EntryStart outside an object"));
                }
                st.push(S::Entry(false, false));
            }
            EventKind::Key { .. } => match st.last_mut() {
                Some(S::Entry(k @ false, false)) => *k = true,
                o => return Err(format!("event {i}: Key in {o:?}")),
            },
            EventKind::ObjectEnd => {
                if st.pop() != Some(S::Obj) {
                    return Err(format!("event {i}: unbalanced ObjectEnd"));
                }
            }
            EventKind::SequenceEnd => {
                if st.pop() != Some(S::Seq) {
                    return Err(format!("event {i}: unbalanced SequenceEnd"));
                }
            }
            EventKind::TagEnd => {
                if st.pop() != Some(S::Tag) {
                    return Err(format!("event {i}: unbalanced TagEnd"));
                }
            }
            EventKind::EntryEnd => match st.pop() {
                Some(S::Entry(k, v)) => {
                    if (!k || !v) && errors == 0 {
                        return Err(format!("event {i}: entry without key or value, and no error"));
                    }
                }
                _ => return Err(format!("event {i}: unbalanced EntryEnd")),
            },
            _ => {}
        }
    }
    if !st.is_empty() {
        return Err(format!("stream ends with {st:?} open"));
    }
    if !expr && !ended {
        return Err("no DocumentEnd".into());
    }
    Ok(())
}

pub fn check(src: &str, l: &mut Local) {
    l.exec(src.len() as u64);
    let r = (|| -> Result<bool, String> {
        tokens(src)?;
        lexemes(src)?;
        let evs = impltree::events(src);
        nesting(src, &evs, false)?;
        if Parser::new(src).parse_to_vec() != evs {
            return Err("parse_to_vec and next_event disagree".into());
        }
        let folded = impltree::fold(&evs);
        let ok = match &folded {
            Impl::Accept(_) => true,
            Impl::Reject(_) => false,
            Impl::Malformed(m) => return Err(format!("no error reported, but {m}")),
        };
        match (ok, styx_tree::parse(src)) {
            (true, Err(e)) => return Err(format!("no parse error, but styx_tree fails: {e}")),
            (false, Ok(_)) => return Err("parse error, but styx_tree succeeds".into()),
            _ => {}
        }
        let mut p = Parser::new_expr(src);
        let mut ex = vec![];
        while let Some(e) = p.next_event() {
            ex.push(e);
            if ex.len() > 64 * (src.len() + 8) {
                return Err("expression parser does not terminate".into());
            }
        }
        nesting(src, &ex, true).map_err(|m| format!("expression mode: {m}"))?;
        // concrete syntax tree
        let cst = styx_cst::parse(src);
        let root = cst.syntax();
        if root.to_string() != src {
            return Err(format!("concrete syntax tree is not lossless: {:?}", root.to_string()));
        }
        for e in cst.errors() {
            if e.offset as usize > src.len() || !src.is_char_boundary(e.offset as usize) {
                return Err(format!("syntax error offset {} outside the source", e.offset));
            }
        }
        for d in styx_cst::validate(&root) {
            let r = d.range;
            if usize::from(r.end()) > src.len() {
                return Err(format!("diagnostic range {r:?} outside the source"));
            }
        }
        l.outcome(&evs.iter().map(|e| std::mem::discriminant(&e.kind)).collect::<Vec<_>>());
        Ok(ok)
    })();
    match r {
        Ok(true) => l.class("accepted"),
        Ok(false) => l.class("rejected"),
        Err(m) => l.violation(viol(src, m)),
    }
}

const CHARS: Alphabet = &[
    " ", "\n", "\r", "\t", "a", "r", "\"", "#", "\\", "u", "{", "}", "(", ")", ",", ">", "<", "A", "@", "/", "=", ".", "é", "\0",
];
/// For error paths that slice the source: escapes, heredocs and raw scalars in front of multibyte text.
const SLICES: Alphabet = &["\"", "\\u{", "\\u", "日", "é", "1", "x", "}", "<<A\n", "A", "\n", " ", "r#\"", "@"];

pub fn run(ctx: &Ctx) {
    if replay(ctx, check) {
        return;
    }
    sweep(ctx, "characters", CHARS, ctx.pick(4, 5), &[("", ""), ("k ", "\n"), ("k {", "}"), ("k (", ")"), ("k @t", "\nz")], check);
    sweep(ctx, "slices", SLICES, ctx.pick(5, 6), &[("k ", ""), ("k \"", "\""), ("", " v")], check);
    sweep(ctx, "multibyte-escapes", &["日", "é", "x", "1", "}", "😀"], ctx.pick(6, 8), &[("k \"\\u{", "\""), ("k \"é\\u{", "\\q\""), ("@t\"\\u{", "\" 1")], check);
    sweep(ctx, "lexemes", crate::c_doc::FULL, ctx.pick(4, 5), &[("", ""), ("x {", "}"), ("{", "}"), ("{", "")], check);
    // deep nesting
    let opens = ["{", "(", "@t{", "@t(", "k {", "a>(", "@t/@u{", "\"k\"{"];
    let n = ctx.pick(120u64, 400);
    let build = |i: u64| {
        let o = opens[(i % 8) as usize];
        let depth = (i / 8 % n) as usize;
        let close = i / 8 / n;
        let c = if o.ends_with('{') { "}" } else { ")" };
        format!("k {}x{}", o.repeat(depth), c.repeat([0, depth / 2, depth, depth + 1][close as usize]))
    };
    ctx.space("nesting-depth", json!({"depth": n, "openers": opens}), 8 * n * 4, build, |i, l| check(&build(i), l));
}
