//! C05: the syntax tree agrees with the parser.  C07: the source formatter.
use crate::c_doc::{self, Alphabet, replay, sweep};
use crate::impltree::{self, Impl};
use crate::refdoc::{E, K, Kind, R};
use mc_engine::*;
use styx_cst::{AstNode, Document, Entry, SyntaxKind, SyntaxNode};
use styx_format::{FormatOptions, format_source};
use styx_parse::{TokenKind, Tokenizer};

// ------------------------------------------------------------------------------------ C05

fn scalar(s: &styx_cst::Scalar) -> (Kind, String) {
    let kind = match s.kind() {
        styx_cst::ScalarKind::Bare => Kind::Bare,
        styx_cst::ScalarKind::Quoted => Kind::Quoted,
        styx_cst::ScalarKind::Raw => Kind::Raw,
    };
    (kind, s.text_content())
}

/// A value node of the syntax tree.
fn node(n: &SyntaxNode) -> Result<R, String> {
    Ok(match n.kind() {
        SyntaxKind::SCALAR => {
            let (k, t) = scalar(&styx_cst::Scalar::cast(n.clone()).unwrap());
            R::Scalar(k, t)
        }
        SyntaxKind::UNIT => R::Unit,
        // contents are compared by C01; here only that it is one heredoc
        SyntaxKind::HEREDOC => R::Scalar(Kind::Heredoc, String::new()),
        SyntaxKind::OBJECT => R::Obj(entries(styx_cst::Object::cast(n.clone()).unwrap().entries())?),
        SyntaxKind::SEQUENCE => {
            let s = styx_cst::Sequence::cast(n.clone()).unwrap();
            let v: Vec<R> = s.elements().map(|e| node(&e)).collect::<Result<_, _>>()?;
            if v.len() != s.len() {
                return Err("sequence length differs from its elements".into());
            }
            R::Seq(v)
        }
        SyntaxKind::ATTRIBUTES => {
            let mut es = vec![];
            for a in n.children().filter(|c| c.kind() == SyntaxKind::ATTRIBUTE) {
                let key = a
                    .children_with_tokens()
                    .find_map(|t| t.into_token().filter(|t| t.kind() == SyntaxKind::BARE_SCALAR))
                    .ok_or("attribute without key")?;
                let v = a.children().next().ok_or("attribute without value")?;
                es.push(E { doc: None, key: K::Scalar(Kind::Bare, key.text().to_string()), val: node(&v)? });
            }
            R::Obj(es)
        }
        SyntaxKind::TAG => {
            let t = styx_cst::Tag::cast(n.clone()).unwrap();
            let p = match t.payload() {
                Some(p) => node(&p)?,
                None => R::Unit,
            };
            R::Tag(t.name().ok_or("tag without name")?, Box::new(p))
        }
        k => return Err(format!("unexpected node {k:?}")),
    })
}

fn entries(it: impl Iterator<Item = Entry>) -> Result<Vec<E>, String> {
    let mut out = vec![];
    for e in it {
        let k = e.key().ok_or("entry without key")?;
        let kn = k.syntax().children().next().ok_or("empty key")?;
        let key = match node(&kn)? {
            R::Unit => K::Unit,
            R::Scalar(kind, t) => {
                if k.text_content() != t {
                    return Err(format!("key text {:?} instead of {t:?}", k.text_content()));
                }
                K::Scalar(kind, t)
            }
            R::Tag(n, p) => match *p {
                R::Unit => K::Tag(n, None),
                R::Scalar(k, t) => K::Tag(n, Some((k, t))),
                _ => return Err("bad tag key".into()),
            },
            _ => return Err("bad key".into()),
        };
        let nvals = e.syntax().children().filter(|c| c.kind() == SyntaxKind::VALUE).count();
        if nvals > 1 {
            return Err("entry with several values".into());
        }
        let val = match e.value() {
            None => R::Unit,
            Some(v) => node(&v.syntax().children().next().ok_or("empty value")?)?,
        };
        // the doc comments of an entry are listed nearest first
        let mut lines: Vec<String> = e
            .doc_comments()
            .map(|t| {
                let s = t.text();
                s.strip_prefix("/// ").or_else(|| s.strip_prefix("///")).unwrap_or(s).to_string()
            })
            .collect();
        lines.reverse();
        let doc = (!lines.is_empty()).then(|| lines.join("\n"));
        let mut segs = match key {
            K::Scalar(Kind::Bare, t) if t.contains('.') => t.split('.').map(|s| K::Scalar(Kind::Bare, s.to_string())).collect(),
            k => vec![k],
        };
        let mut v = val;
        while segs.len() > 1 {
            v = R::Obj(vec![E { doc: None, key: segs.pop().unwrap(), val: v }]);
        }
        out.push(E { doc, key: segs.pop().unwrap(), val: v });
    }
    Ok(out)
}

fn blank_heredocs(r: &R) -> R {
    match r {
        R::Scalar(Kind::Heredoc, _) => R::Scalar(Kind::Heredoc, String::new()),
        R::Seq(v) => R::Seq(v.iter().map(blank_heredocs).collect()),
        R::Obj(es) => R::Obj(es.iter().map(|e| E { doc: e.doc.clone(), key: e.key.clone(), val: blank_heredocs(&e.val) }).collect()),
        R::Tag(n, p) => R::Tag(n.clone(), Box::new(blank_heredocs(p))),
        r => r.clone(),
    }
}

pub fn cst(src: &str, l: &mut Local) {
    l.exec(src.len() as u64);
    let r = (|| -> Result<(), String> {
        let want = match crate::refdoc::parse(src) {
            crate::refdoc::Out::Accept(t) => t,
            crate::refdoc::Out::Reject(_) => {
                l.class("rejected");
                return Ok(());
            }
            crate::refdoc::Out::Unspecified(_) => {
                l.class("unspecified");
                return Ok(());
            }
        };
        l.class("accepted");
        let p = styx_cst::parse(src);
        if !p.errors().is_empty() {
            return Err(format!("valid document, but the syntax tree reports {:?}", p.errors()));
        }
        let root = p.syntax();
        if let Some(d) = styx_cst::validate(&root).iter().find(|d| d.severity == styx_cst::Severity::Error) {
            return Err(format!("valid document, but validation reports {d:?}"));
        }
        let doc = Document::cast(root).ok_or("root is not a document")?;
        // an explicit root object is one entry whose key is the object
        let first_obj = doc.entries().next().and_then(|e| {
            let k = e.key()?;
            styx_cst::Object::cast(k.syntax().children().next()?)
        });
        let got = match first_obj {
            Some(o) => {
                if doc.entries().count() != 1 {
                    return Err("entries after an explicit root object".into());
                }
                entries(o.entries())?
            }
            None => entries(doc.entries())?,
        };
        let want = blank_heredocs(&R::Obj(want));
        let got = blank_heredocs(&R::Obj(got));
        l.outcome(&got);
        if got != want {
            return Err(format!("syntax tree reads as {got:?}, the document is {want:?}"));
        }
        Ok(())
    })();
    if let Err(m) = r {
        l.violation(viol(src, m));
    }
}

const PLAIN: &[(&str, &str)] = &[("", "")];

pub fn run_cst(ctx: &Ctx) {
    ctx.assume("which documents are valid, and as what, is taken from the reference model of C01-C03");
    if replay(ctx, cst) {
        return;
    }
    sweep(ctx, "full", c_doc::FULL, ctx.pick(4, 5), PLAIN, cst);
    sweep(ctx, "structure", c_doc::STRUCT, ctx.pick(6, 7), PLAIN, cst);
    sweep(ctx, "comments", c_doc::COMMENTS, ctx.pick(6, 7), PLAIN, cst);
    sweep(ctx, "attributes", c_doc::ATTRS, ctx.pick(5, 6), &[("k ", ""), ("", ""), ("k (", ")"), ("k {j ", "}")], cst);
    sweep(ctx, "tags", c_doc::TAGS, ctx.pick(5, 6), &[("", ""), ("k (", ")")], cst);
    sweep(ctx, "heredoc", c_doc::HEREDOC, ctx.pick(5, 6), &[("", ""), ("k (", "\n)"), ("k {", "\n}"), ("k {j <<A\n", "\n A\n}")], cst);
    sweep(ctx, "quoted", c_doc::ESC, ctx.pick(4, 5), &[("k \"", "\""), ("\"", "\" v"), ("@t\"", "\" v")], cst);
    sweep(ctx, "raw", c_doc::RAW, ctx.pick(5, 6), &[("k r", ""), ("k r#\"", "\"#"), ("(r##\"", "\"## b)"), ("r", " v"), ("@t", " v")], cst);
}

// ------------------------------------------------------------------------------------ C07

/// Everything but layout: tokens other than whitespace, newlines and separators.
fn content(src: &str) -> Vec<(TokenKind, String)> {
    let mut t = Tokenizer::new(src);
    let mut out = vec![];
    loop {
        let k = t.next_token();
        match k.kind {
            TokenKind::Eof => return out,
            TokenKind::Whitespace | TokenKind::Newline | TokenKind::Comma => {}
            // the line break that ends the document may be missing from the closing delimiter
            TokenKind::HeredocEnd => out.push((k.kind, k.text.trim().to_string())),
            _ => out.push((k.kind, k.text.to_string())),
        }
    }
}

/// An entry with more than one value: the parser rejects it, the syntax tree does not.
fn surplus_values(src: &str) -> bool {
    let p = styx_cst::parse(src);
    p.is_ok()
        && p.syntax().descendants().any(|n| {
            n.kind() == SyntaxKind::ENTRY && n.children().filter(|c| c.kind() == SyntaxKind::VALUE).count() > 1
        })
}

pub fn format(src: &str, l: &mut Local) {
    format_impl(src, true, l)
}

fn format_impl(src: &str, skip_surplus: bool, l: &mut Local) {
    format_with(src, skip_surplus, "    ", l)
}

fn format_tabs(src: &str, l: &mut Local) {
    format_with(src, true, "\t", l)
}

fn format_with(src: &str, skip_surplus: bool, indent: &'static str, l: &mut Local) {
    l.exec(src.len() as u64);
    let opts = || FormatOptions::default().indent(indent);
    let out = format_source(src, opts());
    l.outcome(&out);
    let before = impltree::fold(&impltree::events(src));
    let r = (|| -> Result<(), String> {
        let evs = impltree::events(&out);
        let after = impltree::fold(&evs);
        match (&before, &after) {
            (Impl::Accept(a), Impl::Accept(b)) => {
                l.class("accepted");
                if a != b {
                    return Err(format!("formatted to {out:?}, which means {b:?} instead of {a:?}"));
                }
            }
            (Impl::Accept(_), o) => return Err(format!("valid, but formatted to {out:?}, which gives {o:?}")),
            _ => l.class("rejected"),
        }
        if skip_surplus && surplus_values(src) {
            // known finding: the values after the first are dropped; see the space `surplus-values`
            l.class("surplus values");
            return Ok(());
        }
        if content(src) != content(&out) {
            return Err(format!("formatted to {out:?}: contents or comments changed"));
        }
        if !styx_cst::parse(src).is_ok() {
            if out != src {
                return Err(format!("has syntax errors, but was changed to {out:?}"));
            }
            return Ok(());
        }
        let twice = format_source(&out, opts());
        if twice != out {
            return Err(format!("not idempotent: {out:?} becomes {twice:?}"));
        }
        if !out.is_empty() && !out.ends_with('\n') {
            return Err(format!("output {out:?} does not end with a newline"));
        }
        Ok(())
    })();
    if let Err(m) = r {
        l.violation(viol(src, m));
    }
}

/// Whole lines: blocks, blank lines, comments.
const LINES: Alphabet = &["a 1\n", "b {\n", "}\n", "c (\n", ")\n", "\n", "// c\n", "/// d\n", "e {x 1}\n", "f ({x 1} {\ny 2})\n", "g @t{\n", "@schema s\n", "h x>1 y>{z 2}\n", "{}\n"];

const BLOCKS: Alphabet = &["a ", "b", "{", "}", "(", ")", "\n", "// c\n", "/// d\n", "@t", ",", "x>1"];

pub fn run_format(ctx: &Ctx) {
    if replay(ctx, |s, l| format_impl(s, false, l)) {
        return;
    }
    ctx.space("surplus-values", json!({"documents": SURPLUS}), SURPLUS.len() as u64, |i| SURPLUS[i as usize].into(), |i, l| {
        format_impl(SURPLUS[i as usize], false, l)
    });
    sweep(ctx, "full", c_doc::FULL, ctx.pick(4, 5), PLAIN, format);
    sweep(ctx, "blocks", BLOCKS, ctx.pick(5, 6), &[("", ""), ("k {", "}"), ("k (", ")"), ("@schema s\n", "")], format);
    sweep(ctx, "comments", c_doc::COMMENTS, ctx.pick(5, 6), &[("", ""), ("k {", "}"), ("k @t(", ")")], format);
    sweep(ctx, "lines", LINES, ctx.pick(5, 7), &[("", ""), ("k {\n", "}"), ("k (\n", "} v\n)")], format);
    sweep(ctx, "lines-tabs", LINES, ctx.pick(4, 6), &[("", ""), ("k {\n", "}")], format_tabs);
    sweep(ctx, "attributes", c_doc::ATTRS, ctx.pick(4, 6), &[("k ", ""), ("", ""), ("k (", ")"), ("k {j ", "}")], format);
    sweep(ctx, "tags", c_doc::TAGS, ctx.pick(4, 5), &[("", ""), ("k (", ")")], format);
    sweep(ctx, "heredoc", c_doc::HEREDOC, ctx.pick(5, 6), &[("", ""), ("k (", "\n)"), ("k {\n", "\n}"), ("k {j <<A\n", "\n A\n}")], format);
}

const SURPLUS: &[&str] = &["a b c\n", "type @optional @string\n"];
