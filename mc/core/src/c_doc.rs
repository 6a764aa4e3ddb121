//! Document-language checks: every token sequence up to a bound, real parser against the reference.
use crate::impltree::{self, Impl};
use crate::refdoc::{self, Out, R};
use mc_engine::*;

pub type Alphabet = &'static [&'static str];

/// Lexemes covering every token class, plus separators.
pub const FULL: Alphabet = &[
    " ", "\n", "a", "b", "a.b", "\"a\"", "\"\\n\"", "r#\"a\"#", "@", "@t", "@t/@u", "{", "}", "(", ")", ",", ">", "// c\n", "/// d\n",
    "<<A\n x\n  A", "=", "\\", "\r\n", ".",
];
/// Entries, nesting and separators.
pub const STRUCT: Alphabet = &["a ", "b.c ", "\"a\" ", "@t", "{", "} ", "(", ") ", "\n", ","];
/// Comments and doc comments around entries.
pub const COMMENTS: Alphabet = &["a", " ", "\n", "/// d\n", "///\n", "// c\n", "{", "}", "(", ")", ","];
/// Line ends, alone and around comments.
pub const EOL: Alphabet = &["k", " v", "\r\n", "\n", "\r", "// c", "/// d", ",", "{", "}", " ]"];
/// Attribute objects.
pub const ATTRS: Alphabet = &["a>", "b>", "x", " ", "\n", "\"y\"", "(", ")", "{", "}", ",", "@t"];
/// Heredocs, line by line.
pub const HEREDOC: Alphabet = &["a ", "<<A\n", "<<AB,rust\n", "  x\n", "\ty", "\r\n", " A", "A", "AB", "\n", " "];
/// Tags and their payloads.
pub const TAGS: Alphabet = &["k ", "@t", "@", "/@u", "\"p\"", "r#\"p\"#", "{", "}", "(", ")", " ", "\n", "x", "1", "-", ".y"];
/// Where the name of a tag ends and its payload begins.
pub const TAGNAME: Alphabet = &["@", "t", "r", "\"p\"", "r\"", "r#\"p\"#", "#", "-", "1", "_", "/@", "(", ")", "{", "}", " "];
/// Contents of a quoted scalar.
pub const ESC: Alphabet = &["\\", "\\\\", "n", "u", "{", "}", "4", "1", "f", "D8", "10FFFF", "é", "😀", " ", "r", "t", "#", "//"];
/// Contents of a raw scalar.
pub const RAW: Alphabet = &["r", "#", "\"", "a", "\\", "\n", " ", "é", "##"];
/// The key of the next entry directly after whatever may end a value.
pub const ADJ: Alphabet = &["k ", "x", "\"q\"", "r\"w\"", "@", "{", "}", "(", ")", "y>1", " ", ","];

pub fn compare(src: &str, l: &mut Local) {
    let r = refdoc::parse(src);
    l.exec(src.len() as u64);
    if let Out::Unspecified(_) = r {
        l.class("unspecified");
        return;
    }
    let evs = impltree::events(src);
    let im = impltree::fold(&evs);
    let tree = styx_tree::parse(src);
    match (&r, &im) {
        (Out::Unspecified(_), _) => {}
        (Out::Reject(_), Impl::Reject(k)) => {
            l.class("reject");
            l.outcome(&format!("{k:?}"));
            if tree.is_ok() {
                l.violation(viol(src, "styx_tree accepts a document the parser reports errors for"));
            }
        }
        (Out::Accept(a), Impl::Accept(b)) => {
            l.class("accept");
            if a != b {
                l.violation(viol(src, format!("tree differs: expected {a:?}, got {b:?}")));
            }
            l.outcome(a);
            // the tree the library hands out
            match tree {
                Ok(v) => {
                    let t = impltree::from_value(&v);
                    let want = R::Obj(a.clone());
                    if !impltree::has_chain(&want) && t != want {
                        l.violation(viol(src, format!("styx_tree differs: expected {want:?}, got {t:?}")));
                    }
                }
                Err(e) => l.violation(viol(src, format!("styx_tree rejects: {e}"))),
            }
        }
        (Out::Accept(a), o) => l.violation(viol(src, format!("valid document: expected {a:?}, got {o:?}"))),
        (Out::Reject(w), o) => l.violation(viol(src, format!("invalid document ({w}) accepted: {o:?}"))),
    }
}

/// Every sequence over `alphabet` of length `min..=max`, each with every prefix/suffix context.
pub fn sweep(ctx: &Ctx, name: &str, alphabet: Alphabet, max: u32, contexts: &'static [(&'static str, &'static str)], f: fn(&str, &mut Local)) {
    let s = Seqs::new(alphabet.len(), 0, max);
    let n = contexts.len() as u64;
    let build = |i: u64| {
        let (p, q) = contexts[(i % n) as usize];
        format!("{p}{}{q}", s.concat(i / n, alphabet))
    };
    ctx.space(
        name,
        json!({"alphabet": alphabet, "max_length": max, "contexts": contexts}),
        s.total() * n,
        build,
        |i, l| {
            let src = build(i);
            f(&src, l);
            if i % 1009 == 500 {
                l.sample(i, json!(src));
            }
        },
    );
}

const PLAIN: &[(&str, &str)] = &[("", "")];

pub fn replay(ctx: &Ctx, f: fn(&str, &mut Local)) -> bool {
    let Some(p) = &ctx.replay else { return false };
    let t = std::fs::read_to_string(p).expect("replay file");
    let j: Json = serde_json::from_str(&t).expect("replay json");
    let src = j["input"].as_str().expect("input").to_string();
    ctx.sequential("replay", json!({"input": src}), |l| f(&src, l));
    true
}

/// C02: which documents are accepted, and as what.
pub fn grammar(ctx: &Ctx) {
    ctx.assume("the specification is docs/content/reference/spec/parser.md; documents it does not decide (class `unspecified`) are not compared");
    if replay(ctx, compare) {
        return;
    }
    sweep(ctx, "full", FULL, ctx.pick(5, 6), PLAIN, compare);
    sweep(ctx, "structure", STRUCT, ctx.pick(6, 8), PLAIN, compare);
    sweep(ctx, "comments", COMMENTS, ctx.pick(6, 7), PLAIN, compare);
    sweep(ctx, "line-ends", EOL, ctx.pick(6, 7), PLAIN, compare);
    sweep(ctx, "attributes", ATTRS, ctx.pick(5, 6), &[("k ", ""), ("", ""), ("k (", ")"), ("k {j ", "}")], compare);
    sweep(ctx, "tags", TAGS, ctx.pick(5, 6), &[("", ""), ("k (", ")")], compare);
    sweep(ctx, "tag-names", TAGNAME, ctx.pick(5, 6), &[("k @", ""), ("@", " v"), ("k (@t", ")")], compare);
    sweep(ctx, "adjacency", ADJ, ctx.pick(5, 6), &[("", ""), ("k (", ")"), ("k {", "}"), ("{", "}")], compare);
}

/// C01: scalar contents.
pub fn scalars(ctx: &Ctx) {
    if replay(ctx, compare) {
        return;
    }
    sweep(ctx, "quoted", ESC, ctx.pick(5, 6), &[("k \"", "\""), ("\"", "\" v"), ("@t\"", "\" v"), ("k @t\"", "\"")], compare);
    sweep(ctx, "raw", RAW, ctx.pick(6, 7), &[("k r", ""), ("k r#\"", "\"#"), ("k (r##\"", "\"## b)"), ("k @t", "")], compare);
    const BARE: Alphabet = &["a", "=", "/", "//", "<", "<<", "#", "\\", "é", "@", ".", "-", "1", "r", "\u{a0}", ":", "r#", "\u{feff}"];
    sweep(ctx, "bare", BARE, ctx.pick(5, 6), &[("k ", "\n"), ("k (", " z)"), ("", " v")], compare);
    sweep(ctx, "heredoc", HEREDOC, ctx.pick(6, 7), &[("k <<A\n", "A"), ("k (<<AB\n", "AB\n)"), ("k @t<<A\n", "\n A\nz 1")], compare);
    const INDENT: Alphabet = &[" ", "\t", "x", "\n", "A", "\r\n", "é", "\u{a0}"];
    sweep(ctx, "heredoc-indent", INDENT, ctx.pick(6, 7), &[("k <<A\n", "\n  A"), ("k <<A\n", "\n\tA\n"), ("k {j <<A\n", "\n A\n}")], compare);
    // every number as an escape, and every character as it is
    let build = |i: u64| {
        let n = i / 5;
        match i % 5 {
            0 => format!("k \"\\u{{{n:x}}}\""),
            1 => format!("k \"a\\u{{{n:06X}}}b\""),
            2 => format!("\"\\u{n:04X}\" v"),
            3 => format!("k @t\"\\u{n:04x}1\""),
            _ => char::from_u32(n as u32).map(|c| format!("k \"{c}\"\nj r\"{c}\"")).unwrap_or_default(),
        }
    };
    let top = ctx.pick(0x11_0100u64, 0x20_0100);
    ctx.space("code-points", json!({"numbers": top, "forms": 5}), top * 5, build, |i, l| compare(&build(i), l));
    // number of hashes of a raw scalar
    let n = ctx.pick(600u64, 2000);
    let build = |i: u64| {
        let h = "#".repeat((i / 4) as usize);
        let inner = ["a", "\"", "\"#", "\\n"][(i % 4) as usize];
        format!("k r{h}\"{inner}\"{h}\nz 1")
    };
    ctx.space("raw-hashes", json!({"hashes": n}), n * 4, build, |i, l| compare(&build(i), l));
    // heredoc delimiter and language hint
    const DELIM: Alphabet = &["A", "Z", "0", "_", "a", "-", ",", ".", "9", " "];
    sweep(ctx, "heredoc-delimiter", DELIM, ctx.pick(5, 6), &[("k <<", "\n x\nA"), ("k <<A", "\n x\nA\n")], compare);
    let build = |i: u64| {
        let d = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[..(1 + i as usize % 24)].to_string();
        let ind = " ".repeat(i as usize / 24 % 6);
        let body = ["x\n", "", "    x\n  y\n", "\n\n"][(i / 144) as usize];
        format!("k <<{d}\n{body}{ind}{d}\nz 1")
    };
    ctx.space("heredoc-delimiter-length", json!({"lengths": 24}), 24 * 6 * 4, build, |i, l| compare(&build(i), l));
}

/// C03: key identity and the dotted-path state machine, over entry histories.
pub fn paths(ctx: &Ctx) {
    if replay(ctx, compare) {
        return;
    }
    const CONTEXTS: &[(&str, &str, &str)] = &[
        ("", "\n", ""),
        ("{", ",", "}"),
        ("x {", "\n", "}"),
        ("x @t{", ",", "}\ny 1"),
        ("x (1 {", "\n", "} 2)"),
        ("p.q {", ", ", "}"),
    ];
    let run = |name: &str, keys: &[&str], vals: &[&str], max: u32, ctxs: &'static [(&'static str, &'static str, &'static str)]| {
        let entries: Vec<String> = keys
            .iter()
            .flat_map(|k| vals.iter().map(move |v| if v.is_empty() { k.to_string() } else { format!("{k} {v}") }))
            .collect();
        let s = Seqs::new(entries.len(), 0, max);
        let n = ctxs.len() as u64;
        let build = |i: u64| {
            let (p, sep, q) = ctxs[(i % n) as usize];
            let mut v = vec![];
            s.decode(i / n, &mut v);
            let body: Vec<&str> = v.iter().map(|&k| entries[k].as_str()).collect();
            format!("{p}{}{q}", body.join(sep))
        };
        ctx.space(
            name,
            json!({"keys": keys, "values": vals, "max_entries": max, "contexts": ctxs}),
            s.total() * n,
            build,
            |i, l| {
                let src = build(i);
                compare(&src, l);
                if i % 1009 == 500 {
                    l.sample(i, json!(src));
                }
            },
        );
    };
    run("dotted", &["a", "b", "a.b", "a.c", "b.a", "a.b.c", "a.b.d", "a.c.b"], &["1", "{}"], ctx.pick(4, 5), CONTEXTS);
    run("dotted-deep", &["a", "a.b", "a.c", "a.b.c", "a.b.c.d", "c"], &["1", "{z 1}"], ctx.pick(5, 6), &CONTEXTS[..1]);
    run("siblings", &["a.x", "a.y", "b.x", "b.y", "c"], &["1"], ctx.pick(7, 9), &CONTEXTS[..3]);
    run(
        "identity",
        &["a", "\"a\"", "r\"a\"", "\"\\u0061\"", "@", "\"@\"", "@a", "\"@a\"", "@a\"a\"", "@a\"b\"", "@ar\"a\"", "@a@", "\"a.b\"", "a.b", "\"\"", "@b\"a\""],
        &["1"],
        ctx.pick(4, 5),
        CONTEXTS,
    );
    run("values", &["a", "a.b", "b"], &["", "1", "{}", "{b 1}", "{b.c 1}", "(1)", "@", "b>1", "@t{b 1}", "@t", "\"s\""], 3, CONTEXTS);
    run("attributes", &["k"], &["a>1", "a>1 b>2", "a>1 a>2", "a>1 b>2 a>3", "b>{a 1} a>2", "a>(1) b>2 b>3"], 2, CONTEXTS);
    run("nested", &["a", "a.b"], &["{a 1, b 2}", "{a.b 1, a.c 2}", "{a.b 1, c 2, a.d 3}", "{a 1, b 2, a 3}", "{a 1, a.b 2}", "{x {a 1, a 2}}", "({a 1, a 2})"], 3, CONTEXTS);
}
