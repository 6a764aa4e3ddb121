//! Generates one `embed_*!` call per literal: every way to write a string in Rust source.
use std::fmt::Write;

/// Pieces of a string literal and what they stand for (None: not allowed in that kind of literal).
const PLAIN: &[(&str, &str)] = &[
    ("a", "a"), ("é", "é"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\\\", "\\"), ("\\\"", "\""), ("\\'", "'"), ("\\x41", "A"), ("\\u{e9}", "é"), ("\\u{1F600}", "😀"),
    ("\\\n      ", ""), ("\n", "\n"), ("'", "'"), ("#", "#"), ("{}", "{}"),
];
const RAW: &[(&str, &str)] = &[("a", "a"), ("\\n", "\\n"), ("\\", "\\"), ("\"", "\""), ("\n", "\n"), ("é", "é"), ("\"#", "\"#"), ("r", "r")];

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let (mut calls, mut list) = (String::new(), String::new());
    let mut n = 0;
    let mut add = |calls: &mut String, kind: usize, body: &str, text: &str| {
        let head = format!("meta {{id \"l-{n}\"}}\nx <<EOF\n");
        let want = format!("{head}{text}\nEOF\n");
        let call = match kind {
            0 => format!("styx_embed::embed_inline!(\"{}{body}\\nEOF\\n\");", head.replace('\\', "\\\\").replace('"', "\\\"")),
            1 => format!("styx_embed::embed_inline!(r##\"{head}{body}\nEOF\n\"##);"),
            2 => format!("styx_embed::embed_schema!(r###\"{head}{body}\nEOF\n\"###);"),
            _ => {
                let f = format!("{out}/s{n}.styx");
                std::fs::write(&f, &want).unwrap();
                if kind == 3 { format!("styx_embed::embed_file!({f:?});") } else { format!("styx_embed::embed_outdir_file!(\"s{n}.styx\");") }
            }
        };
        writeln!(calls, "{call}").unwrap();
        writeln!(list, "{want:?},").unwrap();
        n += 1;
    };
    let heads = [("", "")];
    for (kind, pieces) in [(0, PLAIN), (1, RAW), (2, RAW), (3, RAW), (4, RAW)] {
        for (b1, t1) in pieces.iter().chain(&heads) {
            for (b2, t2) in pieces.iter().chain(&heads) {
                if kind >= 3 && b2.is_empty() {
                    continue;
                }
                // `\` and a line break, then more white space, would go on
                if *t1 == "" && *b1 != "" && (*b2 == "\n" || *b2 == "\\\n      ") {
                    continue;
                }
                // files hold the text itself
                add(&mut calls, kind, &format!("{b1}{b2}"), &format!("{t1}{t2}"));
            }
        }
    }
    // ids: symbol names must not clash
    for id in ["a-b", "a_b", "a.b", "1a", "é", "", "a b", "A-b", "crate:x@1", "😀"] {
        let text = format!("meta {{id {id:?}}}\n");
        writeln!(calls, "styx_embed::embed_inline!({text:?});").unwrap();
        writeln!(list, "{text:?},").unwrap();
    }
    let two: Vec<String> = (0..2).map(|i| { let f = format!("{out}/m{i}.styx"); let t = format!("meta {{id many{i}}}\n// {i}"); std::fs::write(&f, &t).unwrap(); writeln!(list, "{t:?},").unwrap(); f }).collect();
    writeln!(calls, "styx_embed::embed_files!({:?}, {:?});", two[0], two[1]).unwrap();
    std::fs::write(format!("{out}/calls.rs"), calls).unwrap();
    std::fs::write(format!("{out}/list.rs"), format!("&[{list}]")).unwrap();
}
