//! C14: schemas embedded in a binary are found again, intact, whatever surrounds them.
use mc_engine::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use styx_embed::{ExtractError, MAGIC_V1, MAGIC_V2, build_embedded_blob, extract_schemas, extract_schemas_from_object};

#[allow(dead_code)]
mod embedded {
    include!(concat!(env!("OUT_DIR"), "/calls.rs"));
}
const EMBEDDED: &[&str] = include!(concat!(env!("OUT_DIR"), "/list.rs"));

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
/// The system allocator; remembers the largest request of each thread.
struct Watch;
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LARGEST.try_with(|m| m.set(m.get().max(l.size())));
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = LARGEST.try_with(|m| m.set(m.get().max(l.size())));
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LARGEST.try_with(|m| m.set(m.get().max(n)));
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static WATCH: Watch = Watch;

/// Extract, and check that memory use stays in proportion (LZ4 expands at most 255 times).
fn extract(f: fn(&[u8]) -> Result<Vec<String>, ExtractError>, data: &[u8]) -> Result<Vec<String>, String> {
    LARGEST.set(0);
    let r = guarded(|| f(data)).map_err(|p| format!("panic: {p}"))?;
    let largest = LARGEST.get();
    if largest > 256 * data.len() + (2 << 20) {
        return Err(format!("asks for {largest} bytes of memory for {} bytes of data", data.len()));
    }
    match r {
        Ok(v) if v.is_empty() => Err("an empty list instead of NotFound".into()),
        Ok(v) => Ok(v),
        Err(ExtractError::NotFound) => Ok(vec![]),
        Err(e) => Err(format!("unexpected error {e:?}")),
    }
}

fn v1(schemas: &[&str]) -> Vec<u8> {
    let mut b = MAGIC_V1.to_vec();
    b.extend((schemas.len() as u16).to_le_bytes());
    for s in schemas {
        let c = lz4_flex::compress_prepend_size(s.as_bytes());
        b.extend((s.len() as u32).to_le_bytes());
        b.extend((c.len() as u32).to_le_bytes());
        b.extend(blake3::hash(s.as_bytes()).as_bytes());
        b.extend(c);
    }
    b
}
const A: &str = "meta {id a}\nschema {@ @string}\n";
const B: &str = "meta {id b}\nschema {@ @object{aaaaaaaa @string, bbbbbbbb @string, cccccccc @string}}\n";
const C: &str = "é";

/// A piece of a binary: name, bytes, texts it embeds (V2, V1).
type Piece = (&'static str, Vec<u8>, Vec<&'static str>, Vec<&'static str>);
fn pieces() -> Vec<Piece> {
    let blob = build_embedded_blob;
    let cut = |s: &str, n: usize| { let mut b = blob(s); b.truncate(b.len() - n); b };
    let flip = |s: &str, i: usize| { let mut b = blob(s); b[i] ^= 1; b };
    let huge = |m: &[u8]| { let mut b = m.to_vec(); b.extend([0xff; 44]); b };
    vec![
        ("A", blob(A), vec![A], vec![]),
        ("B", blob(B), vec![B], vec![]),
        ("empty", blob(""), vec![""], vec![]),
        ("v1(C, A)", v1(&[C, A]), vec![], vec![C, A]),
        ("v1()", v1(&[]), vec![], vec![]),
        ("zeros", vec![0; 7], vec![], vec![]),
        ("text", b"STYX_SCHEMA".to_vec(), vec![], vec![]),
        ("magic", MAGIC_V2.to_vec(), vec![], vec![]),
        ("magic-1", MAGIC_V2[..15].to_vec(), vec![], vec![]),
        ("v1 magic", MAGIC_V1.to_vec(), vec![], vec![]),
        ("huge", huge(MAGIC_V2), vec![], vec![]),
        ("v1 huge", huge(MAGIC_V1), vec![], vec![]),
        ("A cut", cut(A, 3), vec![], vec![]),
        ("B bad hash", flip(B, 30), vec![], vec![]),
        ("A bad size", flip(A, 16), vec![], vec![]),
        ("v1 cut", { let mut b = v1(&[C, A]); b.pop(); b }, vec![], vec![]),
    ]
}

fn arrangements(ctx: &Ctx, name: &str, f: fn(&[u8]) -> Result<Vec<String>, ExtractError>, n: u32) {
    let ps = pieces();
    let s = Seqs::new(ps.len(), 0, n);
    let parts = |i: u64| { let mut v = vec![]; s.decode(i, &mut v); v };
    let describe = |i: u64| parts(i).iter().map(|&k| ps[k].0).collect::<Vec<_>>().join(" + ");
    ctx.space(name, json!({"pieces": ps.iter().map(|p| p.0).collect::<Vec<_>>(), "max_pieces": n}), s.total(), describe, |i, l| {
        let ks = parts(i);
        let data: Vec<u8> = ks.iter().flat_map(|&k| ps[k].1.clone()).collect();
        let want: Vec<&str> = ks.iter().flat_map(|&k| ps[k].2.clone()).chain(ks.iter().flat_map(|&k| ps[k].3.clone())).collect();
        l.exec(1);
        l.outcome(&want);
        match extract(f, &data) {
            Ok(got) if got == want => {}
            got => l.violation(viol(format!("{name}: {}", describe(i)), format!("expected {want:?}, got {got:?}"))),
        }
    });
}

/// Whether `got` is `want` without some texts.
fn subsequence(got: &[String], want: &[&str]) -> bool {
    let mut w = want.iter();
    got.iter().all(|g| w.any(|x| x == g))
}

fn damage(ctx: &Ctx) {
    let bases: Vec<(Vec<u8>, &str, std::ops::Range<usize>, &str)> = {
        let (a, b, o) = (build_embedded_blob(A), build_embedded_blob(B), v1(&[B, C]));
        let join = |x: &[&[u8]]| x.concat();
        vec![
            (join(&[b"xx", &a, b"\0", &b]), "A", 2..2 + a.len(), "B"),
            (join(&[&b, &a]), "B", 0..b.len(), "A"),
            (join(&[&a, &o]), "A", 0..a.len(), "v1(B, C)"),
            (join(&[&o, &a]), "v1(B, C)", 0..o.len(), "A"),
        ]
    };
    let texts = |n: &str| match n { "A" => vec![A], "B" => vec![B], _ => vec![B, C] };
    for (n, (base, first, at, second)) in bases.iter().enumerate() {
        let all: Vec<&str> = if first.starts_with("v1") { [texts(second), texts(first)].concat() } else { [texts(first), texts(second)].concat() };
        // every truncation
        ctx.space(&format!("truncated {n}"), json!({"layout": [first, second], "cut": "every length"}), base.len() as u64 + 1, |i| format!("{first} {second} cut at {i}"), |i, l| {
            l.exec(1);
            let key = || format!("{first} + {second} cut to {i}");
            let complete = i as usize >= at.end;
            match extract(extract_schemas, &base[..i as usize]) {
                Ok(got) => {
                    l.outcome(&got);
                    if !subsequence(&got, &all) { l.violation(viol(key(), format!("got {got:?}"))) }
                    if complete && !texts(first).iter().all(|t| got.iter().any(|g| g == t)) { l.violation(viol(key(), format!("the intact {first} is lost: {got:?}"))) }
                }
                Err(e) => l.violation(viol(key(), e)),
            }
        });
        // every byte of the first blob changed to everything else
        let total = at.len() as u64 * 255;
        let change = |i: u64| (at.start + (i / 255) as usize, (i % 255 + 1) as u8);
        ctx.space(&format!("one byte {n}"), json!({"layout": [first, second], "changed": "every byte of the first, to every other value"}), total, |i| format!("{first} {second} {:?}", change(i)), |i, l| {
            l.exec(1);
            let (p, x) = change(i);
            let mut data = base.clone();
            data[p] ^= x;
            let key = || format!("{first} + {second}, byte {p} xor {x}");
            match extract(extract_schemas, &data) {
                Ok(got) => {
                    l.outcome(&got);
                    if !subsequence(&got, &all) { l.violation(viol(key(), format!("got {got:?}"))) }
                    if !texts(second).iter().all(|t| got.iter().any(|g| g == t)) { l.violation(viol(key(), format!("the intact {second} is lost: {got:?}"))) }
                }
                Err(e) => l.violation(viol(key(), e)),
            }
        });
    }
    // every removal or insertion of one or two bytes
    let (base, ..) = &bases[0];
    let total = base.len() as u64 * 8;
    ctx.space("shifted", json!({"layout": ["A", "B"], "edits": "every removal of 1-4 bytes, every insertion of 1-4 zeros"}), total, |i| format!("edit {i}"), |i, l| {
        l.exec(1);
        let (p, n) = ((i / 8) as usize, (i % 4 + 1) as usize);
        let mut data = base.clone();
        if i % 8 < 4 { data.drain(p..(p + n).min(base.len())); } else { data.splice(p..p, vec![0; n]); }
        match extract(extract_schemas, &data) {
            Ok(got) => { l.outcome(&got); if !subsequence(&got, &[A, B]) { l.violation(viol(format!("A + B edit {i}"), format!("got {got:?}"))) } }
            Err(e) => l.violation(viol(format!("A + B edit {i}"), e)),
        }
    });
}

fn texts(ctx: &Ctx) {
    const CH: &[&str] = &["a", "é", "\0", "\n", "😀", "STYX_SCHEMA_V2\0\0", "STYX_SCHEMAS_V1\0", "aaaaaaaaaaaaaaaaaaaaaaaaaaaa", "abcdefghijklmnopqrst"];
    let s = Seqs::new(CH.len(), 0, ctx.pick(5, 6));
    ctx.space("texts", json!({"alphabet": CH, "max_length": ctx.pick(5, 6)}), s.total(), |i| format!("{:?}", s.concat(i, CH)), |i, l| {
        let t = s.concat(i, CH);
        l.exec(1);
        l.outcome(&t.len());
        match extract(extract_schemas, &build_embedded_blob(&t)) {
            Ok(got) if got == [t.as_str()] => {}
            got => l.violation(viol(format!("text {t:?}"), format!("got {got:?}"))),
        }
    });
    let max = ctx.pick(3000u64, 70000);
    ctx.space("sizes", json!({"bytes": [0, max], "kinds": ["one letter repeated", "no repetition"]}), 2 * (max + 1), |i| format!("size {}", i / 2), |i, l| {
        let n = (i / 2) as usize;
        let mut x = 12345u32;
        let t: String = (0..n).map(|_| { if i % 2 == 1 { x = x.wrapping_mul(1664525).wrapping_add(1013904223); } char::from(b' ' + (x >> 25) as u8 % 95) }).collect();
        l.exec(1);
        l.outcome(&i);
        match extract(extract_schemas, &build_embedded_blob(&t)) {
            Ok(got) if got == [t.as_str()] => {}
            got => l.violation(viol(format!("size {n} kind {}", i % 2), format!("not read back: {}", format!("{got:?}").chars().take(200).collect::<String>()))),
        }
    });
}

// --- object files ---------------------------------------------------------------------------

fn le(b: &mut Vec<u8>, n: u64, size: usize) {
    b.extend(&n.to_le_bytes()[..size]);
}
fn name16(s: &str, n: usize) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.resize(n, 0);
    v
}
fn elf(class: u8, section: &str, content: &[u8], trailer: &[u8]) -> Vec<u8> {
    let w = if class == 2 { 8 } else { 4 };
    let (eh, sh) = if class == 2 { (64, 64) } else { (52, 40) };
    let names = format!("\0.shstrtab\0{section}\0").into_bytes();
    let body = eh + names.len() + content.len() + trailer.len();
    let shoff = body.next_multiple_of(8);
    let mut b = vec![0x7f, b'E', b'L', b'F', class, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    le(&mut b, 3, 2);
    le(&mut b, if class == 2 { 62 } else { 3 }, 2);
    le(&mut b, 1, 4);
    le(&mut b, 0, w);
    le(&mut b, 0, w);
    le(&mut b, shoff as u64, w);
    le(&mut b, 0, 4);
    for x in [eh as u64, 0, 0, sh as u64, 3, 1] {
        le(&mut b, x, 2);
    }
    assert_eq!(b.len(), eh);
    b.extend(&names);
    b.extend(content);
    b.extend(trailer);
    b.resize(shoff, 0);
    for (name, ty, off, size) in [(0, 0, 0, 0), (1, 3, eh, names.len()), (11, 1, eh + names.len(), content.len())] {
        le(&mut b, name, 4);
        le(&mut b, ty, 4);
        le(&mut b, 0, w);
        le(&mut b, 0, w);
        le(&mut b, off as u64, w);
        le(&mut b, size as u64, w);
        le(&mut b, 0, 8);
        le(&mut b, 1, w);
        le(&mut b, 0, w);
    }
    b
}
fn macho(segment: &str, section: &str, content: &[u8], trailer: &[u8]) -> Vec<u8> {
    let start = 32 + 72 + 80;
    let mut b = vec![];
    for x in [0xfeedfacfu64, 0x01000007, 3, 2, 1, 72 + 80, 0, 0] {
        le(&mut b, x, 4);
    }
    le(&mut b, 0x19, 4);
    le(&mut b, 72 + 80, 4);
    b.extend(name16(segment, 16));
    for x in [0, content.len(), start, content.len()] {
        le(&mut b, x as u64, 8);
    }
    for x in [3, 3, 1, 0] {
        le(&mut b, x, 4);
    }
    b.extend(name16(section, 16));
    b.extend(name16(segment, 16));
    le(&mut b, 0, 8);
    le(&mut b, content.len() as u64, 8);
    for x in [start as u64, 0, 0, 0, 0, 0, 0, 0] {
        le(&mut b, x, 4);
    }
    assert_eq!(b.len(), start);
    b.extend(content);
    b.extend(trailer);
    b
}
fn fat(first: &[u8], second: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    let be = |b: &mut Vec<u8>, x: u32| b.extend(x.to_be_bytes());
    be(&mut b, 0xcafebabe);
    be(&mut b, 2);
    let (o1, o2) = (64, (64 + first.len()).next_multiple_of(8));
    for x in [0x01000007, 3, o1, first.len(), 3, 0x0100000c, 0, o2, second.len(), 3] {
        be(&mut b, x as u32);
    }
    b.resize(o1, 0);
    b.extend(first);
    b.resize(o2, 0);
    b.extend(second);
    b
}
fn pe(section: &str, content: &[u8], trailer: &[u8]) -> Vec<u8> {
    let mut b = vec![0; 128];
    b[0] = b'M';
    b[1] = b'Z';
    b[0x3c] = 128;
    b.extend(b"PE\0\0");
    for (x, n) in [(0x8664, 2), (1, 2), (0, 4), (0, 4), (0, 4), (240, 2), (0x22, 2)] {
        le(&mut b, x, n);
    }
    // optional header (PE32+)
    let optional = b.len();
    le(&mut b, 0x20b, 2);
    b.resize(optional + 24, 0);
    le(&mut b, 0x140000000, 8);
    le(&mut b, 0x1000, 4);
    le(&mut b, 0x200, 4);
    b.resize(optional + 108, 0);
    le(&mut b, 16, 4);
    b.resize(optional + 240, 0);
    b.extend(name16(section, 8));
    let start = b.len() + 32;
    for x in [content.len(), 0x1000, content.len(), start, 0, 0] {
        le(&mut b, x as u64, 4);
    }
    le(&mut b, 0, 4);
    le(&mut b, 0x40000040, 4);
    assert_eq!(b.len(), start);
    b.extend(content);
    b.extend(trailer);
    b
}
fn objects() -> Vec<(&'static str, Vec<u8>, Vec<&'static str>)> {
    let (a, b, c) = (build_embedded_blob(A), build_embedded_blob(B), build_embedded_blob(C));
    let ab = [&a[..], b"\0\0", &b].concat();
    vec![
        ("elf64", elf(2, ".styx_schemas", &ab, &c), vec![A, B]),
        ("elf32", elf(1, ".styx_schemas", &ab, &c), vec![A, B]),
        ("elf64 without the section", elf(2, ".other", &ab, &c), vec![A, B, C]),
        ("macho", macho("__DATA", "__styx_schemas", &ab, &c), vec![A, B]),
        ("macho without the section", macho("__DATA", "__other", &ab, &c), vec![A, B, C]),
        ("fat", fat(&macho("__DATA", "__styx_schemas", &ab, &c), &macho("__DATA", "__styx_schemas", &ab, &c)), vec![A, B]),
        ("fat, section in the second", fat(&macho("__DATA", "__other", b"x", b""), &macho("__DATA", "__styx_schemas", &ab, &c)), vec![A, B]),
        ("pe", pe(".styx", &ab, &c), vec![A, B]),
        ("pe without the section", pe(".other", &ab, &c), vec![A, B, C]),
    ]
}

fn object_files(ctx: &Ctx) {
    let objs = objects();
    ctx.space("objects", json!({"formats": objs.iter().map(|o| o.0).collect::<Vec<_>>()}), objs.len() as u64, |i| objs[i as usize].0.into(), |i, l| {
        let (name, data, want) = &objs[i as usize];
        l.exec(1);
        l.outcome(&i);
        match extract(extract_schemas_from_object, data) {
            Ok(got) if got == *want => {}
            got => l.violation(viol(name.to_string(), format!("expected {want:?}, got {got:?}"))),
        }
    });
    const WORDS: &[u64] = &[0, 1, 8, 0x7f, 0xff, 0x7fff, 0xffff, 0x7fff_ffff, 0xffff_ffff, 0x7fff_ffff_ffff_ffff, u64::MAX, u64::MAX - 63, 1 << 63];
    for (name, data, _) in &objs {
        let known = |got: &[String]| got.iter().all(|g| [A, B, C].contains(&g.as_str()));
        let judge = |l: &mut Local, key: String, d: &[u8]| {
            l.exec(1);
            match extract(extract_schemas_from_object, d) {
                Ok(got) => {
                    l.outcome(&got);
                    if !known(&got) { l.violation(viol(key, format!("got {got:?}"))) }
                }
                Err(e) => l.violation(viol(key, e)),
            }
        };
        ctx.space(&format!("{name}: cut"), json!({"cut": "every length"}), data.len() as u64, |i| format!("{name} cut to {i}"), |i, l| judge(l, format!("{name} cut to {i}"), &data[..i as usize]));
        ctx.space(&format!("{name}: one byte"), json!({"changed": "every byte, to every other value"}), data.len() as u64 * 255, |i| format!("{name} byte {} xor {}", i / 255, i % 255 + 1), |i, l| {
            let mut d = data.clone();
            d[(i / 255) as usize] ^= (i % 255 + 1) as u8;
            judge(l, format!("{name} byte {} xor {}", i / 255, i % 255 + 1), &d);
        });
        // offsets and sizes: any one or two fields with boundary values
        let step = 4;
        let slots = (data.len() / step - 1) as u64;
        let k = WORDS.len() as u64;
        let size = |w: u64| if w > u32::MAX as u64 { 8 } else { 4 };
        let set = |d: &mut Vec<u8>, slot: u64, w: u64| {
            let (p, n) = (slot as usize * step, size(w));
            d[p..p + n].copy_from_slice(&w.to_le_bytes()[..n]);
        };
        ctx.space(&format!("{name}: two fields"), json!({"fields": slots, "values": WORDS}), slots * k * 12 * k, |i| format!("{name} fields {i}"), |i, l| {
            let p = Product(vec![slots, k, 12, k]).decode(i);
            let mut d = data.clone();
            set(&mut d, p[0] as u64, WORDS[p[1]]);
            let other = p[0] + p[2];
            if (other as u64) < slots {
                set(&mut d, other as u64, WORDS[p[3]]);
            }
            judge(l, format!("{name} words {} = {:#x}, {} = {:#x}", p[0], WORDS[p[1]], other, WORDS[p[3]]), &d);
        });
    }
}

fn macros(ctx: &Ctx) {
    ctx.sequential("macros", json!({"literals": EMBEDDED.len(), "how": "each compiled into this program by an embed macro; read back from the program file"}), |l| {
        let exe = std::env::current_exe().expect("own path");
        let got = match styx_embed::extract_schemas_from_file(&exe) {
            Ok(v) => v,
            Err(e) => return l.violation(viol("macros", format!("nothing found in the program: {e}"))),
        };
        for want in EMBEDDED {
            l.exec(1);
            l.outcome(want);
            match got.iter().filter(|g| g == want).count() {
                1 => {}
                n => l.violation(viol(format!("embedded {want:?}"), format!("found {n} times in the program file"))),
            }
        }
        for g in &got {
            if !EMBEDDED.contains(&g.as_str()) {
                l.violation(viol(format!("found {g:?}"), "not what was embedded"));
            }
        }
    });
}

fn main() {
    let prop = std::env::args().nth(1).expect("usage: mc-embed C14");
    mc_engine::supervise();
    let ctx = Ctx::new(&prop, "model_checking");
    ctx.assume("BLAKE3 has no collisions among the enumerated blobs");
    macros(&ctx);
    arrangements(&ctx, "arrangements", extract_schemas, ctx.pick(4, 5));
    arrangements(&ctx, "arrangements as files", extract_schemas_from_object, ctx.pick(3, 4));
    texts(&ctx);
    damage(&ctx);
    object_files(&ctx);
    ctx.finish()
}
