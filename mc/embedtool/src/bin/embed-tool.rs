//! A program with two embedded schemas.
styx_embed::embed_files!("s1.styx", "s2.styx");
fn main() {}
