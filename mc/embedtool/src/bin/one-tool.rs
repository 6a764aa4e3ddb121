//! A program with one embedded schema.
styx_embed::embed_file!("s1.styx");
fn main() {}
