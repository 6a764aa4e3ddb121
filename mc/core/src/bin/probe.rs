use std::io::Read;
fn main(){ let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 for doc in s.split("\n---\n") {
  println!("=== {:?}", doc);
  let evs = std::panic::catch_unwind(|| styx_parse::Parser::new(doc).parse_to_vec());
  match evs { Ok(e)=> for x in e { println!("  {:?}", x) }, Err(_)=>println!("  PANIC") }
  let t = std::panic::catch_unwind(|| styx_tree::parse(doc));
  match t { Ok(Ok(v))=>println!("  TREE {}", styx_format::format_value_default(&v).replace('\n',"⏎")), Ok(Err(e))=>println!("  TREE ERR {e}"), Err(_)=>println!("  TREE PANIC")}
  let c = styx_cst::parse(doc);
  println!("  CST errs {:?} lossless {}", c.errors(), c.syntax().to_string()==doc);
  println!("  VALID {:?}", styx_cst::validate(&c.syntax()));
  println!("  FMT {:?}", styx_format::format_source(doc, Default::default()));
 }
}
