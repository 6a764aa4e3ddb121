//! What the disk checks run as separate processes.
#[allow(dead_code)]
mod session;
mod live;
use serde_json::json;
use styx_lsp::{cache, config};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = &args[1..];
    match args[0].as_str() {
        "cache" => match cache::cache_embedded_schema(&rest[0], &rest[1]) {
            Some(p) => println!("{}", p.display()),
            None => println!("none"),
        },
        "save" => {
            let c = config::StyxUserConfig { allowed_extensions: rest.to_vec() };
            if let Err(e) = config::save_config(&c) {
                println!("error {e}");
            }
        }
        "allow" => {
            // no document is open, so nothing is spawned
            let mut s = session::Session::new();
            for c in rest {
                let r = s.request("workspace/executeCommand", json!({"command": "styx.allowExtension", "arguments": [{"command": c}]}));
                assert!(r.get("error").is_none(), "{r}");
            }
        }
        "session" => live::session(&rest[0]),
        "crowd" => live::crowd(&rest[0]),
        "load" => match config::load_config() {
            Ok(Some(c)) => println!("{}", json!(c.allowed_extensions)),
            Ok(None) => println!("none"),
            Err(e) => println!("error {e}"),
        },
        "clear" => match cache::clear_cache() {
            Ok((n, size)) => println!("{n} {size}"),
            Err(e) => println!("error {e}"),
        },
        c => panic!("unknown command {c}"),
    }
}
