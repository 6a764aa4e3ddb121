//! `mc-lsp <PROPERTY>`: checks of the language server.
mod c_disk;
mod c_ext;
mod c_hint;
mod c_pos;
mod c_sync;
mod session;

use mc_engine::Ctx;

fn main() {
    let prop = std::env::args().nth(1).expect("usage: mc-lsp <PROPERTY>");
    mc_engine::supervise();
    // everything the server reads or writes for the user lies here
    let dir = std::env::temp_dir().join(format!("mc-lsp-{}", std::process::id()));
    std::fs::create_dir_all(dir.join("config")).unwrap();
    unsafe {
        std::env::set_var("XDG_CONFIG_HOME", dir.join("config"));
        std::env::set_var("XDG_CACHE_HOME", dir.join("cache"));
    }
    let ctx = Ctx::new(&prop, "model_checking");
    // one history has many schedules
    ctx.set_limit(std::time::Duration::from_secs(ctx.pick(60, 600)));
    match prop.as_str() {
        "C24" => c_disk::run(&ctx, &dir),
        "C25" => c_ext::run(&ctx, &dir),
        "C26" => c_hint::run(&ctx, &dir),
        "C17" => c_pos::run(&ctx, &dir),
        "C18" => c_sync::run(&ctx, &dir),
        p => panic!("unknown property {p}"),
    }
    let _ = std::fs::remove_dir_all(&dir);
    ctx.finish()
}
