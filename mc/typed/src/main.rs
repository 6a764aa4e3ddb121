//! `mc-typed <PROPERTY>`: checks over Rust types (facet and serde).
mod c_diag;
mod c_gen;
mod c_read;
mod c_round;
mod facet_only;
mod gen_types;
#[path = "../../core/src/refdoc.rs"]
#[allow(dead_code)]
mod refdoc;
mod types;

use mc_engine::Ctx;

fn main() {
    let prop = std::env::args().nth(1).expect("usage: mc-typed <PROPERTY>");
    mc_engine::supervise();
    let ctx = Ctx::new(&prop, "model_checking");
    match prop.as_str() {
        "C06" => c_diag::run(&ctx),
        "C10" => c_round::facet(&ctx),
        "C13" => c_gen::run(&ctx),
        "C23" => c_read::run(&ctx),
        "C11" => c_round::serde(&ctx),
        p => panic!("unknown property {p}"),
    }
    ctx.finish()
}
