//! `mc-core <PROPERTY>`: run one check.
mod c_cli;
mod c_doc;
mod c_ffi;
mod c_fmt;
mod c_schema;
mod c_value;
mod c_wf;
mod c_write;
mod impltree;
mod refdoc;

use mc_engine::Ctx;

fn main() {
    let prop = std::env::args().nth(1).expect("usage: mc-core <PROPERTY>");
    mc_engine::supervise();
    let ctx = Ctx::new(&prop, "model_checking");
    match prop.as_str() {
        "C01" => c_doc::scalars(&ctx),
        "C03" => c_doc::paths(&ctx),
        "C04" => c_wf::run(&ctx),
        "C05" => c_fmt::run_cst(&ctx),
        "C07" => c_fmt::run_format(&ctx),
        "C09" => c_write::run(&ctx),
        "C12" => c_schema::run(&ctx),
        "C19" => c_cli::check(&ctx),
        "C20" => c_ffi::run(&ctx),
        "C22" => c_value::run(&ctx),
        "C02" => c_doc::grammar(&ctx),
        p => panic!("unknown property {p}"),
    }
    ctx.finish()
}
