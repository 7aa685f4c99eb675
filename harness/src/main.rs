//! gsmc: model checking of globalsearch-rs. `gsmc <property> <quick|thorough>`
#![allow(invalid_runtime_symbol_definitions, dead_code)]
mod api;
mod ckpt;
mod core;
mod explore;
mod faults;
mod fsfault;
mod funs;
mod model;
mod obs;
mod par;
mod parcfg;
#[cfg(feature = "rayon")]
mod python;
mod report;
mod resume;
mod script;
mod solvers;
mod stage1;
mod stage2;
mod trace;
mod vclock;

use report::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    if id == "C13-worker" {
        return ckpt::c13_worker(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] == "full", &a[5]);
    }
    let ctx = Ctx::new(&id, thorough);
    match id.as_str() {
        "C01" => stage2::c01(&ctx),
        "C02" => stage2::c02(&ctx),
        "C03" => stage2::c03(&ctx),
        "C04" => stage1::c04(&ctx),
        "C05" => stage2::c05(&ctx),
        "C06" => par::c06(&ctx),
        "C07" => par::c07(&ctx),
        "C08" => stage2::c08(&ctx),
        "C09" => stage2::c09(&ctx),
        "C10" => faults::c10(&ctx),
        "C11" => ckpt::c11(&ctx),
        "C12" => ckpt::c12(&ctx),
        "C13" => ckpt::c13(&ctx),
        "C14" => resume::c14(&ctx),
        "C15" => resume::c15(&ctx),
        "C16" => obs::c16(&ctx),
        "C17" => obs::c17(&ctx),
        "C18" => solvers::c18(&ctx),
        "C20" => api::c20(&ctx),
        "C21" => api::c21(&ctx),
        "C22" => api::c22(&ctx),
        #[cfg(feature = "rayon")]
        "C23" => python::c23(&ctx),
        "C24" => api::c24(&ctx),
        "C19" => stage1::c19(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    ctx.finish();
}
