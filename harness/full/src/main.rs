#[path = "../../core/src/common.rs"]
mod common;
mod auttext;
mod autom;
mod csparse;
mod mdyck;
mod storages;
mod transitions;

fn main() {
    common::run_main(|sub, case, rec| match sub {
        "autom" => autom::run(case, rec),
        "auttext" => auttext::run(case, rec),
        "csparse" => csparse::run(case, rec),
        "mdyck" => mdyck::run(case, rec),
        "transitions" => transitions::run(case, rec),
        "storages" => storages::run(case, rec),
        _ => panic!("HARNESS: unknown subcommand"),
    })
}
