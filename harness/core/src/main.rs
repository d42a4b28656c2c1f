mod agenda;
mod common;
mod deriv;
mod equiv;
mod grammars;
mod rules;
mod searches;
mod gtext;
mod small;
mod treebank;
mod weighted;

fn main() {
    common::run_main(|sub, case, rec| match sub {
        "search" => searches::run(case, rec),
        "agenda" => agenda::run(case, rec),
        "uniqueheap" => small::uniqueheap(case, rec),
        "vecmm" => small::vecmm(case, rec),
        "partition" => small::partition(case, rec),
        "gorn" => small::gorn(case, rec),
        "dyck" => small::dyck(case, rec),
        "grammars" => grammars::run(case, rec),
        "treebank" => treebank::run(case, rec),
        "equiv" => equiv::run(case, rec),
        "weighted" => weighted::run(case, rec),
        "rules" => rules::run(case, rec),
        "deriv" => deriv::run(case, rec),
        "gtext" => gtext::run(case, rec),
        _ => panic!("HARNESS: unknown subcommand"),
    })
}
