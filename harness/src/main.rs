#[macro_use]
mod fw;
mod fri_checks;
mod gen;
mod ivc_checks;
mod digests;
mod entropy;
mod history_checks;
mod kzg_checks;
mod lattice;
mod nova_checks;
mod nova_model;
mod parser_checks;
mod plonk_checks;
mod plonk_model;
mod transcript_checks;

use std::path::Path;

fn check(id: &str) -> fw::Check {
    kzg_checks::check(id)
        .or_else(|| plonk_checks::check(id))
        .or_else(|| parser_checks::check(id))
        .or_else(|| fri_checks::check(id))
        .or_else(|| transcript_checks::check(id))
        .or_else(|| nova_checks::check(id))
        .or_else(|| ivc_checks::check(id))
        .or_else(|| history_checks::check(id))
        .unwrap_or_else(|| {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("run") => fw::run(check(&args[2])),
        Some("worker") => fw::worker(check(&args[2]), Path::new(&args[3])),
        Some("case") => fw::replay(check(&args[2]), Path::new(&args[3]), true),
        Some("replay") => {
            let file = Path::new(&args[2]);
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
            fw::replay(check(v["property"].as_str().unwrap()), file, false)
        }
        Some("emit") => emit(&args[2]),
        _ => {
            eprintln!("usage: zkp-verif run <ID> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}

/// Prints values another process compares with its own (freshness across processes).
fn emit(what: &str) -> i32 {
    for l in kzg_checks::emit(what) {
        println!("EMIT {l}");
    }
    0
}
