#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;

mod codec;
mod gen;
mod kernel;
mod meter;
mod world_export;
mod world_forge;
mod world_hostile;
mod world_ids;
mod seals;
mod world_mpc;
mod world_chain;
mod world_report;
mod world_root;
mod world_scheme;
mod world_seal;
mod world_stream;
mod world_source;
mod refm;
mod runner;

use std::path::Path;

use runner::Check;

fn checks() -> Vec<&'static Check> {
    let mut v: Vec<&'static Check> = vec![];
    v.extend(world_mpc::CHECKS.iter());
    v.extend(world_export::CHECKS.iter());
    v.extend(world_forge::CHECKS.iter());
    v.extend(world_hostile::CHECKS.iter());
    v.extend(world_ids::CHECKS.iter());
    v.extend(world_ids::layout::CHECKS.iter());
    v.extend(world_source::CHECKS.iter());
    v.extend(world_chain::CHECKS.iter());
    v.extend(world_report::CHECKS.iter());
    v.extend(world_root::CHECKS.iter());
    v.extend(world_scheme::CHECKS.iter());
    v.extend(world_seal::CHECKS.iter());
    v.extend(world_stream::CHECKS.iter());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or_default();
    let find = |id: &str| -> &'static Check {
        checks().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let code = match arg(0) {
        "check" => runner::check(find(arg(1))),
        "batch" => runner::batch(
            find(arg(1)),
            arg(2).parse().expect("seed"),
            arg(3) == "true",
            arg(4).parse().expect("runs"),
            Path::new(arg(5)),
        ),
        "single" => runner::single(find(arg(1)), arg(2) == "true", arg(3), Path::new(arg(4))),
        "digest" => runner::digest(find(arg(1)), arg(2).parse().expect("seed"), arg(3).parse().expect("runs"), args.get(4).map(|a| a.parse().expect("workers")).unwrap_or(1)),
        "replay" => match runner::Replay::load(Path::new(arg(1))) {
            None => {
                eprintln!("cannot read {}", arg(1));
                2
            }
            Some(r) => {
                let code = runner::replay(find(&r.property), &r, Path::new(arg(1)));
                if code == 1 {
                    println!("VIOLATION property={} replay={}", r.property, arg(1));
                }
                code
            }
        },
        "list" => {
            for c in checks() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: csvsim check ID | replay FILE | digest ID SEED RUNS [WORKERS] | list");
            2
        }
    };
    std::process::exit(code)
}
