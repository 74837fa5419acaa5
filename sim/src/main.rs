#![allow(dead_code, static_mut_refs)]
mod alloc;
mod corpus;
mod os;
mod plan;
mod props;
mod runner;
mod shop;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "worker" => {
            runner::worker();
            0
        }
        "check" => runner::check(arg(2), if arg(3).is_empty() { "quick" } else { arg(3) }),
        "corpus" => {
            runner::corpus(arg(2));
            0
        }
        "replay" => runner::replay(arg(2)),
        "one" => runner::one(arg(2), arg(3).parse().unwrap_or(1), arg(4) == "--trace"),
        _ => {
            eprintln!("usage: decysim check <property> [quick|thorough] | replay <file> | one <property> <seed> [--trace]");
            2
        }
    };
    std::process::exit(code);
}
