//! gifsim: deterministic simulation of the `gif` crate with fault injection.

mod alloc;
mod baton;
mod entropy;
mod gifgen;
mod gifparse;
mod lzw;
mod minimise;
mod orch;
mod panics;
mod props;
mod rec;
mod rng;
mod sim;
mod world;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    panics::install();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let code = match a.get(1).copied().unwrap_or("") {
        "check" => orch::check(a[2]),
        "worker" => orch::worker(&a[2..]),
        "replay" => orch::replay(a[2], true),
        "try" => orch::replay(a[2], false),
        "spool" => orch::spool(a[2], a[3].parse().unwrap_or(0), a[4]),
        "minimise" => orch::minimise_file(a[2], a[3]),
        "digests" => orch::digests(a[2], a[3].parse().unwrap_or(0), a[4].parse().unwrap_or(0), a[5].parse().unwrap_or(0)),
        "list" => {
            for p in props::ALL {
                println!("{} {}", p.id, p.rule);
            }
            0
        }
        other => {
            eprintln!("gifsim: unknown command {other:?}");
            2
        }
    };
    std::process::exit(code);
}
