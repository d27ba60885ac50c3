#![allow(non_snake_case, dead_code)]
mod aggregate;
mod badkeys;
mod ballot;
#[cfg(feature = "serial")]
mod builds;
mod cluster;
mod codec;
mod derive;
mod erase;
mod eavesdrop;
mod core;
mod honest;
mod kit;
mod malformed;
mod props;
mod range;
mod runner;
mod sched;
mod split;
mod shares;
mod store;
mod sys;
mod toy;
mod verify;
mod world;

#[global_allocator]
static MEMORY: erase::Memory = erase::Memory;

fn main() {
    core::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => runner::check(runner::find(&args[1])),
        Some("worker") => {
            // ample stack: workloads recurse nowhere deeply, but debug-free safety costs nothing
            let a = args[1..].to_vec();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || runner::worker(&a)).unwrap().join().unwrap_or(3)
        }
        Some("replay") => {
            let p = args[1].clone();
            let q = args.get(2).map(|s| s == "-q").unwrap_or(false);
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || runner::replay(&p, q)).unwrap().join().unwrap_or(3)
        }
        _ => {
            eprintln!("usage: dvesim check <property> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
