#![allow(dead_code)]
mod util; mod mem; mod x86; mod a64;
mod arm; mod ops; mod elf; mod guest; mod cpu; mod engine; mod lin; mod litmus; mod gen; mod runner;
mod rv;
mod s390; mod ppc; mod msp430; mod avr; mod configs; mod checks; mod selfcheck; mod memtest;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let vs: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let workers = std::env::var("PASIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let code = match cmd {
        "check" => match checks::check(a.get(2).map(|s| s.as_str()).unwrap_or("")) { Some(c) => runner::run_check(&c, tier, vs, workers), None => { eprintln!("no such property"); 2 } },
        "replay" => runner::replay(&|i| checks::check(i), a.get(2).map(|s| s.as_str()).unwrap_or(""), a.get(3).is_some()),
        "build" => {
            let (_, bad) = runner::build_all(&a[2..].iter().map(|n| configs::get(n)).collect::<Vec<_>>());
            for (_, e) in &bad { eprintln!("{e}"); }
            if bad.is_empty() { 0 } else { 2 }
        },
        "memtest" => (memtest::run(std::env::var("N").ok().and_then(|s| s.parse().ok()).unwrap_or(30_000), vs) != 0) as i32,
        "selftest" => {
            let n = std::env::var("N").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
            let names: Vec<String> = if a.len() > 2 { a[2..].to_vec() } else { configs::all().iter().map(|c| c.name.to_string()).collect() };
            (names.iter().map(|c| selfcheck::run(c, n, vs)).sum::<usize>() != 0) as i32
        }
        _ => { eprintln!("usage: pasim check ID | replay FILE [verbose] | build CFG... | selftest [CFG...] | memtest"); 2 }
    };
    std::process::exit(code);
}
