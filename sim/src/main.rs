//! Deterministic simulation of the carron emulator. See /verif/DESIGN.md.
// libc entry points are defined on purpose (see host.rs); a variadic third
// argument arrives in the same register as a fixed one on this ABI
#![allow(unknown_lints)]
#![allow(invalid_runtime_symbol_definitions)]
#![allow(suspicious_runtime_symbol_definitions)]
mod boot;
mod cli;
mod dev;
mod elf;
mod fdt;
mod gen;
mod host;
mod htif;
mod lock;
mod mach;
mod model;
mod plan;
mod report;
mod rng;
mod runner;
mod scenario;
mod show;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |s: String| s.strip_prefix("0x").map_or(s.parse().unwrap_or(0), |h| u64::from_str_radix(h, 16).unwrap_or(0));
    if g(1) == "inner" {
        std::process::exit(runner::inner_process(num(g(2)) as i32, num(g(3)) as i32, num(format!("0x{}", g(4)))));
    }
    runner::fix_addresses();
    let code = match g(1).as_str() {
        "check" => {
            let tier = if g(3).is_empty() { "quick".to_string() } else { g(3) };
            runner::check(&g(2), &tier)
        }
        "replay" => runner::replay(&g(2)),
        "survey" => runner::survey(&g(2), num(g(3)), num(g(4))),
        "sweep" => runner::sweep(num(g(2)), num(g(3))),
        "one" => runner::one(&g(2), u64::from_str_radix(&g(3), 16).unwrap_or(0)),
        _ => {
            eprintln!("usage: carron-sim check <property> [quick|thorough] | replay <file>");
            2
        }
    };
    std::process::exit(code)
}
