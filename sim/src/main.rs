//! Deterministic simulator for webrtc-sdp. See /verif/DESIGN.md.
mod alloc;
mod call;
mod ch;
mod dict;
mod check;
mod clock;
mod faults;
mod gen;
mod job;
mod model;
mod net;
mod one;
mod parts;
mod props;
mod refparse;
mod run;
mod sched;
mod shrink;
mod sink;
mod wild;

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    let num = |k: &str| -> Option<u64> { get(k).and_then(|v| v.parse().ok()) };
    let code = match args.get(1).map(String::as_str) {
        Some("check") => check::check(
            &get("--property").expect("--property"),
            num("--jobs"),
            num("--runs"),
        ),
        Some("worker") => {
            one::worker(
                &get("--property").expect("--property"),
                num("--seed").expect("--seed"),
                num("--from").expect("--from"),
                num("--to").expect("--to"),
                get("--hashes").is_some(),
            );
            0
        }
        Some("exec") => one::exec(get("--trace")),
        Some("replay") => check::replay(args.get(2).expect("replay FILE")),
        Some("selftest") => check::selftest(num("--seeds").unwrap_or(40), num("--runs").unwrap_or(40)),
        _ => {
            eprintln!("usage: sdpsim check --property Cxx | replay FILE | selftest");
            2
        }
    };
    std::process::exit(code);
}
