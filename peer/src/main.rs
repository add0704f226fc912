//! One member of a fleet of differently built endpoints (C14): answers
//! requests, one JSON line each, exactly as the simulator's own build does.
#[path = "../../sim/src/job.rs"]
mod job;
#[path = "../../sim/src/model.rs"]
#[allow(dead_code)]
mod model;

use std::io::{BufRead, Write};

extern "C" {
    fn alarm(seconds: u32) -> u32;
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        let req: serde_json::Value = serde_json::from_str(&l).expect("request");
        // a request that never ends must not outlive the simulator
        unsafe { alarm(40) };
        let r = std::panic::catch_unwind(|| job::respond(&req)).unwrap_or_else(|_| serde_json::json!("panic"));
        unsafe { alarm(0) };
        let mut s = r.to_string();
        s.push('\n');
        if out.write_all(s.as_bytes()).and_then(|()| out.flush()).is_err() {
            return;
        }
    }
}
