//! The scenarios a plan can name.
use crate::plan::Source;
use crate::report::{viol, Report};
use crate::{boot, lock, show};
use std::sync::Mutex;

static NAME: Mutex<String> = Mutex::new(String::new());

pub fn run(src: Source) -> Report {
    let mut sc = src.plan.scenario.clone();
    if sc == "det" || sc == "log" {
        let i = src.plan.params.get("det-inner").copied().unwrap_or(0) as usize;
        let l = crate::runner::inner(&sc);
        sc = l[i % l.len()].0.to_string();
    }
    *NAME.lock().unwrap() = sc.clone();
    match sc.as_str() {
        "boot" => boot::run(src),
        "show" => show::run(src),
        "fuzz" => lock::run(src, "fuzz", true),
        s => lock::run(src, s, false),
    }
}

pub fn name() -> String {
    NAME.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// The emulator called exit.
pub fn exited(code: i32) -> Report {
    if name() == "boot" {
        return boot::stopped(&format!("exit status {code}"));
    }
    if name() == "show" {
        let how = format!("exit status {code}");
        return show::ended(Some(how.as_str()).filter(|_| code != 0));
    }
    lock::exited(code)
}

/// The emulator (or the harness) panicked.
pub fn panicked(loc: &str, msg: &str) -> Report {
    if name() == "boot" && !msg.starts_with("HARNESS") {
        return boot::stopped(&format!("{msg} ({loc})"));
    }
    if name() == "show" && !loc.starts_with("src/") && !msg.starts_with("HARNESS") {
        return show::ended(Some(&format!("{msg} ({loc})")));
    }
    let mut r = lock::partial();
    let file = loc.rsplit("/src/").next().unwrap_or(loc);
    if loc.contains("/repo/") || !loc.contains("verif") && !loc.starts_with("src/") {
        let f = file.split(':').next().unwrap_or("");
        let last = r.notes.last().cloned().unwrap_or_default();
        r.viol = Some(viol(&format!("panic-{f}"), &["*", "C18"], format!("the emulator panicked at {loc}: {msg} ({last})")));
    } else {
        r.viol = Some(viol("harness", &["*"], format!("HARNESS panic at {loc}: {msg}")));
    }
    r
}
