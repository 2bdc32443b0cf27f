//! Runs simulations in child processes, searches over seeds, shrinks failures
//! and reports them.
use crate::plan::{self, Plan, Source};
use crate::report::{viol, Report};
use crate::rng::mix;
use crate::{host, scenario};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const CPU_LIMIT: u64 = 8;
pub const WALL_LIMIT_MS: u64 = 60_000;

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
static READER_PANIC: Mutex<Option<String>> = Mutex::new(None);
static OUT_FD: Mutex<i32> = Mutex::new(-1);

fn send_and_die(r: &Report) -> ! {
    let t = r.text();
    let fd = *OUT_FD.lock().unwrap_or_else(|e| e.into_inner());
    let b = t.as_bytes();
    let mut done = 0;
    unsafe {
        while done < b.len() {
            let k = libc::syscall(libc::SYS_write, fd, b[done..].as_ptr(), b.len() - done);
            if k <= 0 {
                break;
            }
            done += k as usize;
        }
        libc::_exit(0)
    }
}

fn on_exit(code: i32) -> ! {
    let r = scenario::exited(code);
    send_and_die(&finish(r))
}

fn finish(mut r: Report) -> Report {
    for fd in [1, 2] {
        let o = host::with(|h| h.stream(fd));
        r.notes.push(format!("output on {fd}: {} bytes, {:x}", o.len(), bytes_hash(&o)));
    }
    if r.viol.is_none() {
        if let Some(m) = READER_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone() {
            r.viol = Some(viol("input-thread-panic", &["C07", "C18"], m));
        }
    }
    host::with(|h| {
        for (k, v) in &h.faults_hit {
            r.add(&format!("fault:host-{k}"), *v);
        }
    });
    r
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if host::ON.load(Ordering::SeqCst) && host::MAIN_TID.load(Ordering::SeqCst) != unsafe { libc::syscall(libc::SYS_gettid) } {
            *READER_PANIC.lock().unwrap() = Some(format!("input thread panicked: {msg} at {loc}"));
            return;
        }
        if std::env::var_os("SIM_BACKTRACE").is_some() {
            let b = std::backtrace::Backtrace::force_capture().to_string();
            unsafe { libc::syscall(libc::SYS_write, 2, b.as_ptr(), b.len()) };
        }
        let mut g = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() {
            *g = Some((loc, msg));
        }
    }));
}

/// Everything a run does happens in here, in a process of its own.
fn child(src: Source, fd: i32) -> ! {
    *OUT_FD.lock().unwrap() = fd;
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::prctl(41 /* PR_SET_THP_DISABLE */, 1, 0, 0, 0);
        let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 1 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    install_panic_hook();
    host::RAND_ON.store(true, Ordering::SeqCst);
    host::set_exit_hook(on_exit);
    host::activate();
    let mut src = Some(src);
    host::enter_environment(|| {
        let src = src.take().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scenario::run(src)));
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                let (loc, msg) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
                scenario::panicked(&loc, &msg)
            }
        };
        send_and_die(&finish(r))
    });
    unreachable!()
}

pub fn bytes_hash(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w));
    }
    h
}

#[derive(Clone)]
pub struct Done {
    pub rep: Report,
    pub plan: Plan,
}

/// What runs in several environments in the determinism scenario.
pub const INNER: &[(&str, u64)] = &[
    ("boot", 4),
    ("uart", 4),
    ("fuzz", 4),
    ("htif", 3),
    ("irq", 2),
    ("timer", 1),
    ("atomic", 2),
    ("vm", 2),
    ("priv", 1),
    ("trap", 1),
    ("plic", 1),
    ("isa", 1),
    ("mem", 1),
    ("exc", 1),
    ("pmp", 1),
    ("trig", 1),
    ("show", 1),
];

/// What runs with the emulator's own log switched on.
pub const LOGGED: &[(&str, u64)] = &[
    ("isa", 2),
    ("vm", 2),
    ("exc", 2),
    ("priv", 2),
    ("trap", 1),
    ("irq", 2),
    ("atomic", 1),
    ("uart", 3),
    ("plic", 2),
    ("mem", 1),
    ("htif", 3),
    ("timer", 1),
];

pub fn inner(sc: &str) -> &'static [(&'static str, u64)] {
    if sc == "log" {
        LOGGED
    } else {
        INNER
    }
}

fn choose_inner(src: &mut Source) {
    let l = inner(&src.plan.scenario);
    let total: u64 = l.iter().map(|x| x.1).sum();
    let mut k = src.rng.u64() % total;
    let mut i = 0;
    while k >= l[i].1 {
        k -= l[i].1;
        i += 1;
    }
    src.plan.params.insert("det-inner".into(), i as u64);
}

/// The same machine with and without a log: what goes wrong only with it is
/// the log's doing.
fn exec_log(mut src: Source) -> Done {
    if !src.replay {
        choose_inner(&mut src);
        let l = [1, 2, 2, 3, 3, 3, 4, 4][src.rng.u64() as usize % 8];
        src.plan.params.insert("loglv".into(), l);
    }
    let mut d = exec1(src);
    let Some(v) = d.rep.viol.clone() else { return d };
    if v.class == "log-output" || v.class == "log-content" || v.class == "harness" {
        return d;
    }
    let mut p = d.plan.clone();
    p.params.insert("loglv".into(), 0);
    let e = exec1(Source::replay(p));
    if e.rep.viol.as_ref().map_or(false, |w| w.class == v.class) {
        return d;
    }
    let m = format!("only with the log: {}: {}", v.class, v.msg);
    d.rep.viol = Some(viol("log-level", &["C21"], m));
    d
}

fn exec_det(mut src: Source) -> Done {
    if !src.replay {
        choose_inner(&mut src);
        src.plan.params.insert("det-env1".into(), src.rng.u64() | 1);
        src.plan.params.insert("det-env2".into(), src.rng.u64() | 1);
        src.plan.params.insert("det-layout".into(), src.rng.u64() | 1);
    }
    let par = |p: &Plan, n: &str| p.params.get(n).copied().unwrap_or(0);
    host::ENV.store(0, Ordering::SeqCst);
    let mut d = exec1(src);
    let hung = |d: &Done| d.rep.viol.as_ref().map_or(false, |v| v.class == "hang" || v.class == "harness");
    for n in ["det-env1", "det-env2"] {
        let env = par(&d.plan, n);
        if env == 0 || hung(&d) {
            continue;
        }
        host::ENV.store(env, Ordering::SeqCst);
        let layout = if n == "det-env2" { par(&d.plan, "det-layout") } else { 0 };
        let e = exec_at(Source::replay(d.plan.clone()), layout);
        host::ENV.store(0, Ordering::SeqCst);
        if hung(&e) {
            continue;
        }
        d.rep.add("fault:other-environment", 1);
        if layout != 0 {
            d.rep.add("fault:other-load-address", 1);
        }
        let key = |d: &Done| {
            let mut v = d.rep.notes.clone();
            v.push(format!("end: {}", d.rep.viol.as_ref().map_or("normal".to_string(), |v| format!("{}: {}", v.class, v.msg))));
            v.push(format!("execution {:x}", d.rep.hash));
            v
        };
        let (a, b) = (key(&d), key(&e));
        if a != b {
            let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap();
            let g = |v: &[String]| v.get(i).cloned().unwrap_or("nothing".into());
            let m = format!("the same program and input gave different results in another host environment: \"{}\" and \"{}\"", g(&a), g(&b));
            d.rep.viol = Some(viol("environment", &["C17"], m));
            return d;
        }
    }
    d
}

/// Run one simulation, in one or more child processes.
pub fn exec(src: Source) -> Done {
    if src.plan.scenario == "det" {
        return exec_det(src);
    }
    if src.plan.scenario == "log" {
        return exec_log(src);
    }
    exec1(src)
}

/// Addresses are not left to the kernel's dice: start over without them.
pub fn fix_addresses() {
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now < 0 || now & libc::ADDR_NO_RANDOMIZE != 0 || libc::personality(now as u64 | libc::ADDR_NO_RANDOMIZE as u64) < 0 {
            return;
        }
        let a: Vec<std::ffi::CString> = std::env::args().map(|s| std::ffi::CString::new(s).unwrap()).collect();
        let mut p: Vec<*const libc::c_char> = a.iter().map(|c| c.as_ptr()).collect();
        p.push(std::ptr::null());
        libc::execv(c"/proc/self/exe".as_ptr(), p.as_ptr());
    }
}

/// Load this program at the place `layout` stands for and let it run the plan.
struct Elsewhere {
    argv: Vec<*const libc::c_char>,
    plan_fd: i32,
    stack: u64,
}

impl Elsewhere {
    const LOADER: &'static std::ffi::CStr = c"/lib64/ld-linux-x86-64.so.2";
    fn new(plan: &Plan, layout: u64, out: i32) -> Option<Elsewhere> {
        let now = unsafe { libc::personality(0xffff_ffff) };
        if now < 0 || now & libc::ADDR_NO_RANDOMIZE == 0 || !std::path::Path::new("/lib64/ld-linux-x86-64.so.2").exists() {
            return None;
        }
        let text = plan.text();
        let me = std::fs::read_link("/proc/self/exe").ok()?;
        let env = host::ENV.load(Ordering::SeqCst);
        unsafe {
            let f = libc::memfd_create(c"plan".as_ptr(), libc::MFD_CLOEXEC);
            if f < 0 {
                return None;
            }
            let n = libc::syscall(libc::SYS_pwrite64, f, text.as_ptr(), text.len(), 0);
            if n != text.len() as i64 {
                libc::syscall(libc::SYS_close, f);
                return None;
            }
            let a = ["ld.so".to_string(), me.to_str()?.into(), "inner".into(), f.to_string(), out.to_string(), format!("{env:x}")];
            let mut argv: Vec<*const libc::c_char> = a.iter().map(|s| std::ffi::CString::new(s.as_str()).unwrap().into_raw() as *const _).collect();
            argv.push(std::ptr::null());
            // the kernel leaves room for the stack above the first mapping
            let stack = (128 << 20) + ((1 + (layout >> 8) % 0x20_0000) << 12);
            Some(Elsewhere { argv, plan_fd: f, stack })
        }
    }
    /// in the child
    unsafe fn go(&self, out: i32) -> ! {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_STACK, &mut l);
        l.rlim_cur = self.stack.min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_STACK, &l);
        for f in [out, self.plan_fd] {
            libc::syscall(libc::SYS_fcntl, f, libc::F_SETFD, 0);
        }
        libc::execv(Self::LOADER.as_ptr(), self.argv.as_ptr());
        libc::_exit(99)
    }
}

impl Drop for Elsewhere {
    fn drop(&mut self) {
        unsafe { libc::syscall(libc::SYS_close, self.plan_fd) };
        for p in self.argv.iter().filter(|p| !p.is_null()) {
            drop(unsafe { std::ffi::CString::from_raw(*p as *mut libc::c_char) });
        }
    }
}

/// The process `Elsewhere` starts.
pub fn inner_process(plan_fd: i32, out: i32, env: u64) -> i32 {
    let mut text = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { libc::syscall(libc::SYS_pread64, plan_fd, buf.as_mut_ptr(), buf.len(), text.len()) };
        if n <= 0 {
            break;
        }
        text.extend_from_slice(&buf[..n as usize]);
    }
    unsafe {
        libc::syscall(libc::SYS_close, plan_fd);
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_STACK, &mut l);
        l.rlim_cur = 8 << 20;
        libc::setrlimit(libc::RLIMIT_STACK, &l);
    }
    let Some(p) = Plan::parse(&String::from_utf8_lossy(&text)) else { return 98 };
    host::ENV.store(env, Ordering::SeqCst);
    plan::journal_init(8 << 20);
    child(Source::replay(p), out)
}

fn exec1(src: Source) -> Done {
    exec_at(src, 0)
}

fn exec_at(src: Source, layout: u64) -> Done {
    let mut base = src.plan.clone();
    let replay = src.replay;
    plan::journal_reset();
    let mut fds = [0i32; 2];
    unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) };
    let place = if layout != 0 { Elsewhere::new(&base, layout, fds[1]) } else { None };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::syscall(libc::SYS_close, fds[0]) };
        if let Some(p) = &place {
            unsafe { p.go(fds[1]) };
        }
        child(src, fds[1]);
    }
    drop(place);
    if pid < 0 {
        panic!("HARNESS fork failed");
    }
    unsafe { libc::syscall(libc::SYS_close, fds[1]) };
    let start = Instant::now();
    let mut text = vec![];
    let mut buf = [0u8; 65536];
    let mut timed_out = false;
    loop {
        let left = WALL_LIMIT_MS.saturating_sub(start.elapsed().as_millis() as u64);
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let k = unsafe { libc::poll(&mut p, 1, left as i32) };
        if k == 0 {
            timed_out = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
        if k < 0 {
            continue;
        }
        let n = unsafe { libc::syscall(libc::SYS_read, fds[0], buf.as_mut_ptr(), buf.len()) };
        if n <= 0 {
            break;
        }
        text.extend_from_slice(&buf[..n as usize]);
    }
    unsafe { libc::syscall(libc::SYS_close, fds[0]) };
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if !replay {
        for l in plan::journal_text().lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "param" => {
                    if let Some((n, v)) = rest.split_once(' ') {
                        base.params.insert(n.into(), u64::from_str_radix(v, 16).unwrap_or(0));
                    }
                }
                "op" => {
                    if let Some(o) = plan::Op::parse(rest) {
                        base.ops.push(o)
                    }
                }
                _ => (),
            }
        }
    }
    let rep = match Report::parse(&String::from_utf8_lossy(&text)) {
        Some(r) => r,
        None => {
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
            let mut r = Report::default();
            r.viol = Some(if timed_out || sig == libc::SIGXCPU || sig == libc::SIGKILL {
                viol("hang", &["*", "C18"], "the emulator stopped making progress (time limit of the run reached)")
            } else {
                viol(&format!("crash-signal-{sig}"), &["*", "C18"], format!("the emulator process died (signal {sig}, status {st:#x})"))
            });
            r
        }
    };
    Done { rep, plan: base }
}

pub fn scenarios(prop: &str) -> Vec<(&'static str, u64)> {
    match prop {
        "C01" => vec![("isa", 8), ("irq", 1), ("vm", 1), ("exc", 1), ("trap", 1), ("atomic", 1), ("mem", 1)],
        "C02" => vec![("exc", 6), ("vm", 2), ("priv", 1), ("mem", 2), ("atomic", 1), ("trap", 1)],
        "C03" => vec![("trap", 5), ("irq", 2), ("priv", 2), ("exc", 1)],
        "C04" => vec![("irq", 6), ("plic", 1), ("timer", 1), ("trap", 1), ("uart", 1)],
        "C05" => vec![("timer", 6), ("irq", 2), ("mem", 1)],
        "C06" => vec![("plic", 6), ("irq", 2), ("uart", 1)],
        "C07" => vec![("uart", 5), ("uartbig", 1), ("htif", 2)],
        "C08" => vec![("uart", 4), ("htif", 2)],
        "C09" => vec![("uart", 6)],
        "C10" => vec![("atomic", 6), ("vm", 1), ("exc", 1)],
        "C11" => vec![("vm", 8), ("exc", 1), ("atomic", 1)],
        "C12" => vec![("priv", 6), ("exc", 1), ("trap", 1), ("vm", 1)],
        "C13" => vec![("mem", 6), ("exc", 1), ("vm", 1)],
        "C14" => vec![("htif", 1)],
        "C15" => vec![("htif", 1)],
        "C16" => vec![("htif", 3), ("isa", 1)],
        "C17" => vec![("det", 1)],
        "C18" => vec![("fuzz", 6), ("exc", 1), ("vm", 1), ("plic", 1), ("uart", 1), ("mem", 1)],
        "C19" => vec![("boot", 1)],
        "C20" => vec![("boot", 12), ("htif", 1)],
        "C21" => vec![("log", 1)],
        "C22" => vec![("trig", 1)],
        "C23" => vec![("pmp", 1)],
        "C24" => vec![("show", 1)],
        _ => vec![],
    }
}

fn pick_scenario(prop: &str, i: u64) -> &'static str {
    let s = scenarios(prop);
    let total: u64 = s.iter().map(|x| x.1).sum();
    let mut k = i % total;
    for (n, w) in &s {
        if k < *w {
            return n;
        }
        k -= w;
    }
    s[0].0
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| mix(h, b as u64))
}

fn relevant(r: &Report, prop: &str) -> bool {
    match &r.viol {
        None => false,
        Some(v) => v.props.iter().any(|p| p == prop || p == "*"),
    }
}

struct Shared(*mut AtomicU64);
impl Shared {
    fn new() -> Shared {
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
        };
        let s = Shared(p as *mut AtomicU64);
        s.get().store(u64::MAX, Ordering::SeqCst);
        s
    }
    fn get(&self) -> &AtomicU64 {
        unsafe { &*self.0 }
    }
}

pub struct Budget {
    pub runs: u64,
    pub secs: u64,
}

/// how many simulated runs a quick check makes
fn quick_runs(prop: &str) -> u64 {
    std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(match prop {
        "C05" | "C07" | "C17" => 7000,
        "C19" | "C20" => 24000,
        "C24" => 100000,
        "C21" => 7000,
        _ => 12000,
    })
}

pub fn budget(prop: &str, tier: &str) -> Budget {
    if tier == "thorough" {
        Budget { runs: u64::MAX / 2, secs: std::env::var("SIM_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(600) }
    } else {
        Budget { runs: quick_runs(prop), secs: 100 }
    }
}

fn worker(prop: &str, seed: u64, w: u64, nw: u64, b: &Budget, min: &Shared, out: &mut Vec<u8>) {
    plan::journal_init(8 << 20);
    let start = Instant::now();
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut add = |k: String, n: u64| *cnt.entry(k).or_insert(0) += n;
    let mut found: Vec<(u64, Plan, Report)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut i = w;
    while i < b.runs {
        if start.elapsed().as_secs() >= b.secs || i > min.get().load(Ordering::SeqCst) {
            break;
        }
        let sc = pick_scenario(prop, i);
        let s = mix(mix(seed, hash_str(prop)), i);
        let d = exec(Source::gen(sc, prop, s));
        add("runs".into(), 1);
        add(format!("runs:{sc}"), 1);
        for (k, v) in &d.rep.cnt {
            add(k.clone(), *v);
        }
        if d.rep.cnt.get("sim:instructions").copied().unwrap_or(1) > 20 || !d.plan.ops.is_empty() {
            add("nontrivial".into(), 1);
        }
        for g in &d.rep.sigs {
            if sigs.len() < 400_000 {
                sigs.insert(mix(*g, hash_str(sc)));
            }
        }
        if samples.len() < 2 && d.rep.viol.is_none() {
            let ops: Vec<String> = d.plan.ops.iter().skip(10).take(4).map(|o| o.text()).collect();
            samples.push(format!("{sc} seed {s:x}: {} ops, e.g. {}", d.plan.ops.len(), ops.join("; ")));
        }
        // one run in 61 is executed again: same seed, same execution
        if i % 61 == 7 && d.rep.viol.is_none() {
            let e = exec(Source::gen(sc, prop, s));
            add("reruns".into(), 1);
            if !same(&e.rep, "hang") && e.rep.text() != d.rep.text() {
                add("reruns-differing".into(), 1);
                if prop == "C17" {
                    let mut r = e.rep.clone();
                    r.viol = Some(viol("rerun-differs", &["C17"], "the same plan executed twice gave different results"));
                    found.push((i, d.plan.clone(), r));
                    min.get().fetch_min(i, Ordering::SeqCst);
                    break;
                }
            }
        }
        if let Some(v) = &d.rep.viol {
            // a time limit can also be met because the host is overloaded: it has to be met again
            let unsure = v.class == "hang" && !same(&exec(Source::replay(d.plan.clone())).rep, "hang");
            if unsure {
                add("unrepeated-timeouts".into(), 1);
                i += nw;
                continue;
            }
            if relevant(&d.rep, prop) {
                min.get().fetch_min(i, Ordering::SeqCst);
                found.push((i, d.plan, d.rep));
                break;
            }
            add("other-property-divergences".into(), 1);
            add(format!("other:{}", v.class), 1);
            if std::env::var_os("SIM_OTHERS").is_some() {
                eprintln!("{} {sc} {s:x}: {}", v.class, v.msg);
            }
        }
        i += nw;
    }
    let mut t = String::new();
    for (k, v) in &cnt {
        t.push_str(&format!("C {v} {k}\n"));
    }
    for g in &sigs {
        t.push_str(&format!("S {g:x}\n"));
    }
    for s in &samples {
        t.push_str(&format!("M {}\n", s.replace('\n', " ")));
    }
    for (i, p, r) in &found {
        t.push_str(&format!("F {i}\n"));
        for l in p.text().lines() {
            t.push_str(&format!("P {l}\n"));
        }
        for l in r.text().lines() {
            t.push_str(&format!("R {l}\n"));
        }
    }
    out.extend_from_slice(t.as_bytes());
}

fn same(r: &Report, class: &str) -> bool {
    r.viol.as_ref().map_or(false, |v| v.class == class)
}

fn shrink(plan: &Plan, prop: &str, class: &str, secs: u64) -> (Plan, u64) {
    let start = Instant::now();
    let mut best = plan.clone();
    let mut tries = 0;
    let mut test = |p: &Plan| {
        tries += 1;
        let d = exec(Source::replay(p.clone()));
        same(&d.rep, class) && relevant(&d.rep, prop)
    };
    let over = || start.elapsed().as_secs() >= secs;
    let mut n = 2usize;
    while !best.ops.is_empty() && !over() {
        let len = best.ops.len();
        let chunk = len.div_ceil(n).max(1);
        let mut reduced = false;
        // from the end: later operations are more often irrelevant
        let mut e = len;
        while e > 0 && !over() {
            let s = e.saturating_sub(chunk);
            let mut c = best.clone();
            c.ops.drain(s..e.min(c.ops.len()));
            if test(&c) {
                best = c;
                reduced = true;
            }
            e = s;
        }
        if chunk == 1 && !reduced {
            break;
        }
        if !reduced || chunk > 1 {
            n = (n * 2).min(best.ops.len().max(1));
        }
    }
    // simplify operands
    let mut k = 0;
    while k < best.ops.len() && !over() {
        let mut i = 0;
        while i < best.ops[k].a.len() && !over() {
            for v in [0u64, 1] {
                if best.ops[k].a[i] > v {
                    let mut c = best.clone();
                    c.ops[k].a[i] = v;
                    if test(&c) {
                        best = c;
                        break;
                    }
                }
            }
            i += 1;
        }
        while best.ops[k].b.len() > 1 && !over() {
            let mut c = best.clone();
            let h = c.ops[k].b.len() / 2;
            c.ops[k].b.truncate(h);
            if !test(&c) {
                break;
            }
            best = c;
        }
        k += 1;
    }
    (best, tries)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Where evidence and replay files go.
fn out_dir() -> String {
    std::env::var("SIM_OUT").unwrap_or_else(|_| "/verif/evidence".to_string())
}

struct Known {
    prop: String,
    class: String,
    needle: String,
    text: String,
}
fn known(prop: &str) -> Vec<Known> {
    let f = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    let mut v = vec![];
    for l in f.lines() {
        // known: property=C01 class=<class> match=<text of the violation> | description
        if let Some(r) = l.strip_prefix("known: property=") {
            let (p, r) = r.split_once(" class=").unwrap_or((r, ""));
            let (c, r) = r.split_once(" match=").unwrap_or((r, ""));
            let (m, d) = r.split_once(" | ").unwrap_or((r, ""));
            if p == prop {
                v.push(Known { prop: p.into(), class: c.into(), needle: m.into(), text: d.into() });
            }
        }
    }
    v
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    println!("carron-sim: property {prop}, tier {tier}, seed {seed}");
    let b = budget(prop, tier);
    let nw = 8u64;
    let min = Shared::new();
    let mut pids = vec![];
    for w in 0..nw {
        let fd = unsafe { libc::memfd_create(c"out".as_ptr(), 0) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let mut out = vec![];
            worker(prop, seed, w, nw, &b, &min, &mut out);
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            f.write_all(&out).ok();
            f.flush().ok();
            unsafe { libc::_exit(0) };
        }
        pids.push((pid, fd));
    }
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut samples = vec![];
    let mut found: Vec<(u64, Plan, Report)> = vec![];
    let mut harness = vec![];
    for (pid, fd) in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 {
            harness.push(format!("worker ended with status {st:#x}"));
        }
        use std::io::{Read, Seek, SeekFrom};
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        f.seek(SeekFrom::Start(0)).ok();
        let mut t = String::new();
        f.read_to_string(&mut t).ok();
        let mut cur: Option<(u64, String, String)> = None;
        let mut flush = |c: &mut Option<(u64, String, String)>| {
            if let Some((i, p, r)) = c.take() {
                if let (Some(p), Some(r)) = (Plan::parse(&p), Report::parse(&r)) {
                    found.push((i, p, r));
                }
            }
        };
        for l in t.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "C" => {
                    if let Some((n, name)) = rest.split_once(' ') {
                        *cnt.entry(name.into()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                    }
                }
                "S" => {
                    sigs.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                }
                "M" => samples.push(rest.to_string()),
                "F" => {
                    flush(&mut cur);
                    cur = Some((rest.parse().unwrap_or(0), String::new(), String::new()));
                }
                "P" => {
                    if let Some(c) = cur.as_mut() {
                        c.1.push_str(rest);
                        c.1.push('\n')
                    }
                }
                "R" => {
                    if let Some(c) = cur.as_mut() {
                        c.2.push_str(rest);
                        c.2.push('\n')
                    }
                }
                _ => (),
            }
        }
        flush(&mut cur);
    }
    found.sort_by_key(|f| f.0);
    let search_s = t0.elapsed().as_secs_f64();
    let runs = cnt.get("runs").copied().unwrap_or(0);
    if runs == 0 {
        harness.push("no run completed".into());
    }
    if prop != "C17" && cnt.get("reruns-differing").copied().unwrap_or(0) > 0 {
        println!("note: {} of {} repeated runs differed", cnt["reruns-differing"], cnt["reruns"]);
    }
    let mut exit = 0;
    let mut nviol = 0;
    plan::journal_init(8 << 20);
    for k in known(prop) {
        println!("KNOWN-FINDING: property={} {}", k.prop, k.text);
    }
    if let Some((i, p, r)) = found.first() {
        let v = r.viol.clone().unwrap();
        let kn = known(prop).into_iter().find(|k| k.class == v.class && v.msg.contains(&k.needle));
        if v.msg.contains("HARNESS") {
            harness.push(v.msg.clone());
        } else if kn.is_none() {
            println!("run {i} (seed {:x}): {}: {}", p.seed, v.class, v.msg);
            let again = exec(Source::replay(p.clone()));
            let mut fin = p.clone();
            if same(&again.rep, &v.class) {
                let (s, tries) = shrink(p, prop, &v.class, if tier == "quick" { 25 } else { 120 });
                println!("shrunk {} operations to {} in {tries} runs", p.ops.len(), s.ops.len());
                fin = s;
            }
            std::fs::create_dir_all(format!("{}/replay", out_dir())).ok();
            let path = format!("{}/replay/{prop}-{:x}.plan", out_dir(), p.seed);
            let d = exec(Source::replay(fin.clone()));
            let text = format!("{}# {}\n", fin.text(), d.rep.viol.as_ref().map(|v| format!("{}: {}", v.class, v.msg)).unwrap_or_default());
            std::fs::write(&path, text).ok();
            // a fresh process must see the same violation
            let me = std::env::current_exe().unwrap();
            let o = std::process::Command::new(me).arg("replay").arg(&path).output();
            let ok = o.as_ref().map(|o| o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains(&format!("class {}\n", v.class))).unwrap_or(false);
            if !ok {
                println!("note: the replay did not reproduce the violation in a fresh process");
            }
            if let Some(v) = d.rep.viol.as_ref() {
                println!("{}", v.msg);
            }
            println!("VIOLATION property={prop} replay={path}");
            nviol = 1;
            exit = 1;
        }
    }
    if exit == 0 && !harness.is_empty() {
        for h in &harness {
            println!("harness error: {h}");
        }
        exit = 3;
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let faults: Vec<String> = cnt.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(k, v)| format!("{}: {v}", js(&k[6..]))).collect();
    let per: Vec<String> = cnt.iter().filter(|(k, _)| k.starts_with("runs:")).map(|(k, v)| format!("{}: {v}", js(&k[5..]))).collect();
    let seen: Vec<String> = cnt.iter().filter(|(k, _)| k.starts_with("seen:")).map(|(k, v)| format!("{}: {v}", js(&k[5..]))).collect();
    let skip: Vec<String> = cnt.iter().filter(|(k, _)| k.starts_with("skip:")).map(|(k, v)| format!("{}: {v}", js(&k[5..]))).collect();
    let other: Vec<String> = cnt.iter().filter(|(k, _)| k.starts_with("other:")).map(|(k, v)| format!("{}: {v}", js(&k[6..]))).collect();
    let g = |k: &str| cnt.get(k).copied().unwrap_or(0);
    let e = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {runs}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"runs_per_hour\": {:.0}, \"runs_by_scenario\": {{{}}}, \"simulated_instructions\": {}, \"simulated_timer_ticks\": {}, \"simulated_timer_batches\": {}, \"simulated_serial_ticks\": {}, \"faults_injected\": {{{}}}, \"conditions_reached\": {{{}}}, \"not_executed_because_unspecified\": {{{}}}, \"other_property_divergences\": {{{}}}, \"repeated_runs\": {}, \"repeated_runs_differing\": {}, \"real_components\": [\"main and the command line parser\", \"ELF loader, kernel and ramdisk loading, boot ROM, device tree\", \"run loop: instruction batches, timer ticks, mailbox polling\", \"cpu: fetch, decoder, instruction execution, CSRs, traps and interrupts, MMU\", \"bus, DRAM, MROM, CLINT, PLIC, UART\", \"UART input thread\", \"HTIF front end and system-call proxy\", \"log macros\"], \"stubbed_components\": [\"host file system, standard streams, exit, clocks, sleep and randomness (libc interposition; every call answered by the simulated host)\", \"when input reaches the input thread's read(2)\", \"interrupt sources of the PLIC other than the UART (driven by the scheduler)\"]}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {nviol}}}\n",
        js(prop),
        js(tier),
        sigs.len(),
        js("distinct signatures: (instruction class or operation, outcome, privilege transition, translation, device) per executed step, per scenario"),
        samples.iter().take(6).map(|s| js(s)).collect::<Vec<_>>().join(", "),
        runs as f64 * 3600.0 / search_s.max(0.001),
        per.join(", "),
        g("sim:instructions"),
        g("sim:timer-ticks"),
        g("sim:batches"),
        g("sim:serial-ticks"),
        faults.join(", "),
        seen.join(", "),
        skip.join(", "),
        other.join(", "),
        g("reruns"),
        g("reruns-differing"),
        ["the reference models (sim/src/model.rs, dev.rs, htif.rs, fdt.rs, elf.rs) state the RISC-V manuals, device data sheets and the proxy protocol correctly", "behaviour is sampled by seeded search, not enumerated", "the simulated host answers as Linux would"]
            .iter()
            .map(|s| js(s))
            .collect::<Vec<_>>()
            .join(", "),
        wall
    );
    std::fs::create_dir_all(out_dir()).ok();
    if std::fs::write(format!("{}/{prop}.json", out_dir()), e).is_err() {
        println!("harness error: cannot write evidence");
        if exit == 0 {
            exit = 3;
        }
    }
    println!(
        "{runs} runs, {} instructions, {} distinct signatures, {:.1} s, {}",
        g("sim:instructions"),
        sigs.len(),
        wall,
        if exit == 0 { "held" } else { "NOT held" }
    );
    if !other.is_empty() {
        println!("divergences of other properties (not reported here): {}", other.join(", "));
    }
    exit
}

pub fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {path}: {e}");
            return 3;
        }
    };
    let p = match Plan::parse(&t) {
        Some(p) => p,
        None => {
            println!("{path} is not a replay file");
            return 3;
        }
    };
    plan::journal_init(8 << 20);
    let d = exec(Source::replay(p.clone()));
    match &d.rep.viol {
        Some(v) => {
            println!("class {}", v.class);
            println!("properties {}", v.props.join(","));
            println!("{}", v.msg);
            for n in &d.rep.notes {
                println!("{n}");
            }
            println!("VIOLATION property={} replay={path}", p.property);
            1
        }
        None => {
            println!("no violation; hash {:x}", d.rep.hash);
            0
        }
    }
}

/// Development aid: run seeds of one scenario and list violation classes.
pub fn survey(sc: &str, n: u64, seed: u64) -> i32 {
    plan::journal_init(8 << 20);
    let mut by: BTreeMap<String, (u64, u64, String, String)> = BTreeMap::new();
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let t = Instant::now();
    let mut ok = 0;
    let mut sigs = BTreeSet::new();
    for i in 0..n {
        let s = mix(seed, i);
        let d = exec(Source::gen(sc, "-", s));
        for (k, v) in &d.rep.cnt {
            *cnt.entry(k.clone()).or_insert(0) += v;
        }
        sigs.extend(d.rep.sigs.iter().copied());
        match d.rep.viol {
            None => ok += 1,
            Some(v) => {
                let e = by.entry(v.class.clone()).or_insert((0, s, v.msg.clone(), v.props.join(",")));
                e.0 += 1;
            }
        }
    }
    println!("{sc}: {ok}/{n} clean in {:.2} s, {} signatures", t.elapsed().as_secs_f64(), sigs.len());
    for (c, (k, s, m, p)) in &by {
        println!("  {k:5} {c} [{p}] seed {s:x}: {m}");
    }
    if std::env::var_os("SIM_COUNTS").is_some() {
        for (k, v) in &cnt {
            println!("    {v:10} {k}");
        }
    }
    0
}

/// Development aid: a few runs of every scenario; which properties noticed?
pub fn sweep(n: u64, seed: u64) -> i32 {
    plan::journal_init(8 << 20);
    let mut by: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut props: BTreeMap<String, u64> = BTreeMap::new();
    let all: Vec<&str> = INNER.iter().map(|x| x.0).chain(["uartbig", "det", "log"]).collect();
    for sc in all {
        let k = match sc {
            "boot" => n * 4,
            "uartbig" => n / 8,
            _ => n,
        };
        let mut bad = 0;
        for i in 0..k {
            if bad >= 4 {
                break;
            }
            let d = exec(Source::gen(sc, "-", mix(mix(seed, hash_str(sc)), i)));
            if let Some(v) = d.rep.viol {
                bad += if v.class == "hang" { 3 } else { 1 };
                for p in &v.props {
                    *props.entry(p.clone()).or_insert(0) += 1;
                }
                by.entry(format!("{sc}:{}[{}]", v.class, v.props.join(","))).or_insert((0, v.msg)).0 += 1;
            }
        }
    }
    println!("PROPS {}", props.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
    for (c, (k, m)) in &by {
        println!("  {k} {c}: {}", m.chars().take(160).collect::<String>());
    }
    0
}

pub fn one(sc: &str, seed: u64) -> i32 {
    plan::journal_init(8 << 20);
    let d = exec(Source::gen(sc, "-", seed));
    println!("{}", d.plan.text());
    println!("{}", d.rep.text());
    0
}
