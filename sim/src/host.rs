//! The simulated host. The harness binary defines the libc entry points the
//! emulator uses (read, write, open, exit, getrandom, ...), so the linker binds
//! the emulator's calls to these definitions; outside a simulated run they go
//! straight to the kernel.
#![allow(clippy::missing_safety_doc)]
use libc::{c_char, c_int, c_long, c_uint, c_void, off_t, size_t, ssize_t};
use std::collections::{BTreeMap, VecDeque};
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Errno(i32),
    Short(u64),
}

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub name: &'static str,
    pub fd: i32,
    pub a: [i64; 3],
    pub path: Vec<u8>,
    pub data: Vec<u8>,
    pub ret: i64,
    pub errno: i32,
    pub stat: Option<[u64; 13]>,
}

#[derive(Clone, Default)]
pub struct Node {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
    pub mode: u32,
    pub id: u64,
    pub dir: bool,
}

#[derive(Clone)]
pub struct OpenFile {
    pub node: usize,
    pub pos: u64,
    pub flags: i32,
}

#[derive(Default)]
pub struct Host {
    pub nodes: Vec<Node>,
    pub fds: BTreeMap<i32, OpenFile>,
    pub next_fd: i32,
    pub fault: Option<Fault>,
    pub calls: Vec<Call>,
    pub out: Vec<(i32, Vec<u8>)>,
    pub out_plan: VecDeque<Fault>,
    /// the emulator writes its log to descriptor 1: such calls are not recorded
    pub log: bool,
    pub faults_hit: BTreeMap<String, u64>,
    pub proxy_stdin: Vec<u8>,
    pub closed_std: [bool; 3],
    /// duplicates of the standard streams: which stream, and whether open
    pub alias: BTreeMap<i32, (i32, bool)>,
}

/// How a descriptor of standard stream k is recorded: STREAM + k.
pub const STREAM: i32 = 1 << 24;

impl Host {
    /// the standard stream an open descriptor stands for
    fn std_of(&self, fd: i32) -> Option<i32> {
        if (0..3).contains(&fd) && !self.closed_std[fd as usize] {
            return Some(fd);
        }
        self.alias.get(&fd).filter(|a| a.1).map(|a| a.0)
    }
    fn canon(&self, fd: i32) -> i32 {
        if (0..3).contains(&fd) {
            return STREAM + fd;
        }
        self.alias.get(&fd).map_or(fd, |a| STREAM + a.0)
    }
    /// the open descriptors, without the emulator's own 0, 1 and 2
    pub fn open_fds(&self) -> Vec<i32> {
        let mut v: Vec<i32> = self.fds.keys().copied().collect();
        if self.alias.is_empty() {
            v.extend((0..3).filter(|k| !self.closed_std[*k as usize]).map(|k| STREAM + k));
        }
        v.extend(self.alias.values().filter(|a| a.1).map(|a| STREAM + a.0));
        v
    }
    fn dup(&mut self, fd: i32) -> Result<i64, i32> {
        let n = self.next_fd;
        if let Some(k) = self.std_of(fd) {
            self.alias.insert(n, (k, true));
        } else {
            let f = self.fds.get(&fd).ok_or(libc::EBADF)?.clone();
            self.fds.insert(n, f);
        }
        self.next_fd += 3;
        Ok(n as i64)
    }
    /// bytes that reached the given standard stream
    pub fn stream(&self, fd: i32) -> Vec<u8> {
        let mut v = vec![];
        for (f, d) in &self.out {
            if *f == fd {
                v.extend_from_slice(d);
            }
        }
        v
    }
}

pub static ON: AtomicBool = AtomicBool::new(false);
pub static MAIN_TID: AtomicI64 = AtomicI64::new(0);
static HOST: Mutex<Option<Host>> = Mutex::new(None);
/// images served to open(2) under /sim-image/
static IMAGES: Mutex<BTreeMap<String, Image>> = Mutex::new(BTreeMap::new());
pub static RAND: AtomicU64 = AtomicU64::new(0);
pub static RAND_ON: AtomicBool = AtomicBool::new(false);
static ON_EXIT: Mutex<Option<fn(i32) -> !>> = Mutex::new(None);

#[derive(Clone, Default)]
pub struct Image {
    pub data: Vec<u8>,
    pub open_errno: i32,
    pub mmap_errno: i32,
    pub stat_errno: i32,
    pub read_errno: i32,
    /// pretend the file is shorter than it is (truncated under the loader)
    pub cut: Option<u64>,
}
static MMAP_FAIL: Mutex<BTreeMap<i32, i32>> = Mutex::new(BTreeMap::new());
/// descriptors of images, with the error reading them gives
static IMG_FDS: Mutex<BTreeMap<i32, i32>> = Mutex::new(BTreeMap::new());
fn image_fd(fd: i32) -> Option<i32> {
    IMG_FDS.lock().unwrap().get(&fd).copied()
}
static STAT_FAIL: Mutex<BTreeMap<i32, i32>> = Mutex::new(BTreeMap::new());

pub fn set_image(path: &str, img: Image) {
    IMAGES.lock().unwrap().insert(path.to_string(), img);
}
pub fn with<R>(f: impl FnOnce(&mut Host) -> R) -> R {
    let mut g = HOST.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(|| Host { next_fd: 700, ..Default::default() }))
}
pub fn activate() {
    MAIN_TID.store(gettid(), Ordering::SeqCst);
    with(|_| ());
    ON.store(true, Ordering::SeqCst);
}
pub fn deactivate() {
    ON.store(false, Ordering::SeqCst);
}
pub fn set_exit_hook(f: fn(i32) -> !) {
    *ON_EXIT.lock().unwrap() = Some(f);
}
fn gettid() -> i64 {
    unsafe { libc::syscall(libc::SYS_gettid) }
}
fn on() -> bool {
    ON.load(Ordering::SeqCst)
}
fn is_main() -> bool {
    MAIN_TID.load(Ordering::SeqCst) == gettid()
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

// ----------------------------------------------------- the rest of the world
/// Which host environment this run has: 0 is the plain one, any other number
/// seeds hash keys, clocks, address layout, thread delays and so on.
pub static ENV: AtomicU64 = AtomicU64::new(0);
static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);
static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
/// the harness itself is waiting and needs the true time
static TRUE_TIME: AtomicBool = AtomicBool::new(false);

fn env(k: u64) -> u64 {
    match ENV.load(Ordering::SeqCst) {
        0 => 0,
        e => crate::rng::mix(e, k),
    }
}
fn delay(k: u64, max_us: u64) {
    if ENV.load(Ordering::SeqCst) != 0 {
        let us = env(k) % max_us;
        let t = libc::timespec { tv_sec: 0, tv_nsec: us as i64 * 1000 };
        unsafe { libc::syscall(libc::SYS_nanosleep, &t, 0) };
    }
}

/// Give this process the environment ENV stands for.
pub fn enter_environment(mut f: impl FnMut()) {
    RAND.store(0x1234_5678 ^ env(1), Ordering::SeqCst);
    let e = ENV.load(Ordering::SeqCst);
    if e == 0 {
        return f();
    }
    unsafe {
        // other addresses for mappings, heap and stack
        for i in 0..1 + env(2) % 3 {
            let n = (1 + env(3 + i) % 0x4_0000) << 12;
            libc::syscall(libc::SYS_mmap, 0, n, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        }
        std::mem::forget(vec![1u8; 1 + env(8) as usize % 100_000]);
        std::mem::forget(vec![1u64; 1 + env(9) as usize % 64]);
        // processors, working directory, environment
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 && env(10) % 2 == 0 {
            let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
            if !cpus.is_empty() {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[env(11) as usize % cpus.len()], &mut one);
                libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
            }
        }
        libc::chdir(if env(12) % 2 == 0 { c"/".as_ptr() } else { c"/tmp".as_ptr() });
    }
    for (k, v) in [("TZ", "UTC-5"), ("LANG", "de_DE.UTF-8"), ("HOME", "/nowhere"), ("COLUMNS", "13"), ("RUST_LOG", "trace")] {
        if env(20 + k.len() as u64) % 2 == 0 {
            std::env::set_var(k, v);
        }
    }
    #[inline(never)]
    fn deeper(n: u64, f: &mut dyn FnMut()) {
        let mut pad = [0u8; 1264];
        pad[(n % 1000) as usize] = 1;
        std::hint::black_box(&mut pad);
        if n == 0 {
            f()
        } else {
            deeper(n - 1, f)
        }
        std::hint::black_box(&mut pad);
    }
    deeper(env(13) % 40, &mut f)
}

/// Nanoseconds on the simulated clock: it only moves when it is looked at or
/// slept on.
fn sim_clock() -> u64 {
    let c = CLOCK_CALLS.fetch_add(1, Ordering::SeqCst);
    let step = match env(1000 + c) {
        0 => 1000,
        r => match r >> 60 {
            0 => r % 40_000_000,
            1..=5 => r % 2_000_000,
            _ => r % 20_000,
        },
    };
    CLOCK_NS.fetch_add(step, Ordering::SeqCst) + step
}
fn sim_time(id: c_int) -> libc::timespec {
    let ns = sim_clock();
    let base = match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => 1_700_000_000 + env(14) % 800_000_000,
        _ => 1 + env(15) % 60,
    };
    libc::timespec { tv_sec: (base + ns / 1_000_000_000) as i64, tv_nsec: (ns % 1_000_000_000) as i64 }
}
fn simulated_time() -> bool {
    on() && is_main() && !TRUE_TIME.load(Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if simulated_time() {
        *t = sim_time(id);
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, t) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut c_void) -> c_int {
    if simulated_time() && !t.is_null() {
        let s = sim_time(libc::CLOCK_REALTIME);
        *t = libc::timeval { tv_sec: s.tv_sec, tv_usec: s.tv_nsec / 1000 };
        return 0;
    }
    libc::syscall(libc::SYS_gettimeofday, t, z) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut s = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut s);
    if !t.is_null() {
        *t = s.tv_sec;
    }
    s.tv_sec
}
unsafe fn sleep_for(t: *const libc::timespec) -> bool {
    if !on() || TRUE_TIME.load(Ordering::SeqCst) && is_main() {
        return false;
    }
    if is_main() {
        CLOCK_NS.fetch_add((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64, Ordering::SeqCst);
    }
    libc::syscall(libc::SYS_sched_yield);
    true
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if sleep_for(t) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, t, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if fl == 0 && sleep_for(t) {
        return 0;
    }
    match libc::syscall(libc::SYS_clock_nanosleep, id, fl, t, rem) {
        0 => 0,
        _ => *libc::__errno_location(),
    }
}

// ---------------------------------------------------------------- stdin seam
#[derive(Clone, Debug, PartialEq)]
pub enum In {
    Data(Vec<u8>),
    Errno(i32),
    Eof,
    /// every read from here on fails with this error (a terminal that hung up)
    Dead(i32),
}
struct StdinCtl {
    q: VecDeque<In>,
    waiting: bool,
    reader_started: bool,
    reader_alive: bool,
    entered: u64,
    eof: bool,
    dead: i32,
    eof_reads: u64,
}
static STDIN: Mutex<StdinCtl> = Mutex::new(StdinCtl {
    q: VecDeque::new(),
    waiting: false,
    reader_started: false,
    reader_alive: false,
    entered: 0,
    eof: false,
    dead: 0,
    eof_reads: 0,
});
static STDIN_CV: Condvar = Condvar::new();
pub static READER_TIMEOUTS: AtomicU64 = AtomicU64::new(0);

/// Wait until the reader thread is parked in read(2) with nothing to read, or
/// has ended. Returns whether it is still alive.
pub fn stdin_settle() -> bool {
    let mut g = STDIN.lock().unwrap();
    let mut spins = 0;
    loop {
        if !g.reader_started || !g.reader_alive {
            return false;
        }
        if g.waiting && g.q.is_empty() {
            return true;
        }
        TRUE_TIME.store(true, Ordering::SeqCst);
        let (ng, to) = STDIN_CV.wait_timeout(g, Duration::from_millis(500)).unwrap();
        TRUE_TIME.store(false, Ordering::SeqCst);
        g = ng;
        if to.timed_out() {
            spins += 1;
            if spins >= 2 {
                // the reader is neither reading nor gone (for example blocked
                // on something else): carry on without it
                READER_TIMEOUTS.fetch_add(1, Ordering::SeqCst);
                return true;
            }
        }
    }
}
/// Hand one event to the reader and wait until it has been digested.
pub fn stdin_release(ev: In) -> bool {
    {
        let mut g = STDIN.lock().unwrap();
        if !g.reader_alive {
            return false;
        }
        g.q.push_back(ev);
        STDIN_CV.notify_all();
    }
    stdin_settle();
    // an event nobody took (reader gone) is dropped
    let mut g = STDIN.lock().unwrap();
    if !g.reader_alive {
        g.q.clear();
    }
    true
}
/// Hand an event over without waiting (used to perturb host timing).
pub fn stdin_release_nowait(ev: In) {
    let mut g = STDIN.lock().unwrap();
    if g.reader_alive {
        g.q.push_back(ev);
        STDIN_CV.notify_all();
    }
}
/// the reader kept polling a stream that had ended
pub fn reader_spins() -> bool {
    STDIN.lock().unwrap().eof_reads >= 200
}
pub fn reader_alive() -> bool {
    STDIN.lock().unwrap().reader_alive
}

fn stdin_read(buf: *mut c_void, n: size_t) -> ssize_t {
    if HOST.lock().unwrap_or_else(|e| e.into_inner()).as_ref().is_some_and(|h| h.closed_std[0]) {
        set_errno(libc::EBADF);
        return -1;
    }
    let e = STDIN.lock().unwrap().entered;
    delay(100_000 + 2 * e, 200);
    let r = stdin_take(buf, n);
    delay(100_001 + 2 * e, 200);
    r
}
fn stdin_take(buf: *mut c_void, n: size_t) -> ssize_t {
    let mut g = STDIN.lock().unwrap();
    g.entered += 1;
    g.waiting = true;
    STDIN_CV.notify_all();
    loop {
        if g.eof {
            // end of file is permanent; a reader that keeps asking is parked
            g.eof_reads += 1;
            if g.eof_reads < 200 {
                g.waiting = false;
                if g.dead != 0 {
                    set_errno(g.dead);
                    return -1;
                }
                return 0;
            }
            g.q.clear();
            g = STDIN_CV.wait(g).unwrap();
            continue;
        }
        match g.q.pop_front() {
            None => g = STDIN_CV.wait(g).unwrap(),
            Some(In::Eof) => {
                g.waiting = false;
                g.eof = true;
                return 0;
            }
            Some(In::Errno(e)) => {
                g.waiting = false;
                set_errno(e);
                return -1;
            }
            Some(In::Dead(e)) => {
                g.waiting = false;
                g.eof = true;
                g.dead = e;
                set_errno(e);
                return -1;
            }
            Some(In::Data(mut d)) => {
                g.waiting = false;
                if d.is_empty() {
                    g.waiting = true;
                    continue;
                }
                let k = match env(200_000 + g.entered) {
                    0 => d.len().min(n),
                    r => d.len().min(n).min(1 + (r % d.len() as u64) as usize),
                };
                unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, k) };
                if k < d.len() {
                    d.drain(..k);
                    g.q.push_front(In::Data(d));
                }
                return k as ssize_t;
            }
        }
    }
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Start {
    f: StartFn,
    arg: *mut c_void,
}
extern "C" fn thread_wrap(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    delay(99_999, 3000);
    let r = (s.f)(s.arg);
    let mut g = STDIN.lock().unwrap();
    g.reader_alive = false;
    STDIN_CV.notify_all();
    r
}

unsafe fn next_sym(name: &CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        StartFn,
        *mut c_void,
    ) -> c_int;
    let real: F = std::mem::transmute(next_sym(c"pthread_create"));
    if on() {
        {
            let mut g = STDIN.lock().unwrap();
            g.reader_started = true;
            g.reader_alive = true;
        }
        let b = Box::into_raw(Box::new(Start { f, arg }));
        return real(t, attr, thread_wrap, b as *mut c_void);
    }
    real(t, attr, f, arg)
}

// ------------------------------------------------------------- host file seam
fn take_fault(h: &mut Host, what: &str) -> Fault {
    match h.fault.take() {
        Some(f) => {
            let k = match f {
                Fault::None => return f,
                Fault::Errno(e) => format!("{what}:errno{e}"),
                Fault::Short(_) => format!("{what}:short"),
            };
            *h.faults_hit.entry(k).or_insert(0) += 1;
            f
        }
        None => Fault::None,
    }
}
fn finish(h: &mut Host, mut c: Call, r: Result<i64, i32>) -> i64 {
    c.fd = h.canon(c.fd);
    match r {
        Ok(v) => c.ret = v,
        Err(e) => {
            c.ret = -1;
            c.errno = e;
        }
    }
    let (ret, e) = (c.ret, c.errno);
    h.calls.push(c);
    if ret == -1 {
        set_errno(e);
    }
    ret
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !on() {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    if let Some(e) = image_fd(fd) {
        if e != 0 {
            set_errno(e);
            return -1;
        }
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    if !is_main() {
        if fd == 0 {
            return stdin_read(buf, n);
        }
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    with(|h| {
        let mut c = Call { name: "read", fd, a: [n as i64, 0, 0], ..Default::default() };
        let r = match take_fault(h, "read") {
            Fault::Errno(e) => Err(e),
            f => {
                let lim = if let Fault::Short(k) = f { (k as usize).min(n) } else { n };
                sim_read(h, fd, None, lim)
            }
        };
        let r = r.map(|d| {
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
            c.data = d.clone();
            d.len() as i64
        });
        finish(h, c, r) as ssize_t
    })
}
fn sim_read(h: &mut Host, fd: i32, at: Option<i64>, lim: usize) -> Result<Vec<u8>, i32> {
    let std = h.std_of(fd);
    if std.is_some() && at.is_some() {
        return Err(libc::ESPIPE);
    }
    if std == Some(0) {
        let k = lim.min(h.proxy_stdin.len());
        return Ok(h.proxy_stdin.drain(..k).collect());
    }
    let f = h.fds.get_mut(&fd).ok_or(libc::EBADF)?;
    if f.flags & 3 == libc::O_WRONLY {
        return Err(libc::EBADF);
    }
    if h.nodes[f.node].dir {
        return Err(libc::EISDIR);
    }
    let pos = match at {
        Some(p) if p < 0 => return Err(libc::EINVAL),
        Some(p) => p as u64,
        None => f.pos,
    };
    let data = &h.nodes[f.node].data;
    let s = (pos as usize).min(data.len());
    let e = s.saturating_add(lim).min(data.len());
    let out = data[s..e].to_vec();
    if at.is_none() {
        f.pos = e.max(f.pos as usize) as u64;
    }
    Ok(out)
}
fn sim_write(h: &mut Host, fd: i32, at: Option<i64>, d: &[u8]) -> Result<i64, i32> {
    if let Some(k) = h.std_of(fd) {
        if at.is_some() {
            return Err(libc::ESPIPE);
        }
        if k > 0 {
            h.out.push((k, d.to_vec()));
            return Ok(d.len() as i64);
        }
    }
    let f = h.fds.get_mut(&fd).ok_or(libc::EBADF)?;
    if f.flags & 3 == libc::O_RDONLY {
        return Err(libc::EBADF);
    }
    let data = &mut h.nodes[f.node].data;
    let pos = match at {
        Some(p) if p < 0 => return Err(libc::EINVAL),
        Some(p) => p as u64,
        None if f.flags & libc::O_APPEND != 0 => data.len() as u64,
        None => f.pos,
    };
    if pos > 1 << 20 {
        return Err(libc::EFBIG);
    }
    let end = pos as usize + d.len();
    if data.len() < end {
        data.resize(end, 0);
    }
    data[pos as usize..end].copy_from_slice(d);
    if at.is_none() {
        f.pos = end as u64;
    }
    Ok(d.len() as i64)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !on() {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    let d = std::slice::from_raw_parts(buf as *const u8, n);
    if !is_main() {
        // e.g. a panic message of the reader thread
        return n as ssize_t;
    }
    with(|h| {
        let c = Call { name: "write", fd, a: [n as i64, 0, 0], data: d.to_vec(), ..Default::default() };
        let mut own = None;
        if h.log && fd == 1 {
            // a fault meant for the guest's call stays with that call
            own = Some((h.fault.take(), h.calls.len()));
        }
        let f = match h.out_plan.front().copied() {
            Some(f) if h.std_of(fd).is_some_and(|k| k > 0) && h.fault.is_none() => {
                h.out_plan.pop_front();
                h.fault = Some(f);
                take_fault(h, "stdout")
            }
            _ => take_fault(h, "write"),
        };
        let r = match f {
            Fault::Errno(e) => Err(e),
            Fault::Short(k) => sim_write(h, fd, None, &d[..(k as usize).min(n)]),
            Fault::None => sim_write(h, fd, None, d),
        };
        let v = finish(h, c, r) as ssize_t;
        if let Some((f, n)) = own {
            h.fault = f;
            h.calls.truncate(n);
        }
        v
    })
}

/// Vectored forms: the same single transfer, gathered or scattered.
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !on() {
        return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
    }
    let mut all = vec![];
    for v in std::slice::from_raw_parts(iov, n.max(0) as usize) {
        if v.iov_len > 0 {
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
    }
    write(fd, all.as_ptr() as *const c_void, all.len())
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !on() {
        return libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t;
    }
    let vs = std::slice::from_raw_parts(iov, n.max(0) as usize);
    let mut all = vec![0u8; vs.iter().map(|v| v.iov_len).sum()];
    let r = read(fd, all.as_mut_ptr() as *mut c_void, all.len());
    let mut at = 0;
    for v in vs {
        let k = v.iov_len.min((r.max(0) as usize).saturating_sub(at));
        std::ptr::copy_nonoverlapping(all[at..].as_ptr(), v.iov_base as *mut u8, k);
        at += k;
    }
    r
}

unsafe fn p_read(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if !on() || !is_main() || image_fd(fd) == Some(0) {
        return libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t;
    }
    with(|h| {
        let mut c = Call { name: "pread", fd, a: [n as i64, off, 0], ..Default::default() };
        let r = match take_fault(h, "pread") {
            Fault::Errno(e) => Err(e),
            f => {
                let lim = if let Fault::Short(k) = f { (k as usize).min(n) } else { n };
                sim_read(h, fd, Some(off), lim)
            }
        };
        let r = r.map(|d| {
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
            c.data = d.clone();
            d.len() as i64
        });
        finish(h, c, r) as ssize_t
    })
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    p_read(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    p_read(fd, buf, n, off)
}
unsafe fn p_write(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    if !on() || !is_main() {
        return libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    }
    let d = std::slice::from_raw_parts(buf as *const u8, n);
    with(|h| {
        let c = Call { name: "pwrite", fd, a: [n as i64, off, 0], data: d.to_vec(), ..Default::default() };
        let r = match take_fault(h, "pwrite") {
            Fault::Errno(e) => Err(e),
            Fault::Short(k) => sim_write(h, fd, Some(off), &d[..(k as usize).min(n)]),
            Fault::None => sim_write(h, fd, Some(off), d),
        };
        finish(h, c, r) as ssize_t
    })
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    p_write(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    p_write(fd, buf, n, off)
}

unsafe fn l_seek(fd: c_int, off: off_t, wh: c_int) -> off_t {
    if !on() || !is_main() || image_fd(fd).is_some() {
        return libc::syscall(libc::SYS_lseek, fd, off, wh);
    }
    with(|h| {
        let c = Call { name: "lseek", fd, a: [off, wh as i64, 0], ..Default::default() };
        let r = match take_fault(h, "lseek") {
            Fault::Errno(e) => Err(e),
            _ => {
                if h.std_of(fd).is_some() {
                    Err(libc::ESPIPE)
                } else {
                    match h.fds.get_mut(&fd) {
                        None => Err(libc::EBADF),
                        Some(f) => {
                            let base = match wh {
                                0 => Some(0),
                                1 => Some(f.pos as i64),
                                2 => Some(h.nodes[f.node].data.len() as i64),
                                _ => None,
                            };
                            match base.and_then(|b| b.checked_add(off)) {
                                Some(p) if p >= 0 => {
                                    f.pos = p as u64;
                                    Ok(p)
                                }
                                _ => Err(libc::EINVAL),
                            }
                        }
                    }
                }
            }
        };
        finish(h, c, r)
    })
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, wh: c_int) -> off_t {
    l_seek(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, wh: c_int) -> off_t {
    l_seek(fd, off, wh)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !on() || !is_main() || IMG_FDS.lock().unwrap().remove(&fd).is_some() {
        return libc::syscall(libc::SYS_close, fd) as c_int;
    }
    with(|h| {
        let c = Call { name: "close", fd, ..Default::default() };
        let r = match take_fault(h, "close") {
            Fault::Errno(e) => Err(e),
            _ => {
                if (0..3).contains(&fd) && !h.closed_std[fd as usize] {
                    h.closed_std[fd as usize] = true;
                    Ok(0)
                } else if h.std_of(fd).is_some() {
                    h.alias.get_mut(&fd).unwrap().1 = false;
                    Ok(0)
                } else if h.fds.remove(&fd).is_some() {
                    Ok(0)
                } else {
                    Err(libc::EBADF)
                }
            }
        };
        finish(h, c, r) as c_int
    })
}

unsafe fn dup_fd(fd: c_int) -> Option<c_int> {
    if !on() || !is_main() || image_fd(fd).is_some() {
        return None;
    }
    Some(with(|h| match h.dup(fd) {
        Ok(n) => n as c_int,
        Err(e) => {
            set_errno(e);
            -1
        }
    }))
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    dup_fd(fd).unwrap_or_else(|| libc::syscall(libc::SYS_dup, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        if let Some(r) = dup_fd(fd) {
            return r;
        }
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

unsafe fn open_at(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !on() || !is_main() {
        return libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int;
    }
    let p = CStr::from_ptr(path).to_bytes().to_vec();
    with(|h| {
        let c = Call {
            name: "openat",
            fd: dirfd,
            a: [flags as i64, mode as i64, 0],
            path: p.clone(),
            ..Default::default()
        };
        let r = match take_fault(h, "openat") {
            Fault::Errno(e) => Err(e),
            _ => resolve(h, dirfd, &p).and_then(|p| sim_open(h, &p, flags, mode)),
        };
        finish(h, c, r) as c_int
    })
}
/// The full path a directory descriptor and a name stand for.
fn resolve(h: &Host, dirfd: i32, p: &[u8]) -> Result<Vec<u8>, i32> {
    if p.is_empty() {
        return Err(libc::ENOENT);
    }
    if p[0] == b'/' || dirfd == libc::AT_FDCWD {
        return Ok(p.to_vec());
    }
    if h.std_of(dirfd).is_some() {
        return Err(libc::ENOTDIR);
    }
    let f = h.fds.get(&dirfd).ok_or(libc::EBADF)?;
    let n = &h.nodes[f.node];
    if !n.dir {
        return Err(libc::ENOTDIR);
    }
    let mut q = n.path.clone();
    q.push(b'/');
    q.extend_from_slice(p);
    Ok(q)
}
fn sim_open(h: &mut Host, p: &[u8], flags: i32, mode: u32) -> Result<i64, i32> {
    if p.is_empty() {
        return Err(libc::ENOENT);
    }
    let idx = h.nodes.iter().position(|n| n.path == p);
    let idx = match idx {
        Some(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            if h.nodes[i].dir && flags & 3 != libc::O_RDONLY {
                return Err(libc::EISDIR);
            }
            if !h.nodes[i].dir && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && flags & 3 != libc::O_RDONLY {
                h.nodes[i].data.clear();
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return Err(libc::ENOENT);
            }
            let id = h.nodes.len() as u64 + 1;
            h.nodes.push(Node { path: p.to_vec(), data: vec![], mode: mode & 0o777, id, dir: false });
            h.nodes.len() - 1
        }
    };
    let fd = h.next_fd;
    h.next_fd += 3; // never reused, so a stale number is always noticed
    h.fds.insert(fd, OpenFile { node: idx, pos: 0, flags });
    Ok(fd as i64)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: c_uint) -> c_int {
    open_at(d, p, f, m)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: c_uint) -> c_int {
    open_at(d, p, f, m)
}

unsafe fn open_image(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Ok(s) = CStr::from_ptr(path).to_str() {
        if s.starts_with("/sim-image/") {
            let g = IMAGES.lock().unwrap();
            let img = match g.get(s) {
                None => {
                    set_errno(libc::ENOENT);
                    return -1;
                }
                Some(i) => i,
            };
            if img.open_errno != 0 {
                set_errno(img.open_errno);
                return -1;
            }
            let fd = libc::syscall(libc::SYS_memfd_create, c"img".as_ptr(), 0) as c_int;
            let d = &img.data[..img.cut.map(|c| c as usize).unwrap_or(img.data.len()).min(img.data.len())];
            let mut done = 0;
            while done < d.len() {
                let k = libc::syscall(libc::SYS_write, fd, d[done..].as_ptr(), d.len() - done);
                if k <= 0 {
                    break;
                }
                done += k as usize;
            }
            libc::syscall(libc::SYS_lseek, fd, 0, 0);
            IMG_FDS.lock().unwrap().insert(fd, img.read_errno);
            if img.mmap_errno != 0 {
                MMAP_FAIL.lock().unwrap().insert(fd, img.mmap_errno);
            }
            if img.stat_errno != 0 {
                STAT_FAIL.lock().unwrap().insert(fd, img.stat_errno);
            }
            return fd;
        }
        if on() && is_main() && !["/proc/", "/sys/", "/usr/", "/lib", "/etc/", "/dev/"].iter().any(|p| s.starts_with(p)) {
            return open_at(libc::AT_FDCWD, path, flags, mode);
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: c_uint) -> c_int {
    open_image(p, f, m)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: c_uint) -> c_int {
    open_image(p, f, m)
}
unsafe fn mm(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void {
    if fd >= 0 {
        if let Some(e) = MMAP_FAIL.lock().unwrap().remove(&fd) {
            set_errno(e);
            return libc::MAP_FAILED;
        }
    }
    libc::syscall(libc::SYS_mmap, a, n, p, f, fd, o) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void {
    mm(a, n, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void {
    mm(a, n, p, f, fd, o)
}

unsafe fn fill_stat(st: *mut libc::stat, v: &[u64; 13]) {
    (*st).st_dev = v[0];
    (*st).st_ino = v[1];
    (*st).st_nlink = v[2];
    (*st).st_mode = v[3] as u32;
    (*st).st_uid = v[4] as u32;
    (*st).st_gid = v[5] as u32;
    (*st).st_rdev = v[6];
    (*st).st_size = v[7] as i64;
    (*st).st_blksize = v[8] as i64;
    (*st).st_blocks = v[9] as i64;
    (*st).st_atime = v[10] as i64;
    (*st).st_mtime = v[11] as i64;
    (*st).st_ctime = v[12] as i64;
}
fn node_stat(n: &Node) -> [u64; 13] {
    let i = n.id;
    // every field uses its whole width in some file
    let wide = |k: u64, small: u64| {
        let h = crate::rng::mix(i, k);
        match h & 7 {
            0 => crate::rng::mix(h, 1),
            1 => 1 << (h >> 8 & 63),
            2 => (1u64 << (h >> 8 & 63)).wrapping_sub(1),
            3 => (h >> 8 | 0x8000_0000) & 0xffff_ffff,
            4 => 0,
            _ => small,
        }
    };
    [
        wide(1, 0x1_0000 + i),
        wide(2, 0x5_0000_0000 + i * 7),
        wide(3, 1 + i % 3) & 0xffff_ffff,
        if n.dir { 0o040000u64 } else { 0o100000 } | (n.mode as u64 & 0o7777),
        wide(4, 1000 + i) & 0xffff_ffff,
        wide(5, 2000 + i) & 0xffff_ffff,
        wide(6, 0x300 + i),
        wide(7, n.data.len() as u64) & i64::MAX as u64,
        wide(8, 4096) & 0xffff_ffff,
        wide(9, n.data.len().div_ceil(512) as u64) & i64::MAX as u64,
        wide(10, 1_600_000_000 + i * 10),
        wide(11, 1_600_001_000 + i * 10),
        wide(12, 1_600_002_000 + i * 10),
    ]
}
fn fd_stat(h: &Host, fd: c_int) -> Result<[u64; 13], i32> {
    if let Some(k) = h.std_of(fd) {
        return Ok(node_stat(&Node { id: 90 + k as u64, mode: 0o620, ..Default::default() }));
    }
    h.fds.get(&fd).map(|f| node_stat(&h.nodes[f.node])).ok_or(libc::EBADF)
}
unsafe fn f_stat(fd: c_int, st: *mut libc::stat) -> c_int {
    if !on() || !is_main() || image_fd(fd).is_some() {
        if let Some(e) = STAT_FAIL.lock().unwrap().remove(&fd) {
            set_errno(e);
            return -1;
        }
        return libc::syscall(libc::SYS_fstat, fd, st) as c_int;
    }
    with(|h| {
        let mut c = Call { name: "fstat", fd, ..Default::default() };
        let r = match take_fault(h, "fstat") {
            Fault::Errno(e) => Err(e),
            _ => fd_stat(h, fd),
        };
        let r = r.map(|v| {
            fill_stat(st, &v);
            c.stat = Some(v);
            0
        });
        finish(h, c, r) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat) -> c_int {
    f_stat(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat) -> c_int {
    f_stat(fd, st)
}
unsafe fn f_statat(d: c_int, path: *const c_char, st: *mut libc::stat, fl: c_int) -> c_int {
    if !on() || !is_main() {
        return libc::syscall(libc::SYS_newfstatat, d, path, st, fl) as c_int;
    }
    let p = CStr::from_ptr(path).to_bytes().to_vec();
    with(|h| {
        let mut c = Call { name: "fstatat", fd: d, a: [fl as i64, 0, 0], path: p.clone(), ..Default::default() };
        let r = match take_fault(h, "fstatat") {
            Fault::Errno(e) => Err(e),
            _ if p.is_empty() && fl & libc::AT_EMPTY_PATH != 0 && d != libc::AT_FDCWD => fd_stat(h, d),
            _ => resolve(h, d, &p).and_then(|p| match h.nodes.iter().find(|n| n.path == p) {
                None => Err(libc::ENOENT),
                Some(n) => Ok(node_stat(n)),
            }),
        };
        let r = r.map(|v| {
            fill_stat(st, &v);
            c.stat = Some(v);
            0
        });
        finish(h, c, r) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut libc::stat, f: c_int) -> c_int {
    f_statat(d, p, st, f)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat, f: c_int) -> c_int {
    f_statat(d, p, st, f)
}

#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat) -> c_int {
    f_statat(libc::AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat) -> c_int {
    f_statat(libc::AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat) -> c_int {
    f_statat(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat) -> c_int {
    f_statat(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW)
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    if let Some(e) = STAT_FAIL.lock().unwrap().remove(&d) {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_statx, d, p, fl, mask, st) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if RAND_ON.load(Ordering::SeqCst) {
        let s = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for b in s.iter_mut() {
            let v = RAND.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::SeqCst);
            *b = (crate::rng::mix(v, 77) >> 24) as u8;
        }
        return n as ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, n, fl as c_long) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if on() && is_main() {
        let h = *ON_EXIT.lock().unwrap();
        if let Some(f) = h {
            f(code)
        }
    }
    type F = unsafe extern "C" fn(c_int) -> !;
    let real: F = std::mem::transmute(next_sym(c"exit"));
    real(code)
}
