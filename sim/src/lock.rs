//! Lock-step run of the real emulator against the reference model.
use crate::cli;
use crate::dev::{self, Reg, Uart};
use crate::gen::{self, Gen};
use crate::host::{self, In};
use crate::htif::{self, Htif, Req};
use crate::mach;
use crate::model::{self, Cat, Io, Mem, Out, Pick, St};
use crate::plan::{Op, Source};
use crate::report::{viol, Report, Viol};
use crate::rng::mix;
use carron::sim::Observe;
use carron::Emulator;
use std::cell::RefCell;

pub const BASE: u64 = 0x8000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Diff {
    Pc,
    Prv,
    X(usize),
    Csr(&'static str),
    Tval,
    Mem(u64),
    Clock(String),
    Timer(&'static str),
    Uart(String),
    Out(String),
    Host(&'static str, &'static [&'static str], String),
}

pub struct Lock {
    pub prof: gen::Prof,
    pub src: Source,
    pub gen: Gen,
    pub st: St,
    pub mem: Mem,
    pub emu_dram: *mut u8,
    pub uart: Uart,
    pub flying: bool,
    pub free: u64,
    pub n: u64,
    pub max_n: u64,
    pub ticks: u64,
    pub tick_total: u64,
    pub since_tick_progress: u64,
    pub seen_out: usize,
    pub rep: Report,
    pub adopt: bool,
    pub last: String,
    pub dr_was: bool,
    pub sc_fail_streak: u64,
    pub overrun: bool,
    pub check_every: u64,
    pub htif: Htif,
    /// the hook ended the run
    pub stopped: bool,
    /// the command line asked for a log on standard output
    pub logging: bool,
    /// the level of the log, how many instructions the machine counted before
    /// the first, and how much of the output has been examined
    pub loglv: usize,
    pub log_base: u64,
    pub log_seen: usize,
    /// host descriptors or streams changed in this step
    calls: Vec<host::Call>,
}

/// The `diff` log is silent for this many instructions.
const LOG_FROM: u64 = 350_000_000;

#[cfg(not(carron_no_count))]
fn set_inst_count(n: u64) {
    *carron::log::INST_COUNT.lock().unwrap() = n;
}
#[cfg(carron_no_count)]
fn set_inst_count(_: u64) {}
const COUNTED: bool = cfg!(not(carron_no_count));

thread_local! {
    pub static CUR: RefCell<Option<Box<Lock>>> = const { RefCell::new(None) };
}

fn hook(emu: &mut Emulator) -> bool {
    CUR.with(|c| {
        let mut g = c.borrow_mut();
        let l = g.as_mut().unwrap();
        let stop = match l.step(emu) {
            Ok(stop) => stop,
            Err(v) => {
                l.rep.viol = Some(v);
                true
            }
        };
        l.stopped = stop;
        stop
    })
}

const CSRS: &[(&str, usize)] = &[
    ("mstatus", 0x300),
    ("medeleg", 0x302),
    ("mideleg", 0x303),
    ("mie", 0x304),
    ("mtvec", 0x305),
    ("mcounteren", 0x306),
    ("mscratch", 0x340),
    ("mepc", 0x341),
    ("mcause", 0x342),
    ("mtval", 0x343),
    ("ssip", 0x344),
    ("stvec", 0x105),
    ("scounteren", 0x106),
    ("sscratch", 0x140),
    ("sepc", 0x141),
    ("scause", 0x142),
    ("stval", 0x143),
    ("satp", 0x180),
    ("pmpcfg0", 0x3a0),
    ("pmpcfg1", 0x3a1),
    ("pmpcfg2", 0x3a2),
    ("pmpcfg3", 0x3a3),
    ("pmpaddr0", 0x3b0),
    ("pmpaddr1", 0x3b1),
    ("pmpaddr2", 0x3b2),
    ("pmpaddr3", 0x3b3),
    ("pmpaddr4", 0x3b4),
    ("pmpaddr5", 0x3b5),
    ("pmpaddr6", 0x3b6),
    ("pmpaddr7", 0x3b7),
    ("pmpaddr8", 0x3b8),
    ("pmpaddr9", 0x3b9),
    ("pmpaddr10", 0x3ba),
    ("pmpaddr11", 0x3bb),
    ("pmpaddr12", 0x3bc),
    ("pmpaddr13", 0x3bd),
    ("pmpaddr14", 0x3be),
    ("pmpaddr15", 0x3bf),
    ("tselect", 0x7a0),
    ("tdata1", 0x7a1),
    ("tdata2", 0x7a2),
];

fn want(s: &St, n: usize) -> (u64, u64) {
    match n {
        0x300 => {
            if s.rv64 {
                (s.mstatus | 0xa_0000_0000, model::MST | 0xf_0000_0000)
            } else {
                (s.mstatus, model::MST)
            }
        }
        0x302 => (s.medeleg, model::MEDELEG_OK),
        0x303 => (s.mideleg, model::MIRQ),
        0x304 => (s.mie, model::MIRQ),
        0x305 => (s.mtvec, u64::MAX),
        0x306 => (s.mcounteren, 7),
        0x340 => (s.mscratch, u64::MAX),
        0x341 => (s.mepc, u64::MAX),
        0x342 => (s.mcause, u64::MAX),
        0x343 => (s.mtval, u64::MAX),
        0x344 => ((s.ssip as u64) << 1, 2),
        0x105 => (s.stvec, u64::MAX),
        0x106 => (s.scounteren, 7),
        0x140 => (s.sscratch, u64::MAX),
        0x141 => (s.sepc, u64::MAX),
        0x142 => (s.scause, u64::MAX),
        0x143 => (s.stval, u64::MAX),
        0x180 => (s.satp, !(if s.rv64 { 0xffff << 44 } else { 0x1ff << 22 })),
        0x3a1 | 0x3a3 if s.rv64 => (0, 0),
        0x3a0..=0x3a3 => (s.pmp_reg(n), u64::MAX),
        0x3b0..=0x3bf => (s.pmpaddr[n & 15], u64::MAX),
        0x7a0 => (s.tsel as u64, u64::MAX),
        0x7a1 => s.t1_reg(),
        0x7a2 => (s.t2[s.tsel], u64::MAX),
        _ => (0, 0),
    }
}

pub fn read_state(emu: &mut Emulator, s: &mut St) {
    s.pc = emu.cpu.pc() & s.xm();
    s.prv = emu.cpu.privilege() as u8;
    for i in 0..32 {
        s.x[i] = emu.cpu.regs.read(Some(i)) & s.xm();
    }
    let c = |n: usize| emu.cpu.csr(n);
    s.mstatus = c(0x300) & model::MST;
    s.medeleg = c(0x302) & model::MEDELEG_OK;
    s.mideleg = c(0x303) & model::MIRQ;
    s.mie = c(0x304) & model::MIRQ;
    s.mtvec = c(0x305);
    s.mcounteren = c(0x306) & 7;
    s.mscratch = c(0x340);
    s.mepc = c(0x341);
    s.mcause = c(0x342);
    s.mtval = c(0x343);
    s.ssip = c(0x344) >> 1 & 1 == 1;
    s.stvec = c(0x105);
    s.scounteren = c(0x106) & 7;
    s.sscratch = c(0x140);
    s.sepc = c(0x141);
    s.scause = c(0x142);
    s.stval = c(0x143);
    s.satp = c(0x180);
    s.mtime = emu.cpu.bus.load64(dev::CLINT + 0xbff8).unwrap_or(0);
    s.mtimecmp = emu.cpu.bus.load64(dev::CLINT + 0x4000).unwrap_or(0);
}

pub fn run(mut src: Source, prof_name: &str, adopt: bool) -> Report {
    let prof = gen::profile(prof_name);
    let rv64 = src.param("rv64", |r| r.chance(3, 5) as u64) != 0;
    let max_n = src.param("iters", |r| gen::iterations(r, prof_name));
    let loglv = src.plan.params.get("loglv").copied().unwrap_or(0) as usize;
    let max_n = match loglv {
        0 => max_n,
        1 | 2 => max_n.min(21_000),
        _ => max_n.min(5_400),
    };
    let genv = src.param("gen", |r| r.u64());
    let proxy = if prof.proxy {
        src.param("proxy", |r| gen::proxy_layout(r))
    } else {
        0
    };
    let (tohost, fromhost, which) = gen::mailbox(proxy);
    let mut syms = vec![("_start", BASE)];
    if prof.proxy {
        gen::symbols(proxy, (tohost, fromhost, which), &mut syms);
    }
    let mut cmd = cli::Cmd { image: "/sim-image/guest".into(), ..Default::default() };
    let mut style = 0;
    if prof.proxy {
        style = proxy;
        gen::proxy_command(proxy, &mut cmd);
        gen::proxy_files(proxy);
    }
    let main_args = cmd.main_args();
    host::with(|h| h.log = loglv != 0);
    let log_base = match loglv {
        1 => LOG_FROM - src.param("logafter", |r| if r.chance(1, 3) { 0 } else { r.below(max_n + 1) }),
        _ => 0,
    };
    cmd.loglv = [None, Some("diff"), Some("info"), Some("debug"), Some("trace")][loglv % 5];
    style ^= loglv as u64 & 1;
    let mut image = mach::guest(rv64, BASE, &syms);
    image.sec_order = (proxy >> 40) % 8;
    let mut emu = mach::emulator(&image, &cmd, style);
    let rom = mach::rom_bytes(&mut emu);
    let rom_note = format!("boot memory {:x}", crate::runner::bytes_hash(&rom));
    let emu_dram = mach::find_dram(&mut emu, BASE).unwrap_or(std::ptr::null_mut());
    if emu_dram.is_null() {
        panic!("HARNESS cannot locate guest memory");
    }
    let shadow = if adopt { emu_dram } else { mach::shadow() };
    if !adopt {
        mach::copy_resident(emu_dram, shadow);
    }
    let mut st = St::new(rv64, BASE);
    read_state(&mut emu, &mut st);
    src.limit = 200_000;
    let prof_on = prof.proxy;
    let lock = Lock {
        gen: Gen::new(genv, &prof, adopt),
        prof,
        src,
        st,
        mem: Mem { base: BASE, dram: shadow, rom },
        emu_dram,
        uart: Uart::new(),
        flying: false,
        free: 0,
        n: 0,
        max_n,
        ticks: 0,
        tick_total: 0,
        since_tick_progress: 0,
        seen_out: 0,
        rep: Report { notes: vec![rom_note], ..Default::default() },
        adopt,
        last: String::new(),
        dr_was: false,
        sc_fail_streak: 0,
        overrun: false,
        check_every: 0,
        htif: Htif {
            tohost,
            fromhost,
            on: prof_on && which == 3,
            table: (0..3).map(|k| Some(host::STREAM + k)).collect(),
            args: main_args,
            pending: None,
            requests: 0,
        },
        stopped: false,
        calls: vec![],
        logging: loglv != 0,
        loglv,
        log_base,
        log_seen: host::with(|h| h.out.len()),
    };
    CUR.with(|c| *c.borrow_mut() = Some(Box::new(lock)));
    if loglv == 1 {
        set_inst_count(log_base);
    }
    host::with(|h| h.calls.clear());
    carron::sim::set_step_hook(Some(hook));
    emu.emulation();
    carron::sim::set_step_hook(None);
    let mut l = CUR.with(|c| c.borrow_mut().take().unwrap());
    if l.rep.viol.is_none() && !l.stopped {
        l.rep.viol = Some(viol("stopped", &["C16", "C18"], "the run loop ended though nothing asked it to"));
    }
    if l.rep.viol.is_none() {
        if let Err(v) = l.finish(&mut emu) {
            l.rep.viol = Some(v);
        }
    }
    if host::reader_spins() && l.rep.viol.is_none() {
        l.rep.viol = Some(viol("stdin-spin", &["C07", "C18"], "the input thread keeps polling a stream that has ended"));
    }
    l.rep.notes.insert(0, format!("{} steps, memory {:x}", l.n, mach::memory_hash(l.emu_dram)));
    let (n, t) = (l.n, l.tick_total);
    l.rep.add("sim:instructions", n);
    l.rep.add("sim:timer-ticks", t);
    let ticks = l.ticks;
    l.rep.add("sim:batches", ticks);
    std::mem::forget(emu);
    l.rep
}

/// The emulator called exit: right exactly when the instruction in flight asked
/// for it.
pub fn exited(code: i32) -> Report {
    let l = CUR.with(|c| match c.try_borrow_mut() {
        Ok(mut g) => g.take(),
        Err(_) => None,
    });
    let Some(mut l) = l else {
        let mut r = Report::default();
        r.viol = Some(viol("exit", &["C16", "C18"], format!("the emulator ended with status {code} before it ran anything")));
        return r;
    };
    l.rep.viol = l.judge_exit(code);
    let (n, t) = (l.n, l.tick_total);
    l.rep.add("sim:instructions", n);
    l.rep.add("sim:timer-ticks", t);
    l.rep.hash = mix(l.rep.hash, code as u64);
    l.rep
}

/// Report used when the run ended in a panic or an exit: what was counted so far.
pub fn partial() -> Report {
    CUR.with(|c| match c.try_borrow_mut() {
        Ok(mut g) => match g.take() {
            Some(mut l) => {
                let n = l.n;
                l.rep.add("sim:instructions", n);
                l.rep.msg_context(&l.last);
                l.rep
            }
            None => Report::default(),
        },
        Err(_) => Report::default(),
    })
}

impl Report {
    pub fn msg_context(&mut self, s: &str) {
        if !s.is_empty() {
            self.notes.push(format!("last: {s}"));
        }
    }
}

impl Lock {
    fn judge_exit(&mut self, code: i32) -> Option<Viol> {
        let mut p = Pick::default();
        let mut asked = None;
        while self.flying && self.htif.on {
            let o = model::step(&self.st, &self.mem, &mut p);
            if let Req::Exit(v) = self.htif.request(&self.mem, &o.writes) {
                asked = Some((v, o));
                break;
            }
            if !p.next() {
                break;
            }
        }
        let Some((v, o)) = asked else {
            return Some(viol(
                "exit",
                &["C16", "C18"],
                format!("the emulator ended with status {code} though nothing asked it to ({})", self.last),
            ));
        };
        self.rep.add("seen:exit-requests", 1);
        self.rep.sig(mix(0xe817, v & 0xff));
        if code as u64 & 0xff != v & 0xff {
            return Some(viol("exit-status", &["C16"], format!("the guest asked to exit with {v:#x}, the emulator ended with {code:#x}")));
        }
        let calls = host::with(|h| std::mem::take(&mut h.calls));
        if let Some(c) = calls.first() {
            return Some(viol("exit-host-call", &["C16", "C14"], format!("the host was asked {}({}) while exiting", c.name, c.fd)));
        }
        for (a, n, v) in &o.writes {
            self.mem.write(*a, *n, *v);
        }
        for i in 0..8 {
            let a = self.htif.tohost + i;
            let b = unsafe { *self.emu_dram.add((a - BASE) as usize) };
            self.mem.write(a, 1, b as u64);
        }
        if let Some(m) = self.check_out() {
            return Some(viol("exit-output", &["C16", "C08"], format!("at exit: {m}")));
        }
        if let Some(v) = self.check_logged() {
            return Some(v);
        }
        if let Some(o) = mach::compare_all(self.emu_dram, self.mem.dram) {
            return Some(viol("exit-memory", &["C16", "C14"], format!("at exit, memory at {:#x} is wrong", BASE + o as u64)));
        }
        None
    }

    fn step(&mut self, emu: &mut Emulator) -> Result<bool, Viol> {
        if self.flying {
            self.flying = false;
            self.n += 1;
            if self.adopt {
                self.adopt_step(emu);
            } else {
                let (pc, said) = (self.st.pc, self.uart.out.len());
                self.verify(emu)?;
                if self.logging {
                    self.check_log(pc, self.uart.out.len() != said)?;
                }
            }
        }
        if !self.adopt {
            self.clock(emu)?;
        } else {
            let m = emu.cpu.bus.load64(dev::CLINT + 0xbff8).unwrap_or(0);
            let d = m.wrapping_sub(self.st.mtime);
            if d > 0 && d < 1000 {
                self.ticks += 1;
                self.tick_total += d;
            }
            read_state(emu, &mut self.st);
        }
        if self.check_every > 0 && self.n % self.check_every == 0 {
            self.full_compare(emu)?;
        }
        loop {
            if self.n >= self.max_n {
                return Ok(true);
            }
            if self.free > 0 {
                self.free -= 1;
                return self.launch(emu, None);
            }
            let Lock { src, gen, st, mem, uart, prof, n, htif, .. } = self;
            let op = src.next(|r| gen.next(r, &gen::View { st, mem, uart, n: *n, htif }, prof));
            let Some(op) = op else { return Ok(true) };
            if let Some(r) = self.apply(emu, &op)? {
                return Ok(r);
            }
        }
    }

    fn poke(&mut self, emu: &mut Emulator, pa: u64, n: u64, v: u64) {
        if self.htif.on && pa < self.htif.tohost + 8 && self.htif.tohost < pa + n {
            return;
        }
        if dev::region(BASE, pa) != Reg::Dram || dev::region(BASE, pa + n - 1) != Reg::Dram {
            return;
        }
        for i in 0..n {
            emu.cpu.bus.store8(pa + i, v >> (8 * i) & 0xff).ok();
        }
        self.mem.write(pa, n, v);
    }

    /// Apply one operation; Some(stop) when it starts an iteration.
    fn apply(&mut self, emu: &mut Emulator, op: &Op) -> Result<Option<bool>, Viol> {
        let a = |i: usize| op.arg(i);
        match op.k.as_str() {
            "mb" => {
                for (i, b) in op.b.iter().enumerate() {
                    self.poke(emu, a(0) + i as u64, 1, *b as u64);
                }
            }
            "hf" => {
                self.htif.pending = Some(if a(0) == 0 { host::Fault::Errno(a(1) as i32) } else { host::Fault::Short(a(1)) });
            }
            "si" => host::with(|h| h.proxy_stdin.extend_from_slice(&op.b)),
            "r" => {
                let i = (a(0) & 31) as usize;
                if i != 0 {
                    emu.cpu.regs.write(Some(i), a(1) & self.st.xm());
                    self.st.x[i] = a(1) & self.st.xm();
                }
            }
            "m" => {
                let n = a(1).clamp(1, 8);
                self.poke(emu, a(0), n, a(2));
                self.rep.add("fault:memory-or-page-table-edit", 1);
            }
            "t" => {
                emu.cpu.bus.store64(dev::CLINT + 0xbff8, a(0)).ok();
                self.st.mtime = a(0);
                self.rep.add("fault:clock-jump", 1);
            }
            "tc" => {
                emu.cpu.bus.store64(dev::CLINT + 0x4000, a(0)).ok();
                self.st.mtimecmp = a(0);
                self.rep.add("fault:timer-compare-change", 1);
            }
            "ms" => {
                emu.cpu.bus.store32(dev::CLINT, a(0)).ok();
                self.st.msip = (a(0) & 1) as u32;
                self.st.msip_hi = a(0) > 1;
                self.rep.add("fault:software-interrupt", 1);
            }
            "irq" => {
                let id = a(0) as u32;
                if id != 1 {
                    emu.cpu.bus.plic.set_interrupt_level(id, a(1) as u32);
                    self.st.plic.set_level(id, a(1) != 0);
                    self.rep.add("fault:device-line-change", 1);
                }
            }
            "in" => {
                host::stdin_release(In::Data(op.b.clone()));
                self.uart.input(&op.b);
                self.rep.add("fault:input-chunk", 1);
            }
            "ineof" => {
                if a(0) != 0 {
                    host::stdin_release(In::Dead(a(0) as i32));
                    self.rep.add("fault:input-hangup", 1);
                } else {
                    host::stdin_release(In::Eof);
                    self.rep.add("fault:input-eof", 1);
                }
                self.uart.eof();
            }
            "ineio" => {
                host::stdin_release(In::Errno(a(0) as i32));
                self.rep.add("fault:input-errno", 1);
            }
            "ovr" => self.overrun = true,
            "of" => {
                let f = if a(0) == 0 { host::Fault::Errno(libc::EINTR) } else { host::Fault::Short(a(0)) };
                host::with(|h| h.out_plan.push_back(f));
                self.rep.add("fault:output-interrupted-or-short", 1);
            }
            "tick" => {
                emu.cpu.bus.uart.tick(&mut emu.cpu.bus.plic);
                self.rep.add("sim:serial-ticks", 1);
                if !self.adopt {
                    self.uart.tick();
                    self.observe_uart(emu)?;
                }
            }
            "g" => {
                if a(0) == 0 {
                    return Ok(None);
                }
                self.free = a(0) - 1;
                return self.launch(emu, None).map(Some);
            }
            "x" => return self.launch(emu, Some(a(0) as u32)).map(Some),
            _ => (),
        }
        Ok(None)
    }

    /// physical address of the halfword at va when it is in guest RAM
    fn code_pa(&self, va: u64) -> Option<u64> {
        let pa = self.st.tlb_ok(&self.mem, va & self.st.xm(), model::Acc::Fetch)?;
        (dev::region(BASE, pa) == Reg::Dram).then_some(pa)
    }

    fn launch(&mut self, emu: &mut Emulator, inst: Option<u32>) -> Result<bool, Viol> {
        if let Some(i) = inst {
            let pc = self.st.pc;
            if let Some(p) = self.code_pa(pc) {
                self.poke(emu, p, 2, i as u64 & 0xffff);
                if i & 3 == 3 {
                    let next = pc.wrapping_add(2) & self.st.xm();
                    if let Some(q) = self.code_pa(next) {
                        self.poke(emu, q, 2, i as u64 >> 16);
                        if next & 0xfff == 0 {
                            self.rep.add("seen:page-straddling-instruction", 1);
                            self.rep.add("seen:page-straddling-instruction-apart", (q != p + 2) as u64);
                        }
                    }
                }
            }
        }
        if self.adopt {
            return self.launch_adopt();
        }
        // never execute what the specification leaves open
        for round in 0..2 {
            let mut p = Pick::default();
            let mut o = model::step(&self.st, &self.mem, &mut p);
            let looped = self.uart.mcr & 0x10 != 0 && !self.uart.dlab();
            if matches!(o.io, Some(Io::UartStore { off: 0, .. })) && looped && self.uart.max_queue() >= 16 && !self.overrun {
                o.unspec = Some("loopback overrun");
            }
            if self.htif.on {
                let mut r = self.htif.request(&self.mem, &o.writes);
                let first = r.clone();
                while !matches!(r, Req::Bad(_)) && p.next() {
                    let o = model::step(&self.st, &self.mem, &mut p);
                    r = self.htif.request(&self.mem, &o.writes);
                }
                if let Req::Bad(w) = r {
                    o.unspec = Some(w);
                } else if self.htif.faultable(&first) {
                    let f = self.htif.pending.take();
                    host::with(|h| h.fault = f);
                }
            }
            match o.unspec {
                None => break,
                Some(w) => {
                    self.rep.add(&format!("skip:{w}"), 1);
                    match self.code_pa(self.st.pc) {
                        Some(pa) if round == 0 => self.poke(emu, pa, 2, 1),
                        _ => return Ok(true),
                    }
                }
            }
        }
        self.flying = true;
        Ok(false)
    }

    fn launch_adopt(&mut self) -> Result<bool, Viol> {
        let pc = self.st.pc;
        self.last = format!("pc={pc:#x} prv={}", self.st.prv);
        self.flying = true;
        Ok(false)
    }

    fn adopt_step(&mut self, emu: &mut Emulator) {
        let (ppc, pprv) = (self.st.pc, self.st.prv);
        read_state(emu, &mut self.st);
        let trapped = if self.st.prv == 3 { self.st.mcause } else { self.st.scause };
        self.rep.sig(mix(mix(pprv as u64, self.st.prv as u64), trapped & 0xffff));
        self.rep.hash = self.st.x.iter().fold(mix(mix(self.rep.hash, self.st.pc), self.st.mstatus), |h, v| mix(h, *v));
        self.gen.progress(ppc != self.st.pc);
    }

    fn observe_uart(&mut self, emu: &mut Emulator) -> Result<(), Viol> {
        let lsr = emu.cpu.bus.load_u8(dev::UART + 5);
        let dr = match lsr {
            Ok(v) => v & 1 != 0,
            Err(_) => return Ok(()),
        };
        if !self.uart.observe_dr(dr) {
            let q = self.uart.describe_rx();
            return Err(viol(
                "serial-data-ready",
                &["C09", "C07"],
                format!("data-ready is {} but the receive queue can only be {q}", dr as u8),
            ));
        }
        if dr != self.dr_was {
            self.dr_was = dr;
        }
        let line = self.uart.line(dr);
        self.st.plic.set_level(1, line);
        Ok(())
    }

    /// Notice a timer batch between iterations.
    fn clock(&mut self, emu: &mut Emulator) -> Result<(), Viol> {
        let m = emu.cpu.bus.load64(dev::CLINT + 0xbff8).unwrap_or(0);
        let d = m.wrapping_sub(self.st.mtime);
        if d != 0 {
            if d > 50 {
                return Err(viol(
                    "clock",
                    &["C05"],
                    format!("machine time went from {:#x} to {m:#x} with no guest write", self.st.mtime),
                ));
            }
            self.ticks += 1;
            self.tick_total += d;
            self.st.mtime = m;
            if let Some(r) = self.st.resv.as_mut() {
                r.shaky = true;
            }
            self.uart.tick();
            self.rep.add("sim:serial-ticks", 1);
        }
        if self.tick_total > self.n / 100 || self.tick_total + 50 < self.n / 100 {
            return Err(viol(
                "clock-rate",
                &["C05"],
                format!("{} ticks of machine time after {} instructions", self.tick_total, self.n),
            ));
        }
        self.observe_uart(emu)
    }

    fn check_out(&mut self) -> Option<String> {
        if self.logging {
            return None;
        }
        let got = host::with(|h| h.stream(1));
        if got.len() < self.seen_out {
            return Some("output shrank".into());
        }
        self.seen_out = got.len();
        if got != self.uart.out {
            let k = got.iter().zip(&self.uart.out).take_while(|(a, b)| a == b).count();
            return Some(format!(
                "standard output differs at byte {k}: got {:02x?}, the guest sent {:02x?}",
                &got[k..got.len().min(k + 6)],
                &self.uart.out[k..self.uart.out.len().min(k + 6)]
            ));
        }
        None
    }

    /// What the log says about the instruction that was just executed.
    fn check_log(&mut self, pc: u64, guest_spoke: bool) -> Result<(), Viol> {
        let (text, len) = host::with(|h| {
            let mut v = vec![];
            for (f, d) in &h.out[self.log_seen..] {
                if *f == 1 {
                    v.extend_from_slice(d);
                }
            }
            (v, h.out.len())
        });
        self.log_seen = len;
        // bytes of the guest may stand anywhere in the text
        if guest_spoke {
            return Ok(());
        }
        let text = String::from_utf8_lossy(&text).into_owned();
        let bad = |m: String| Err(viol("log-content", &["C21"], format!("step {}, instruction at {pc:#x}: {m}", self.n)));
        let num = |t: &str| u64::from_str_radix(&t[..t.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(t.len())], 16).ok();
        let mask = if self.st.rv64 { !0u64 } else { 0xffff_ffff };
        if self.loglv > 1 {
            for l in text.lines().filter_map(|l| l.strip_prefix("pc: 0x")) {
                if num(l).map_or(false, |v| v & mask != pc & mask) {
                    return bad(format!("the log names it {}", &l[..l.len().min(16)]));
                }
            }
            return Ok(());
        }
        if !COUNTED {
            return Ok(());
        }
        let v: Vec<u64> = text.split("0x").skip(1).filter_map(num).collect();
        if self.log_base + self.n <= LOG_FROM {
            if !text.is_empty() {
                return bad(format!("{} bytes were logged before the log was to begin", text.len()));
            }
            return Ok(());
        }
        self.rep.add("seen:logged-states", 1);
        if v.len() != 33 {
            return bad(format!("the log holds {} numbers instead of its address and 32 registers", v.len()));
        }
        if v[0] & mask != pc & mask {
            return bad(format!("the log gives the address {:#x}", v[0]));
        }
        for i in 0..32 {
            if v[i + 1] & mask != self.st.x[i] & mask {
                return bad(format!("the log gives register {i} as {:#x}, it is {:#x}", v[i + 1], self.st.x[i]));
            }
        }
        Ok(())
    }

    /// With a log on the same stream: what the guest sent is there, in order,
    /// and bytes no text can hold come from the guest alone.
    fn check_logged(&self) -> Option<Viol> {
        if !self.logging {
            return None;
        }
        let got = host::with(|h| h.stream(1));
        let mut k = 0;
        for b in &got {
            if self.uart.out.get(k) == Some(b) {
                k += 1;
            }
        }
        if k < self.uart.out.len() {
            let m = format!("byte {k} of the {} the guest sent is not among the log's {} bytes in its place", self.uart.out.len(), got.len());
            return Some(viol("log-output", &["C21"], m));
        }
        let raw = |v: &[u8]| -> Vec<u8> { v.iter().copied().filter(|b| matches!(b, 0..=6 | 14..=26 | 0xc0 | 0xc1 | 0xf5..=0xff)).collect() };
        let (a, b) = (raw(&got), raw(&self.uart.out));
        if a != b {
            let m = format!("the output holds {} bytes that are not text, the guest sent {}", a.len(), b.len());
            return Some(viol("log-output", &["C21"], m));
        }
        None
    }

    fn compare(&self, emu: &mut Emulator, pre: &St, o: &mut Out, uart: &mut Option<Uart>, fx: &mut htif::Fx) -> Vec<Diff> {
        let mut d = vec![];
        self.compare_host(o, fx, &mut d);
        let xm = o.st.xm();
        let pc = emu.cpu.pc();
        if pc & xm != o.st.pc & xm {
            d.push(Diff::Pc);
        }
        if emu.cpu.privilege() as u8 != o.st.prv {
            d.push(Diff::Prv);
        }
        for i in 0..32 {
            let v = emu.cpu.regs.read(Some(i));
            if let Some((r, m)) = o.adopt_rd {
                if r == i && i != 0 {
                    if v & m != o.st.x[i] & m {
                        d.push(Diff::X(i));
                    }
                    if o.atomic_note == "sc-fail" && v == 0 {
                        d.push(Diff::X(i));
                    }
                    o.st.x[i] = v & xm;
                    continue;
                }
            }
            if v != o.st.x[i] {
                d.push(Diff::X(i));
            }
        }
        for (name, n) in CSRS {
            let v = emu.cpu.csr(*n);
            if *n == 0x300 {
                if o.adopt_mpp {
                    let m = v & model::MPP;
                    if m == 2 << 11 {
                        d.push(Diff::Csr(name));
                    }
                    o.st.mstatus = o.st.mstatus & !model::MPP | m;
                }
                if o.adopt_mprv {
                    o.st.mstatus = o.st.mstatus & !model::MPRV | v & model::MPRV & pre.mstatus;
                }
            }
            let (w, m) = want(&o.st, *n);
            let m = m & xm;
            if v & m != w & m {
                let tv = match (*name, o.trap) {
                    ("mtval", Some(_)) => o.st.prv == 3,
                    ("stval", Some(_)) => o.st.prv == 1,
                    _ => false,
                };
                if tv {
                    match &o.tval_ok {
                        None => (),
                        Some(ok) if ok.contains(&(v & xm)) => (),
                        _ => d.push(Diff::Tval),
                    }
                    if *n == 0x343 {
                        o.st.mtval = v
                    } else {
                        o.st.stval = v
                    }
                } else {
                    d.push(Diff::Csr(name));
                }
            }
        }
        if o.st.prv != emu.cpu.privilege() as u8 && !d.contains(&Diff::Prv) {
            d.push(Diff::Prv);
        }
        // timer registers: the clock itself is compared with batches in mind
        if emu.cpu.bus.load64(dev::CLINT + 0x4000).ok() != Some(o.st.mtimecmp) {
            d.push(Diff::Timer("mtimecmp"));
        }
        if emu.cpu.bus.load32(dev::CLINT).ok().map(|v| v as u32 & 1) != Some(o.st.msip) {
            d.push(Diff::Timer("msip"));
        }
        let dm = emu.cpu.bus.load64(dev::CLINT + 0xbff8).unwrap_or(0).wrapping_sub(o.st.mtime);
        if dm > 50 {
            d.push(Diff::Clock(format!("machine time is {:#x}, expected {:#x}", o.st.mtime.wrapping_add(dm), o.st.mtime)));
        }
        // memory around the access
        let mut near = vec![];
        if let Some(pa) = o.pa {
            near.push(pa);
        }
        for (pa, _, _) in &o.writes {
            near.push(*pa);
        }
        near.dedup();
        for pa in near {
            if dev::region(BASE, pa) != Reg::Dram {
                continue;
            }
            let s = pa.saturating_sub(16).max(BASE);
            let e = (pa + 24).min(BASE + dev::DRAM_SIZE);
            for q in s..e {
                let mut w = self.mem.byte(q);
                for (a, n, v) in &o.writes {
                    if q >= *a && q < *a + *n {
                        w = (v >> (8 * (q - a))) as u8;
                    }
                }
                if let Some(b) = fx.bytes.get(&q) {
                    w = *b;
                }
                if unsafe { *self.emu_dram.add((q - BASE) as usize) } != w {
                    d.push(Diff::Mem(q));
                    break;
                }
            }
        }
        // serial port
        match &o.io {
            None => (),
            Some(Io::UartLoad { off, rd, signed }) => {
                let mut u = self.uart.clone();
                if *rd == 0 {
                    // the byte is taken though nobody sees it
                    if *off == 0 && !u.dlab() {
                        u.observe_read(None);
                    }
                    *uart = Some(u);
                    return d;
                }
                let raw = emu.cpu.regs.read(Some(*rd));
                let b = raw as u8;
                let ext = if *signed { b as i8 as i64 as u64 & xm } else { b as u64 };
                if raw != ext {
                    d.push(Diff::Uart(format!("serial register byte extended to {raw:#x}")));
                }
                if *off < 8 {
                    if let Err(e) = u.load(*off, b) {
                        d.push(Diff::Uart(e));
                    }
                }
                *uart = Some(u);
            }
            Some(Io::UartStore { off, v }) => {
                let mut u = self.uart.clone();
                if *off < 8 {
                    u.store(*off, *v);
                }
                *uart = Some(u);
            }
        }
        d
    }

    /// What the host was asked during the step, and what came of it.
    fn compare_host(&self, o: &Out, fx: &mut htif::Fx, d: &mut Vec<Diff>) {
        if !self.htif.on {
            if let Some(c) = self.calls.iter().find(|c| c.name != "write" || c.fd != host::STREAM + 1 || !matches!(o.io, Some(Io::UartStore { off: 0, .. }))) {
                d.push(Diff::Host("host-call", &["C14", "C08"], format!("the host was asked {}({}) by an ordinary instruction", c.name, c.fd)));
            }
            return;
        }
        let r = self.htif.request(&self.mem, &o.writes);
        match &r {
            Req::Exit(v) => {
                d.push(Diff::Host("exit-missed", &["C16"], format!("the guest asked to exit with {v:#x} but the emulator went on")));
                return;
            }
            Req::None => {
                if let Some(c) = self.calls.iter().find(|c| c.name != "write" || c.fd != host::STREAM + 1 || !matches!(o.io, Some(Io::UartStore { off: 0, .. }))) {
                    d.push(Diff::Host(
                        "host-call",
                        &["C14", "C15", "C08"],
                        format!("the host was asked {}({}) though the guest requested nothing", c.name, c.fd),
                    ));
                }
                return;
            }
            Req::Bad(_) => return,
            Req::Call { .. } => (),
        }
        match self.htif.effects(&r, &self.mem, &o.writes, &self.calls) {
            Err((c, p, m)) => d.push(Diff::Host(c, p, m)),
            Ok(f) => {
                *fx = f;
                let see = htif::See { mem: &self.mem, writes: &o.writes };
                let bad = htif::compare(fx, &see, &|a| unsafe { *self.emu_dram.add((a - BASE) as usize) });
                if let Some((a, got, want)) = bad.first() {
                    let Req::Call { blk, a: args, .. } = &r else { return };
                    let what = if *a >= *blk && *a < blk + 8 {
                        "the result word"
                    } else if *a >= *blk && *a < blk + 64 {
                        "the argument block"
                    } else if *a >= self.htif.tohost && *a < self.htif.tohost + 8 {
                        "tohost"
                    } else if *a >= self.htif.fromhost && *a < self.htif.fromhost + 8 {
                        "fromhost"
                    } else {
                        "a buffer or its surroundings"
                    };
                    let p: &[&str] = if matches!(args[0], 56 | 57) || fx.stale { &["C14", "C15"] } else { &["C14"] };
                    let pc: &'static [&'static str] = if p.len() == 2 { &["C14", "C15"] } else { &["C14"] };
                    let class = if what == "the result word" { "proxy-result" } else { "proxy-memory" };
                    let (class, pc): (_, &'static [&'static str]) = if args[0] == 2011 { ("proxy-argument-vector", &["C14", "C20"]) } else { (class, pc) };
                    d.push(Diff::Host(
                        class,
                        pc,
                        format!(
                            "request {} with {:x?} ({}): {what} at {a:#x} is {got:#x}, expected {want:#x}; host answered {:?}",
                            args[0],
                            &args[1..6],
                            fx.note,
                            self.calls.iter().map(|c| (c.name, c.ret, c.errno)).collect::<Vec<_>>()
                        ),
                    ));
                }
                let table = fx.table.as_ref().unwrap_or(&self.htif.table);
                let mut open = host::with(|h| h.open_fds());
                open.sort();
                let mut mine: Vec<i32> = table.iter().flatten().copied().collect();
                mine.sort();
                if open != mine {
                    d.push(Diff::Host(
                        "proxy-descriptor-leak",
                        &["C15"],
                        format!("host descriptors open: {open:?}, those the guest holds: {mine:?}"),
                    ));
                }
            }
        }
    }

    fn verify(&mut self, emu: &mut Emulator) -> Result<(), Viol> {
        self.calls = host::with(|h| {
            h.fault = None;
            std::mem::take(&mut h.calls)
        });
        let pre = self.st.clone();
        let mut pick = Pick::default();
        let mut first: Option<(Out, Vec<Diff>)> = None;
        loop {
            let mut o = model::step(&pre, &self.mem, &mut pick);
            let mut uart = None;
            let mut fx = htif::Fx::default();
            let d = self.compare(emu, &pre, &mut o, &mut uart, &mut fx);
            if d.is_empty() {
                return self.commit(emu, pre, o, uart, fx);
            }
            if first.as_ref().map_or(true, |(_, f)| d.len() < f.len()) {
                first = Some((o, d));
            }
            if !pick.next() {
                break;
            }
        }
        let (o, d) = first.unwrap();
        Err(self.classify(emu, &pre, &o, &d))
    }

    fn commit(&mut self, emu: &mut Emulator, pre: St, o: Out, uart: Option<Uart>, fx: htif::Fx) -> Result<(), Viol> {
        for (a, n, v) in &o.writes {
            self.mem.write(*a, *n, *v);
        }
        for (a, v) in &fx.bytes {
            self.mem.write(*a, 1, *v as u64);
        }
        let io_out = matches!(o.io, Some(Io::UartStore { off: 0, .. }));
        if let Some(u) = uart {
            self.uart = u;
        }
        let host_out = !fx.note.is_empty();
        if host_out {
            self.htif.requests += 1;
            self.rep.add("seen:proxy-requests", 1);
            self.rep.add(&format!("seen:proxy:{}", fx.note), 1);
            if let Some(t) = fx.table {
                self.htif.table = t;
            }
            self.uart.out.extend_from_slice(&fx.out);
            self.rep.hash = mix(self.rep.hash, fx.note.bytes().fold(0, |h, b| mix(h, b as u64)));
        }
        self.last = describe(&pre, &o);
        let op = o.inst & 0x7f;
        let f3 = o.inst >> 12 & 7;
        let mut s = mix(o.cat as u64, if o.len == 4 { (op << 8 | f3) as u64 } else { (o.inst & 3) as u64 | (o.inst >> 13 & 7) as u64 });
        s = mix(s, o.trap.map_or(99, |(c, i)| c | (i as u64) << 8));
        s = mix(s, pre.prv as u64 | (o.st.prv as u64) << 2 | (o.translated as u64) << 4 | (pre.rv64 as u64) << 5);
        s = mix(s, o.dev.map_or(9, |d| d as u64) | (o.csr.unwrap_or(0) as u64) << 8);
        s = mix(s, (pre.mstatus >> 17) & 0x3f);
        s = mix(s, fx.note.bytes().fold(0, |h, b| mix(h, b as u64)));
        self.rep.sig(s);
        self.rep.hash = o.st.x.iter().fold(mix(mix(self.rep.hash, o.st.pc), o.inst as u64), |h, v| mix(h, *v));
        if let Some((c, i)) = o.trap {
            self.rep.add(&format!("seen:{}-{c}", if i { "interrupt" } else { "exception" }), 1);
        }
        if !o.atomic_note.is_empty() {
            self.rep.add(&format!("seen:{}", o.atomic_note), 1);
        }
        self.gen.progress(o.st.pc != pre.pc && o.trap.map_or(true, |(c, _)| c != 1 && c != 12));
        self.st = o.st;
        self.st.x[0] = 0;
        if o.io.is_some() || host_out {
            self.rep.add("seen:serial-access", o.io.is_some() as u64);
            if io_out || host_out {
                if let Some(m) = self.check_out() {
                    return Err(viol("serial-output", &["C08"], m));
                }
            }
        }
        // the line of the serial port follows its registers (DR is observed
        // again, with a possible batch in mind, in `clock`)
        let dr = self.uart.dr_possible(true);
        let _ = emu;
        let line = self.uart.line(dr);
        self.st.plic.set_level(1, line);
        Ok(())
    }

    fn classify(&self, emu: &mut Emulator, pre: &St, o: &Out, d: &[Diff]) -> Viol {
        let mut props: Vec<&str> = vec![];
        let mut class;
        let ci = emu.cpu.csr(if emu.cpu.privilege() == 3 { 0x342 } else { 0x142 });
        let top = 1u64 << if pre.rv64 { 63 } else { 31 };
        let real_pc = emu.cpu.pc();
        let real_prv = emu.cpu.privilege() as u8;
        let changed = |n: usize, was: u64| emu.cpu.csr(n) != was;
        let entered = (real_prv == 3 && emu.cpu.csr(0x341) == pre.pc & !1 && (changed(0x342, pre.mcause) || changed(0x341, pre.mepc)))
            || (real_prv == 1 && emu.cpu.csr(0x141) == pre.pc & !1 && (changed(0x142, pre.scause) || changed(0x141, pre.sepc)));
        let took_irq = ci & top != 0 && entered && o.cat != Cat::Irq;
        let irq_props = |c: u64, props: &mut Vec<&str>| match c {
            5 | 7 => props.push("C05"),
            9 | 11 => {
                props.push("C06");
                if self.uart_irq() {
                    props.push("C09");
                }
            }
            _ => (),
        };
        let uart_msgs: Vec<String> = d
            .iter()
            .filter_map(|x| match x {
                Diff::Uart(m) | Diff::Out(m) | Diff::Clock(m) | Diff::Host(_, _, m) => Some(m.clone()),
                _ => None,
            })
            .collect();
        if let (Cat::Irq, Some((c, _))) = (o.cat, o.trap) {
            class = format!("irq-{c}");
            props.extend(["C04", "C03"]);
            irq_props(c, &mut props);
        } else if took_irq {
            let c = ci & 0xff;
            class = format!("spurious-irq-{c}");
            props.push("C04");
            irq_props(c, &mut props);
        } else if let Some((c, _)) = o.trap {
            class = format!("exception-{c}");
            props.push("C02");
            let state = d.iter().all(|x| matches!(x, Diff::Pc | Diff::Prv | Diff::Csr("mstatus") | Diff::Csr("mepc") | Diff::Csr("sepc")));
            if state {
                props.push("C03");
            }
            match c {
                12 | 13 | 15 => props.push("C11"),
                1 | 5 | 7 => {
                    props.push("C13");
                    if o.translated {
                        props.push("C11");
                    }
                }
                2 => {
                    if o.csr.is_some() || matches!(o.cat, Cat::Sys | Cat::Xret | Cat::Csr) {
                        props.push("C12");
                    } else {
                        props.push("C01");
                    }
                }
                4 | 6 => {
                    props.push("C13");
                }
                _ => (),
            }
            if o.cat == Cat::Amo {
                props.push("C10");
            }
        } else {
            class = format!("{:?}", o.cat).to_lowercase();
            match o.cat {
                Cat::Int | Cat::MulDiv | Cat::Branch => props.push("C01"),
                Cat::Load | Cat::Store => {
                    props.extend(["C01", "C13"]);
                    if o.translated {
                        props.push("C11");
                    }
                }
                Cat::Amo => {
                    props.extend(["C10", "C01"]);
                    if o.translated {
                        props.push("C11");
                    }
                    if !o.atomic_note.is_empty() {
                        class = o.atomic_note.into();
                    }
                }
                Cat::Csr => {
                    props.extend(["C12", "C01"]);
                    match o.csr {
                        Some(0x300) | Some(0x100) => props.push("C03"),
                        Some(0x344) | Some(0x144) => props.extend(["C04", "C05", "C06"]),
                        Some(0x304) | Some(0x104) | Some(0x303) => props.push("C04"),
                        Some(0xc01 | 0xc81) => props.push("C05"),
                        _ => (),
                    }
                }
                Cat::Xret => props.extend(["C03", "C12"]),
                Cat::Sys => props.extend(["C12", "C01"]),
                _ => props.push("C01"),
            }
            if entered {
                props.push("C02");
                class = format!("{class}-trapped-{ci:x}");
                if matches!(ci, 12 | 13 | 15) {
                    props.push("C11");
                }
            }
        }
        // who may have had a hand in it: triggers and protection entries
        let bp = (o.trap == Some((3, false)) && o.inst & 0xffff != 0x9002 && o.inst != 0x0010_0073) || entered && ci == 3;
        let named = |l: &[&str]| d.iter().any(|x| matches!(x, Diff::Csr(n) if l.iter().any(|p| n.starts_with(p))));
        if bp && pre.t1.iter().any(|t| *t != 0) || matches!(o.csr, Some(0x7a0..=0x7a2)) || named(&["tdata", "tselect"]) {
            props.push("C22");
        }
        let denied = matches!(o.trap, Some((1 | 5 | 7, false))) || entered && matches!(ci, 1 | 5 | 7 | 12 | 13 | 15);
        if denied && pre.pmp_on() || matches!(o.csr, Some(0x3a0..=0x3a3 | 0x3b0..=0x3bf)) || named(&["pmp"]) {
            props.push("C23");
        }
        if named(&["mie", "ssip", "mideleg"]) {
            props.push("C04");
        }
        if named(&["mstatus"]) {
            props.push("C03");
        }
        match o.dev {
            Some(Reg::Clint) => props.push("C05"),
            Some(Reg::Plic) => {
                props.push("C06");
            }
            Some(Reg::Uart) => {
                props.extend(["C09"]);
                match o.io {
                    Some(Io::UartLoad { off: 0, .. }) if !self.uart.dlab() => props.push("C07"),
                    Some(Io::UartStore { off: 0, .. }) => props.push("C08"),
                    _ => (),
                }
            }
            _ => (),
        }
        for x in d {
            match x {
                Diff::Host(c, p, _) => {
                    class = c.to_string();
                    props.extend(p.iter());
                }
                Diff::Timer("msip") => props.extend(["C04", "C05"]),
                Diff::Timer(_) | Diff::Clock(_) => props.push("C05"),
                Diff::Mem(_) if o.trap.is_none() => props.extend(["C01", "C13"]),
                Diff::X(_) if o.trap.is_none() => props.push("C01"),
                _ => (),
            }
        }
        props.sort();
        props.dedup();
        let mut detail = vec![];
        for x in d.iter().take(8) {
            detail.push(match x {
                Diff::Pc => format!("pc={real_pc:#x} expected {:#x}", o.st.pc),
                Diff::Prv => format!("privilege={real_prv} expected {}", o.st.prv),
                Diff::X(i) => format!("x{i}={:#x} expected {:#x}", emu.cpu.regs.read(Some(*i)), o.st.x[*i]),
                Diff::Csr(n) => {
                    let num = CSRS.iter().find(|c| c.0 == *n).unwrap().1;
                    let (w, m) = want(&o.st, num);
                    format!("{n}={:#x} expected {:#x}", emu.cpu.csr(num) & m, w & m)
                }
                Diff::Tval => format!("trap value mtval={:#x} stval={:#x} allowed {:x?}", emu.cpu.csr(0x343), emu.cpu.csr(0x143), o.tval_ok),
                Diff::Mem(a) => format!("memory at {a:#x} is {:#x}", unsafe { *self.emu_dram.add((*a - BASE) as usize) }),
                Diff::Timer(n) => format!("{n} wrong"),
                _ => String::new(),
            });
        }
        detail.extend(uart_msgs);
        detail.retain(|s| !s.is_empty());
        let kinds: Vec<String> = d
            .iter()
            .map(|x| match x {
                Diff::X(_) => "x".to_string(),
                Diff::Mem(_) => "mem".to_string(),
                Diff::Csr(n) => n.to_string(),
                Diff::Tval => "tval".to_string(),
                Diff::Pc => "pc".to_string(),
                Diff::Prv => "prv".to_string(),
                Diff::Timer(n) => n.to_string(),
                Diff::Uart(_) => "uart".to_string(),
                Diff::Host(..) => "host".to_string(),
                _ => "clock".to_string(),
            })
            .take(3)
            .collect();
        viol(&class, &props, format!("step {}: {}: {} [{}]", self.n, describe(pre, o), detail.join("; "), kinds.join(",")))
    }

    fn uart_irq(&self) -> bool {
        self.st.plic.enable.iter().any(|e| e & 2 != 0)
    }

    fn full_compare(&mut self, emu: &mut Emulator) -> Result<(), Viol> {
        let _ = emu;
        if self.adopt {
            return Ok(());
        }
        if let Some(o) = mach::compare_all(self.emu_dram, self.mem.dram) {
            let a = BASE + o as u64;
            return Err(viol(
                "memory-stray",
                &["C01", "C02", "C10", "C11", "C13"],
                format!(
                    "memory at {a:#x} is {:#x}, the last value stored there was {:#x}",
                    unsafe { *self.emu_dram.add(o) },
                    self.mem.byte(a)
                ),
            ));
        }
        Ok(())
    }

    fn finish(&mut self, emu: &mut Emulator) -> Result<(), Viol> {
        self.full_compare(emu)?;
        for k in [16, 32, 64, 128, 256] {
            if self.htif.table.len() > k {
                self.rep.add(&format!("seen:runs-with-more-than-{k}-descriptors"), 1);
            }
        }
        if self.adopt {
            return Ok(());
        }
        if mach::rom_bytes(emu) != self.mem.rom {
            return Err(viol("rom-changed", &["C13"], "the boot memory changed during the run"));
        }
        if let Some(m) = self.check_out() {
            return Err(viol("serial-output", &["C08"], m));
        }
        if let Some(v) = self.check_logged() {
            return Err(v);
        }
        if self.logging {
            self.rep.add("seen:runs-with-a-log", 1);
        }
        if !self.prof.uart_drain {
            return Ok(());
        }
        // once nothing else happens, everything that arrived must get through
        host::with(|h| h.out_plan.clear());
        let put = |emu: &mut Emulator, off: u64, v: u64| emu.cpu.bus.store8(dev::UART + off, v).ok();
        put(emu, 3, 3);
        self.uart.store(3, 3);
        put(emu, 4, 8);
        self.uart.store(4, 8);
        let lines = self.uart.arrived.iter().filter(|b| **b == b'\n').count() as u64;
        let bound = 40 * (lines + 4) + self.uart.arrived.len() as u64 / 8;
        for _ in 0..bound {
            emu.cpu.bus.uart.tick(&mut emu.cpu.bus.plic);
            self.uart.tick();
            self.observe_uart(emu)?;
            for _ in 0..100_000 {
                let lsr = emu.cpu.bus.load8(dev::UART + 5).unwrap_or(0) as u8;
                if !self.uart.observe_dr(lsr & 1 != 0) {
                    return Err(viol("serial-data-ready", &["C09", "C07"], "data-ready contradicts the queue while draining"));
                }
                if lsr & 1 == 0 {
                    break;
                }
                let b = emu.cpu.bus.load8(dev::UART).unwrap_or(0) as u8;
                if let Err(m) = self.uart.load(0, b) {
                    return Err(viol("serial-input", &["C07"], format!("while draining: {m}")));
                }
            }
        }
        if self.uart.unchecked {
            self.rep.add("skip:serial input no longer judged", 1);
        }
        if !self.uart.all_delivered() {
            let t = self.uart.rx.iter().map(|s| s.t0).max().unwrap_or(0);
            return Err(viol(
                "serial-input-lost",
                &["C07"],
                format!(
                    "{} bytes arrived on standard input, only {t} were delivered within {bound} batches (reader {})",
                    self.uart.arrived.len(),
                    if host::reader_alive() { "alive" } else { "gone" }
                ),
            ));
        }
        Ok(())
    }
}

pub fn describe(pre: &St, o: &Out) -> String {
    let m = ["U", "S", "?", "M"][(pre.prv & 3) as usize];
    let isa = if pre.rv64 { "rv64" } else { "rv32" };
    match o.trap {
        Some((c, true)) => format!("{isa} {m} pc={:#x} interrupt {c} due", pre.pc),
        Some((c, false)) => format!("{isa} {m} pc={:#x} inst={:#x} exception {c} due", pre.pc, o.inst),
        None => format!("{isa} {m} pc={:#x} inst={:#x} {:?}", pre.pc, o.inst, o.cat),
    }
}
