//! Seeded, state-aware generation of operations.
use crate::dev::{self, Uart};
use crate::host;
use crate::htif::Htif;
use crate::lock::BASE;
use crate::model::{self, Acc, Mem, St};
use crate::plan::{op, opb, Op};
use crate::rng::Rng;
use std::collections::VecDeque;

pub const CODE: u64 = BASE + 0x1_0000;
pub const DATA: u64 = BASE + 0x10_0000;
pub const PT: u64 = BASE + 0x20_0000;
pub const ALIAS: u64 = 0x4000_0000;
/// on RV64, where the top of the address space shows the memory again
pub const HIGH: u64 = 0xffff_ffff_8000_0000;

/// pages of the small table: the first eight, and a few far up
fn page(v: &View, k: u64) -> u64 {
    match k {
        0..=7 => k,
        k if v.st.rv64 => [0x1ff, 0x100, 0xaa, 0x155][k as usize & 3],
        k => [0x3ff, 0x200, 0x155, 0x2aa][k as usize & 3],
    }
}
/// where large pages are put
fn big(r: &mut Rng, v: &View) -> u64 {
    if v.st.rv64 {
        *r.pick(&[0x20_0000u64, 0x20_0000, 0x40_0000, 0x4000_0000])
    } else {
        *r.pick(&[0x40_0000u64, 0x80_0000])
    }
}
/// base bits below those of the handlers, and the mode
fn tvec_low(r: &mut Rng) -> u64 {
    let b = if r.chance(1, 2) { 4 * r.below(64) } else { 0 };
    b | r.below(2)
}

pub struct View<'a> {
    pub st: &'a St,
    pub mem: &'a Mem,
    pub uart: &'a Uart,
    pub n: u64,
    pub htif: &'a Htif,
}

#[derive(Clone)]
pub struct Prof {
    pub proxy: bool,
    pub name: String,
    pub w: [u64; NI],
    pub uart_drain: bool,
    pub long_runs: bool,
    pub vm: u64,
}

pub const NI: usize = 23;
const NAMES: [&str; NI] = [
    "int", "mul", "br", "mem", "bad", "amo", "csr", "trap", "xret", "irqcfg", "irqsrc", "plic", "timer", "uart", "vm", "run", "rand",
    "priv", "comp", "input", "proxy", "pmp", "trig",
];

pub fn profile(n: &str) -> Prof {
    let mut w = [0u64; NI];
    let mut set = |s: &str| {
        for kv in s.split_whitespace() {
            let (k, v) = kv.split_once('=').unwrap();
            let i = NAMES.iter().position(|x| *x == k).unwrap();
            w[i] = v.parse().unwrap();
        }
    };
    let (mut drain, mut long, mut vm) = (false, false, 3);
    match n {
        "isa" => set("int=30 mul=20 br=14 mem=16 bad=1 amo=5 csr=3 trap=1 xret=2 irqcfg=1 irqsrc=2 run=2 rand=4 comp=26 vm=1 priv=1"),
        "exc" => set("int=4 br=3 mem=10 bad=24 amo=4 csr=10 trap=18 xret=12 irqcfg=2 irqsrc=2 vm=6 run=1 rand=10 priv=6 comp=4"),
        "trap" => set("int=4 br=2 mem=3 bad=3 csr=14 trap=16 xret=24 irqcfg=12 irqsrc=14 run=2 rand=1 priv=4 vm=2"),
        "irq" => {
            set("int=4 br=1 mem=2 csr=10 trap=5 xret=14 irqcfg=24 irqsrc=26 plic=8 timer=4 uart=2 run=3 priv=3");
            vm = 1
        }
        "timer" => {
            set("int=4 csr=8 trap=2 xret=5 irqcfg=12 irqsrc=20 timer=30 run=12 priv=2");
            long = true;
            vm = 1
        }
        "plic" => {
            set("int=2 csr=5 trap=2 xret=5 irqcfg=8 irqsrc=24 plic=60 uart=3 run=1");
            vm = 0
        }
        "uart" => {
            set("int=3 csr=2 xret=1 irqcfg=3 plic=4 uart=56 input=26 run=2 trap=1");
            drain = true;
            vm = 0
        }
        "uartbig" => {
            set("int=2 uart=40 input=30 run=10");
            drain = true;
            long = true;
            vm = 0
        }
        "atomic" => set("int=4 br=2 mem=10 bad=2 amo=60 csr=2 trap=4 xret=4 irqcfg=3 irqsrc=6 run=6 vm=4 priv=1"),
        "vm" => {
            set("int=4 br=5 mem=30 bad=6 amo=8 csr=12 trap=5 xret=14 irqcfg=1 irqsrc=1 vm=34 run=1 priv=4 comp=4");
            vm = 8
        }
        "priv" => set("int=4 br=1 mem=3 bad=2 csr=50 trap=10 xret=20 irqcfg=4 irqsrc=3 vm=3 rand=3 priv=22"),
        "mem" => set("int=4 br=2 mem=60 bad=20 amo=6 csr=2 trap=2 xret=4 irqsrc=1 plic=2 timer=2 uart=2 vm=3 comp=8"),
        "fuzz" => set("int=3 mul=8 br=5 mem=12 bad=14 amo=7 csr=22 trap=6 xret=8 irqcfg=6 irqsrc=8 plic=8 timer=5 uart=8 vm=10 run=3 rand=40 priv=8 comp=12 input=5 pmp=2 trig=4"),
        "pmp" => set("int=6 br=6 mem=34 bad=3 amo=8 csr=5 trap=3 xret=20 vm=5 pmp=30 comp=4 priv=2 irqsrc=1 run=1 rand=1"),
        "trig" => set("int=12 br=10 mem=34 bad=4 amo=12 csr=4 trap=3 xret=14 vm=3 trig=30 comp=10 priv=2 irqcfg=1 irqsrc=1 run=1"),
        "htif" => {
            set("int=4 br=2 mem=6 amo=2 csr=3 trap=3 xret=6 irqcfg=3 irqsrc=4 timer=1 uart=7 vm=2 run=3 priv=1 input=4 proxy=60");
            drain = true;
            vm = 2
        }
        _ => panic!("unknown profile {n}"),
    }
    Prof { name: n.into(), proxy: n == "htif", w, uart_drain: drain, long_runs: long, vm }
}

pub fn iterations(r: &mut Rng, prof: &str) -> u64 {
    match prof {
        "timer" if r.chance(1, 40) => *r.pick(&[40_400, 65_000, 120_300]),
        "timer" => *r.pick(&[800, 3000, 5200, 5600, 10_400, 16_000]),
        "uartbig" => *r.pick(&[2000, 5500, 11_000]),
        "uart" => r.range(150, 1500),
        "atomic" => *r.pick(&[300, 800, 1500, 5600]),
        "irq" | "plic" => r.range(200, 2500),
        _ => r.range(200, 2500),
    }
}

pub struct Gen {
    pub q: VecDeque<Op>,
    stuck: u32,
    adopt: bool,
    started: bool,
    recent: Vec<u64>,
    lines: u32,
    eof: bool,
    weights: [u64; NI],
    /// per-run bias drawn once
    pub style: u64,
    out_faults: u32,
    last_lr: (u64, u32),
    names: Vec<Vec<u8>>,
}

pub const HB: u64 = BASE + 0x30_0000;

pub fn proxy_layout(r: &mut Rng) -> u64 {
    r.u64()
}
/// tohost, fromhost, and which of the two symbols the image has
pub fn mailbox(seed: u64) -> (u64, u64, u8) {
    let mut r = Rng::new(seed ^ 0x70_6f_73_74);
    let top = BASE + dev::DRAM_SIZE;
    let pick = |r: &mut Rng| match r.below(12) {
        0 => top - 8 * r.range(1, 4),
        1 => HB + 0xff8,
        2 => HB + 0x1000 * r.below(8),
        _ => HB + 8 * r.below(512),
    };
    let t = pick(&mut r);
    let f = loop {
        let f = if r.chance(1, 3) { (t + 8).min(top - 8) } else { pick(&mut r) };
        if f != t {
            break f;
        }
    };
    let which = if r.chance(1, 14) { r.below(3) as u8 } else { 3 };
    (t, f, which)
}
/// The symbol table around the two mailbox symbols.
pub fn symbols(seed: u64, mail: (u64, u64, u8), v: &mut Vec<(&'static str, u64)>) {
    let mut r = Rng::new(seed ^ 0x73_79_6d);
    let mut mine = vec![];
    if mail.2 & 1 != 0 {
        mine.push(("tohost", mail.0));
    }
    if mail.2 & 2 != 0 {
        mine.push(("fromhost", mail.1));
    }
    if r.chance(1, 2) {
        mine.reverse();
    }
    for m in mine {
        for _ in 0..*r.pick(&[0, 0, 1, 3, 40]) {
            let n = *r.pick(&["tohost1", "_tohost", "tohos", "fromhost_", "fromhos", ".fromhost", "host", "t", "Tohost", "to", ""]);
            v.push((n, DATA + 8 * r.below(64)));
        }
        v.push(m);
    }
    for _ in 0..*r.pick(&[0, 0, 2]) {
        v.push((*r.pick(&["tohostx", "main", "fromhost0"]), DATA + 8 * r.below(64)));
    }
}
pub fn proxy_command(seed: u64, c: &mut crate::cli::Cmd) {
    let mut r = Rng::new(seed ^ 0x61_72_67);
    if r.chance(1, 3) {
        c.pk = Some("/sim-image/pk".into());
        c.image = r.pick(&["guest", "./a b", "/x/y/z", "f0", "p"]).to_string();
    }
    let n = *r.pick(&[0u64, 0, 1, 1, 2, 3, 7, 30]);
    c.args = (0..n)
        .map(|_| {
            let k = *r.pick(&[0u64, 1, 4, 7, 8, 9, 40, 300]);
            let mut s: String = (0..k).map(|_| (b'a' + r.below(26) as u8) as char).collect();
            match r.below(14) {
                0 => s.push('\u{e9}'),
                1 => s.insert(0, '-'),
                2 => s.insert_str(0, "--"),
                3 => s = "--kernel".into(),
                4 => s.push_str(" = \t"),
                _ => (),
            }
            s
        })
        .collect();
}
const FILES: [(&[u8], bool); 8] = [
    (b"f0", false),
    (b"f1", false),
    (b"d0", true),
    (b"d0/a", false),
    (b"d0/d1", true),
    (b"d0/d1/b", false),
    (b"/abs/file", false),
    (b"n\xff\xe0x", false),
];
pub fn proxy_files(seed: u64) {
    let mut r = Rng::new(seed ^ 0x66_69_6c_65);
    host::with(|h| {
        for (i, (p, dir)) in FILES.iter().enumerate() {
            let n = if *dir { 0 } else { *r.pick(&[0u64, 1, 7, 8, 63, 64, 65, 300, 4096, 5000, 5000, 66_000, 140_000]) };
            h.nodes.push(host::Node {
                path: p.to_vec(),
                data: (0..n).map(|_| r.u64() as u8).collect(),
                mode: if *dir { 0o755 } else { 0o644 },
                id: i as u64 + 1,
                dir: *dir,
            });
        }
        let n = *r.clone().pick(&[0u64, 3, 60, 200, 200, 9000]);
        h.proxy_stdin = (0..n).map(|_| r.u64() as u8).collect();
        for n in &mut h.nodes {
            n.id = r.u64() >> 1;
            n.mode = *r.pick(&[n.mode, 0o7777, 0, 0o4755, 0o1644]);
        }
    });
}

// ---------------------------------------------------------------- encoders
pub fn rt(f7: u32, rs2: u32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn it(imm: i64, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    (imm as u32 & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn stt(imm: i64, rs2: u32, rs1: u32, f3: u32) -> u32 {
    let i = imm as u32;
    (i >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (i & 31) << 7 | 0x23
}
pub fn bt(o: i64, rs2: u32, rs1: u32, f3: u32) -> u32 {
    let o = o as u32;
    (o >> 12 & 1) << 31 | (o >> 5 & 0x3f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (o >> 1 & 15) << 8 | (o >> 11 & 1) << 7 | 0x63
}
pub fn jt(o: i64, rd: u32) -> u32 {
    let o = o as u32;
    (o >> 20 & 1) << 31 | (o >> 1 & 0x3ff) << 21 | (o >> 11 & 1) << 20 | (o >> 12 & 0xff) << 12 | rd << 7 | 0x6f
}
pub fn csrw(csr: u64, rs: u32) -> u32 {
    it(csr as i64, rs, 1, 0, 0x73)
}

/// a value with some relation to the given one
fn near(r: &mut Rng, x: u64) -> u64 {
    match r.below(8) {
        0..=2 => x,
        3 => x.wrapping_add(1),
        4 => x.wrapping_sub(1),
        5 => x.wrapping_neg(),
        6 => x ^ 1 << r.range(31, 63),
        _ => x ^ 1 << r.below(64),
    }
}

impl Gen {
    pub fn new(seed: u64, p: &Prof, adopt: bool) -> Gen {
        let mut r = Rng::new(seed);
        // swarm testing: each run keeps only part of the behaviours
        let mut weights = p.w;
        let max = *p.w.iter().max().unwrap();
        for w in weights.iter_mut() {
            if *w > 0 && *w < max && r.chance(1, 4) {
                *w = 0;
            } else if *w > 0 && r.chance(1, 5) {
                *w *= 3;
            }
        }
        Gen {
            q: VecDeque::new(),
            stuck: 0,
            adopt,
            started: false,
            recent: vec![],
            lines: 0,
            eof: false,
            weights,
            style: r.u64(),
            out_faults: 0,
            last_lr: (0, 2),
            names: vec![],
        }
    }
    pub fn progress(&mut self, p: bool) {
        if p {
            self.stuck = 0
        } else {
            self.stuck += 1
        }
    }
    fn x(&mut self, i: u32) {
        self.q.push_back(op("x", &[i as u64]));
    }
    fn set(&mut self, reg: u32, v: u64) {
        self.q.push_back(op("r", &[reg as u64, v]));
    }
    fn csr_write(&mut self, r: &mut Rng, csr: u64, v: u64) {
        let rs = r.range(5, 31) as u32;
        self.set(rs, v);
        self.x(csrw(csr, rs));
    }
    fn csr_op(&mut self, r: &mut Rng, f3: u32, csr: u64, v: u64) {
        let rd = if r.chance(1, 4) { 0 } else { r.below(32) as u32 };
        if f3 & 4 != 0 {
            self.x(it(csr as i64, (v & 31) as u32, f3, rd, 0x73));
        } else {
            let rs = if r.chance(1, 8) { 0 } else { r.range(1, 31) as u32 };
            self.set(rs, v);
            self.x(it(csr as i64, rs, f3, rd, 0x73));
        }
    }
    pub fn next(&mut self, r: &mut Rng, v: &View, p: &Prof) -> Option<Op> {
        if let Some(o) = self.q.pop_front() {
            return Some(o);
        }
        if self.stuck > 24 {
            return None;
        }
        if !self.started {
            self.started = true;
            self.setup(r, v, p);
        }
        for _ in 0..100 {
            if let Some(o) = self.q.pop_front() {
                return Some(o);
            }
            self.intent(r, v, p);
        }
        None
    }

    // -------------------------------------------------------------- set-up
    fn pte(&mut self, v: &View, at: u64, val: u64) {
        let n = if v.st.rv64 { 8 } else { 4 };
        self.q.push_back(op("m", &[at, n, val]));
    }
    /// now and then an address above the machine's 32 bits, with one bit
    /// between it and a good one
    fn far(&self, r: &mut Rng, v: &View, pa: u64) -> u64 {
        if !r.chance(1, 14) {
            return pa;
        }
        pa | 1 << if v.st.rv64 { r.range(32, 55) } else { r.range(32, 33) }
    }
    fn leaf(&self, pa: u64, flags: u64) -> u64 {
        (pa >> 12) << 10 | flags
    }
    fn tables(&mut self, r: &mut Rng, v: &View) {
        let (s, u) = (0xcf, 0xdf);
        if v.st.rv64 {
            self.pte(v, PT + 8 * 2, self.leaf(BASE, s));
            self.pte(v, PT + 8 * 3, self.leaf(BASE, u));
            self.pte(v, PT + 8 * 510, self.leaf(BASE, s));
            self.pte(v, PT, self.leaf(PT + 0x1000, 1));
            // devices, 2 MB each
            self.pte(v, PT + 0x1000 + 8 * 0x10, self.leaf(dev::CLINT, s));
            self.pte(v, PT + 0x1000 + 8 * 0x60, self.leaf(dev::PLIC, s));
            self.pte(v, PT + 0x1000 + 8 * 0x61, self.leaf(dev::PLIC + 0x20_0000, s));
            self.pte(v, PT + 0x1000 + 8 * 0x80, self.leaf(dev::UART, s));
            self.pte(v, PT + 0x1000 + 8, self.leaf(BASE + 0x20_0000 * r.below(2), 0xc7));
            self.pte(v, PT + 0x1000, self.leaf(PT + 0x2000, 1));
            // a second root with the small pages elsewhere
            self.pte(v, PT + 0x3000 + 8 * 2, self.leaf(BASE, s));
            self.pte(v, PT + 0x3000 + 8 * 3, self.leaf(BASE, u));
            self.pte(v, PT + 0x3000 + 8 * 510, self.leaf(BASE, s));
            self.pte(v, PT + 0x3000, self.leaf(PT + 0x4000, 1));
            self.pte(v, PT + 0x4000, self.leaf(PT + 0x2000, 1));
        } else {
            self.pte(v, PT + 4 * 0x200, self.leaf(BASE, s));
            self.pte(v, PT + 4 * 0x300, self.leaf(BASE, u));
            self.pte(v, PT + 4 * 8, self.leaf(dev::CLINT, s));
            self.pte(v, PT + 4 * 0x30, self.leaf(dev::PLIC, s));
            self.pte(v, PT + 4 * 0x40, self.leaf(dev::UART, s));
            self.pte(v, PT, self.leaf(PT + 0x2000, 1));
            self.pte(v, PT + 0x3000 + 4 * 0x200, self.leaf(BASE, s));
            self.pte(v, PT + 0x3000 + 4 * 0x300, self.leaf(BASE, u));
            self.pte(v, PT + 0x3000, self.leaf(PT + 0x4000, 1));
        }
        for k in 0..12 {
            let f = self.rand_flags(r, false);
            let pa = DATA + 0x1000 * r.below(4);
            let n = if v.st.rv64 { 8 } else { 4 };
            self.pte(v, PT + 0x2000 + n * page(v, k), self.leaf(pa, f));
        }
    }
    fn rand_flags(&self, r: &mut Rng, wild: bool) -> u64 {
        if wild {
            return r.below(256);
        }
        let u = if r.chance(1, 3) { 0x10 } else { 0 };
        *r.pick(&[0xc7u64, 0xc7, 0xcf, 0xc3, 0xcb, 0xc9, 0xdf & !0x10, 0x47, 0x87, 0xc5, 0xcd, 0xc6, 1, 0x0f]) | u
    }
    fn setup(&mut self, r: &mut Rng, v: &View, p: &Prof) {
        self.q.push_back(op("g", &[5]));
        let t = CODE + 0x400 * r.below(8);
        self.set(6, t);
        self.x(it(0, 6, 0, 0, 0x67));
        let mt = CODE + 0x2000 + 0x400 * r.below(4) + tvec_low(r);
        self.csr_write(r, 0x305, mt);
        let st = CODE + 0x4000 + 0x400 * r.below(4) + tvec_low(r);
        self.csr_write(r, 0x105, st);
        if p.vm > 0 || self.adopt {
            self.tables(r, v);
        }
        if p.name == "pmp" && r.chance(4, 5) {
            // everything open to everyone, last
            let i = *r.pick(&[15u64, 15, 8, 3]);
            self.csr_write(r, 0x3b0 + i, u64::MAX);
            let (n, k) = if v.st.rv64 { (i / 8 * 2, i % 8) } else { (i / 4, i % 4) };
            self.csr_write(r, 0x3a0 + n, 0x1f << (8 * k));
        }
        if r.chance(p.vm, 10) {
            self.satp(r, v, true);
        }
        if self.weights[5] > 0 || self.weights[3] > 0 {
            for k in 0..4 {
                self.q.push_back(op("m", &[DATA + 8 * k, 8, r.val()]));
            }
        }
    }
    fn satp(&mut self, r: &mut Rng, v: &View, on: bool) {
        let root = if r.chance(1, 5) { PT + 0x3000 } else { PT };
        let root = self.far(r, v, root);
        let val = if !on {
            0
        } else if v.st.rv64 {
            // now and then a mode the hart does not have
            let mode = if r.chance(1, 10) { r.below(16) } else { 8 };
            let asid = if r.chance(1, 4) { r.below(1 << 16) } else { 0 };
            mode << 60 | asid << 44 | root >> 12
        } else {
            let asid = if r.chance(1, 4) { r.below(1 << 9) } else { 0 };
            1 << 31 | asid << 22 | root >> 12
        };
        let odd = v.st.rv64 && !matches!(val >> 60, 0 | 8);
        if r.chance(if odd { 4 } else { 1 }, 10) {
            let f = *r.pick(&[1u32, 2, 3]);
            return self.csr_op(r, f, 0x180, val);
        }
        self.csr_write(r, 0x180, val);
    }

    // ---------------------------------------------------------- addresses
    fn vm_data(&self, v: &View) -> bool {
        v.st.vm_on(v.st.eff_prv(Acc::Load))
    }
    fn data_off(&self, r: &mut Rng) -> u64 {
        match r.below(8) {
            0..=3 => r.below(64),
            4 => 0xff0 + r.below(32),
            5 => r.below(0x1000),
            6 => 0x1000 * r.below(4) + r.below(16),
            _ => 0xfff8,
        }
    }
    fn addr(&mut self, r: &mut Rng, v: &View, n: u64, bad: bool) -> u64 {
        let vm = self.vm_data(v);
        if !self.recent.is_empty() && r.chance(1, 4) && !bad {
            return *r.pick(&self.recent);
        }
        let edge = if v.st.pmp_on() && r.chance(1, 3) { v.st.pmp_edge(r.below(16) as usize, r.chance(1, 2)) } else { None };
        let mut a = if let Some(e) = edge {
            let e = e.wrapping_add(*r.pick(&[0u64, 0, 0, 4, 8, 16])).wrapping_sub(*r.pick(&[0u64, 0, 1, 2, 4, 8]));
            if vm && v.st.eff_prv(Acc::Load) == 0 {
                e.wrapping_add(ALIAS)
            } else {
                e
            }
        } else if vm && r.chance(9, 10) {
            let prv = v.st.eff_prv(Acc::Load);
            let home = if prv == 0 { DATA + ALIAS } else { DATA };
            match r.below(if bad { 12 } else { 8 }) {
                0..=2 => home + self.data_off(r),
                3..=5 => 0x1000 * r.below(9) + *r.pick(&[0u64, 8, 16, 0x100, 0xff8, 0xff0, 0xffc]),
                6 => 0x1000 * page(v, r.below(12)) + *r.pick(&[0u64, 8, 16, 0x100, 0xff8, 0xff0, 0xffc]),
                7 if v.st.rv64 && prv > 0 && r.chance(1, 2) => HIGH + (DATA - BASE) + self.data_off(r),
                7 => big(r, v) + *r.pick(&[0u64, 0, 0x1000, 0x10_0000, 0x1f_f000, 0x3f_f000]) + r.below(0x1000),
                8 => (DATA ^ ALIAS) + self.data_off(r),
                9 => *r.pick(&[0x7fff_f000u64, 0x4000_0000, 0x40_0000, 0x7f_ffff_f000, 0xffff_ffff_ffff_f000]) + r.below(64),
                10 => {
                    let hi = *r.pick(&[1u64 << 39, 1 << 38, !0 << 39, !0 << 38, 1 << 63, 1 << 40]);
                    hi.wrapping_add(DATA + r.below(64))
                }
                _ => *r.pick(&[dev::UART + 7, dev::CLINT + 0xbff8, dev::PLIC + 4, 0x1000]),
            }
        } else {
            match r.below(if bad { 14 } else { 8 }) {
                0..=6 => DATA + self.data_off(r),
                7 => BASE + dev::DRAM_SIZE - 64 + r.below(64),
                8 | 9 => {
                    let e = *r.pick(&[
                        dev::ROM,
                        dev::ROM + dev::ROM_SIZE,
                        dev::CLINT,
                        dev::CLINT + dev::CLINT_SIZE,
                        dev::PLIC,
                        dev::PLIC + dev::PLIC_SIZE,
                        dev::UART,
                        dev::UART + dev::UART_SIZE,
                        BASE,
                        BASE + dev::DRAM_SIZE,
                    ]);
                    e.wrapping_add(r.below(24)).wrapping_sub(12)
                }
                10 => dev::ROM + r.below(0x1000),
                11 => *r.pick(&[dev::CLINT + 0x4000, dev::CLINT + 0xbff8, dev::CLINT, dev::PLIC + 4, dev::PLIC + 0x2000, dev::PLIC + 0x20_0000, dev::PLIC + 0x40_0000, dev::UART + 7]) + r.below(8),
                12 => r.val(),
                _ => *r.pick(&[0u64, 8, 0x2000_0000, 0x7fff_fff8, 0x1_8000_0000, 0x2_0000_0000, 0x1_0000_0000 - 8, u64::MAX - 7]),
            }
        };
        if r.chance(if bad { 8 } else { 19 }, if bad { 12 } else { 20 }) {
            a &= !(n - 1);
        }
        if self.recent.len() < 6 {
            self.recent.push(a);
        } else {
            let k = r.below(6) as usize;
            self.recent[k] = a;
        }
        a
    }
    fn slot(&self, r: &mut Rng, v: &View, prv: u8) -> u64 {
        let k = match r.below(10) {
            0..=6 => 0x400 * r.below(24),
            7 => 0x1000 * r.range(1, 6) - 2,
            8 => r.below(0x6000) & !1,
            _ => 0x1000 * r.range(1, 6) - 4,
        };
        let mut a = CODE + k;
        if v.st.vm_on(prv.min(1)) && prv < 3 {
            if prv == 0 {
                a += ALIAS;
            }
            if r.chance(1, 20) {
                a = 0x1000 * r.below(8) + (r.below(0x1000) & !1);
            } else if prv == 1 && v.st.rv64 && r.chance(1, 16) {
                a = a - BASE + HIGH;
            }
        }
        a
    }
    /// emit a load or store of n bytes at address a
    fn ldst(&mut self, r: &mut Rng, v: &View, store: bool, n: u64, a: u64, val: u64) {
        let imm = if r.chance(1, 2) { 0 } else { r.below(4096) as i64 - 2048 };
        let mut rs1 = r.range(1, 31) as u32;
        let mut rs2 = r.below(32) as u32;
        let f = n.trailing_zeros();
        // compressed forms now and then
        if (n == 4 || (n == 8 && v.st.rv64)) && r.chance(1, 5) {
            rs1 = rs1 & 7 | 8;
            rs2 = rs2 & 7 | 8;
            let off = r.below(32) * n;
            let sp = r.chance(1, 3);
            if sp {
                rs1 = 2;
                rs2 = r.range(1, 31) as u32;
            }
            if store && rs2 != rs1 {
                self.set(rs2, val);
            }
            self.set(rs1, a.wrapping_sub(off));
            let (r1, r2, o) = (rs1 & 7, rs2 & 7, off as u32);
            let c = match (sp, store, n) {
                (false, false, 4) => 0x4000 | (o >> 3 & 7) << 10 | r1 << 7 | (o >> 2 & 1) << 6 | (o >> 6 & 1) << 5 | r2 << 2,
                (false, true, 4) => 0xc000 | (o >> 3 & 7) << 10 | r1 << 7 | (o >> 2 & 1) << 6 | (o >> 6 & 1) << 5 | r2 << 2,
                (false, false, _) => 0x6000 | (o >> 3 & 7) << 10 | r1 << 7 | (o >> 6 & 3) << 5 | r2 << 2,
                (false, true, _) => 0xe000 | (o >> 3 & 7) << 10 | r1 << 7 | (o >> 6 & 3) << 5 | r2 << 2,
                (true, false, 4) => 0x4002 | (o >> 5 & 1) << 12 | rs2 << 7 | (o >> 2 & 7) << 4 | (o >> 6 & 3) << 2,
                (true, true, 4) => 0xc002 | (o >> 2 & 15) << 9 | (o >> 6 & 3) << 7 | rs2 << 2,
                (true, false, _) => 0x6002 | (o >> 5 & 1) << 12 | rs2 << 7 | (o >> 3 & 3) << 5 | (o >> 6 & 7) << 2,
                (true, true, _) => 0xe002 | (o >> 3 & 7) << 10 | (o >> 6 & 7) << 7 | rs2 << 2,
            };
            self.x(c);
            return;
        }
        if store {
            if rs2 != rs1 && rs2 != 0 {
                self.set(rs2, val);
            }
            self.set(rs1, a.wrapping_sub(imm as u64));
            self.x(stt(imm, rs2, rs1, f));
        } else {
            self.set(rs1, a.wrapping_sub(imm as u64));
            let uns = n < 8 && r.chance(1, 2) && !(n == 4 && !v.st.rv64);
            let rd = r.below(32) as u32;
            self.x(it(imm, rs1, f | if uns { 4 } else { 0 }, rd, 3));
        }
    }
    fn width(&self, r: &mut Rng, v: &View) -> u64 {
        1 << r.below(if v.st.rv64 { 4 } else { 3 })
    }

    // ------------------------------------------------------------ intents
    fn intent(&mut self, r: &mut Rng, v: &View, p: &Prof) {
        match NAMES[r.weighted(&self.weights)] {
            "int" => self.i_int(r, v, false),
            "mul" => self.i_int(r, v, true),
            "br" => self.i_br(r, v),
            "mem" => {
                let n = self.width(r, v);
                let a = self.addr(r, v, n, false);
                let s = r.chance(1, 2);
                let val = r.val();
                self.ldst(r, v, s, n, a, val)
            }
            "bad" => {
                let n = self.width(r, v);
                let a = self.addr(r, v, n, true);
                let s = r.chance(1, 2);
                let val = r.val();
                self.ldst(r, v, s, n, a, val)
            }
            "amo" => self.i_amo(r, v),
            "csr" => self.i_csr(r, v),
            "trap" => self.i_trap(r),
            "xret" => self.i_xret(r, v, p),
            "irqcfg" => self.i_irqcfg(r, v),
            "irqsrc" => self.i_irqsrc(r, v),
            "plic" => self.i_plic(r, v),
            "timer" => self.i_timer(r, v),
            "uart" => self.i_uart(r, v),
            "input" => self.i_input(r, v),
            "vm" => self.i_vm(r, v),
            "run" => self.i_run(r, v, p),
            "rand" => {
                let i = match r.below(7) {
                    5 | 6 => {
                        // one bit away from a proper encoding
                        let (rd, a, b) = (r.below(32) as u32, r.below(32) as u32, r.below(32) as u32);
                        let f3 = r.below(8) as u32;
                        let i = match r.below(5) {
                            0 => rt(*r.pick(&[0u32, 1, 0x20]), b, a, f3, rd, *r.pick(&[0x33u32, 0x3b])),
                            1 | 2 => it((*r.pick(&[0i64, 0x400])) | r.below(64) as i64, a, *r.pick(&[1u32, 5]), rd, *r.pick(&[0x13u32, 0x1b])),
                            3 => rt(*r.pick(&[0u32, 4, 8, 12, 16, 32, 48, 64, 80, 96, 112]), *r.pick(&[b, 0]), a, *r.pick(&[2u32, 3]), rd, 0x2f),
                            _ => it(r.below(4096) as i64, a, f3, rd, *r.pick(&[0x03u32, 0x23, 0x63, 0x67, 0x13])),
                        };
                        i ^ 1 << r.range(2, 31)
                    }
                    0 => r.u64() as u32,
                    1 => r.u64() as u32 & 0xffff_0000 | r.below(0x1_0000) as u32 & !3 | 3,
                    2 => {
                        let o = *r.pick(&[0x33u32, 0x3b, 0x13, 0x1b, 0x73, 0x2f, 0x03, 0x23, 0x63, 0x67, 0x6f, 0x37, 0x17, 0x0f]);
                        r.u64() as u32 & !0x7f | o
                    }
                    3 => {
                        let o = *r.pick(&[0x33u32, 0x3b, 0x73, 0x2f]);
                        let f7 = *r.pick(&[0u32, 1, 0x20, 0x10, 2, 0x7f, 9]);
                        rt(f7, r.below(32) as u32, r.below(32) as u32, r.below(8) as u32, r.below(32) as u32, o)
                    }
                    _ => r.below(0x1_0000) as u32 & !3 | *r.pick(&[0, 1, 2]),
                };
                self.x(i)
            }
            "priv" => self.i_priv(r, v),
            "comp" => self.i_comp(r, v),
            "proxy" => self.i_proxy(r, v),
            "pmp" => self.i_pmp(r, v),
            "trig" => self.i_trig(r, v),
            _ => (),
        }
    }
    fn seed_regs(&mut self, r: &mut Rng, a: u32, b: u32) {
        if r.chance(3, 5) {
            let v = r.val();
            self.set(a, v);
        }
        if r.chance(3, 5) {
            let v = r.val();
            self.set(b, v);
        }
    }
    fn i_int(&mut self, r: &mut Rng, v: &View, mul: bool) {
        let (rd, a, b) = (r.below(32) as u32, r.below(32) as u32, r.below(32) as u32);
        self.seed_regs(r, a, b);
        let w = v.st.rv64 && r.chance(1, 3);
        if a != 0 && b != 0 && r.chance(1, 4) {
            // related operands: equal, one apart, opposite, alike in one half
            let x = r.val();
            self.set(a, x);
            let y = near(r, x);
            self.set(b, y);
        }
        if mul {
            let f3 = if w { *r.pick(&[0u32, 4, 5, 6, 7]) } else { r.below(8) as u32 };
            if r.chance(1, 4) {
                let small = r.below(32).wrapping_sub(16);
                self.set(b, *r.pick(&[0u64, u64::MAX, 1, 0xffff_ffff, 0xffff_ffff_0000_0000, small, small, small]));
                if a != b {
                    self.set(a, *r.pick(&[1u64 << 63, 1 << 31, !0 << 31, u64::MAX, 7, (1 << 63) - 1, (1 << 31) - 1, !0 << 32]));
                }
            }
            return self.x(rt(1, b, a, f3, rd, if w { 0x3b } else { 0x33 }));
        }
        let i = match r.below(5) {
            0 | 1 => {
                let f3 = if w { *r.pick(&[0u32, 1, 5]) } else { r.below(8) as u32 };
                let f7 = if (f3 == 0 || f3 == 5) && r.chance(1, 2) { 0x20 } else { 0 };
                rt(f7, b, a, f3, rd, if w { 0x3b } else { 0x33 })
            }
            2 | 3 => {
                let f3 = if w { *r.pick(&[0u32, 1, 5]) } else { r.below(8) as u32 };
                let imm = if f3 == 1 || f3 == 5 {
                    let top = if f3 == 5 && r.chance(1, 2) { 0x400 } else { 0 };
                    let m = if w || !v.st.rv64 { 32 } else { 64 };
                    top | r.below(m) as i64
                } else {
                    let imm = r.below(4096) as i64;
                    if r.chance(1, 4) {
                        let x = near(r, (imm << 52 >> 52) as u64);
                        self.set(a, x);
                    }
                    imm
                };
                it(imm, a, f3, rd, if w { 0x1b } else { 0x13 })
            }
            _ => (r.u64() as u32 & 0xffff_f000) | rd << 7 | if r.chance(1, 2) { 0x37 } else { 0x17 },
        };
        self.x(i)
    }
    fn i_br(&mut self, r: &mut Rng, v: &View) {
        let far = r.chance(1, 6);
        let o = if r.chance(1, 12) { 0 } else { (r.below(if far { 4096 } else { 128 }) as i64 - if far { 2048 } else { 64 }) & !1 };
        let (a, b) = (r.below(32) as u32, r.below(32) as u32);
        match r.below(5) {
            0..=2 => {
                self.seed_regs(r, a, b);
                if r.chance(1, 4) {
                    let x = r.val();
                    self.set(a, x);
                    self.set(b, x);
                }
                let f3 = *r.pick(&[0u32, 1, 4, 5, 6, 7]);
                self.x(bt(o, b, a, f3))
            }
            3 => self.x(jt(o, r.below(3) as u32)),
            _ => {
                let t = self.slot(r, v, v.st.prv);
                let imm = r.below(64) as i64 - 32;
                let a = r.range(1, 31) as u32;
                self.set(a, t.wrapping_sub(imm as u64).wrapping_add(r.below(4) / 3));
                let rd = *r.pick(&[0, 1, a, 5]);
                self.x(it(imm, a, 0, rd, 0x67))
            }
        }
    }
    fn i_amo(&mut self, r: &mut Rng, v: &View) {
        let n = if v.st.rv64 && r.chance(1, 2) { 3u32 } else { 2 };
        let bad = r.chance(1, 12);
        let mut a = if r.chance(3, 5) {
            let home = if self.vm_data(v) && v.st.eff_prv(Acc::Load) == 0 { DATA + ALIAS } else { DATA };
            home + 8 * r.below(3) + if r.chance(1, 6) { 4 } else { 0 }
        } else {
            self.addr(r, v, 8, bad)
        };
        if r.chance(1, 12) {
            a ^= ALIAS;
        }
        let rs1 = r.range(1, 31) as u32;
        let rs2 = r.below(32) as u32;
        let rd = r.below(32) as u32;
        let aq = (r.below(4) as u32) << 25;
        match r.below(8) {
            0 | 1 => {
                self.last_lr = (a, n);
                self.set(rs1, a);
                self.x(rt(2 << 2, 0, rs1, n, rd, 0x2f) | aq)
            }
            2 | 3 => {
                let (mut la, mut ln) = self.last_lr;
                match r.below(8) {
                    0 => la = a,
                    1 => la = la.wrapping_add(8),
                    2 => ln = n,
                    3 => la ^= ALIAS,
                    _ => (),
                }
                if rs2 != 0 && rs2 != rs1 {
                    let x = r.val();
                    self.set(rs2, x);
                }
                self.set(rs1, la);
                self.x(rt(3 << 2, rs2, rs1, ln, rd, 0x2f) | aq)
            }
            4 => {
                // a whole retry loop at once
                if let Some(pa) = v.st.tlb_ok(v.mem, v.st.pc, Acc::Fetch) {
                    if dev::region(BASE, pa) == dev::Reg::Dram && pa & 0xfff < 0xf00 {
                        let (p, q, t) = (10, 11, 12);
                        self.set(p, a & !7);
                        let code = [
                            rt(2 << 2, 0, p, n, q, 0x2f),
                            it(1, q, 0, q, 0x13),
                            rt(3 << 2, q, p, n, t, 0x2f),
                            bt(-12, 0, t, 1),
                            jt(-16, 0),
                        ];
                        for (k, c) in code.iter().enumerate() {
                            self.q.push_back(op("m", &[pa + 4 * k as u64, 4, *c as u64]));
                        }
                        let big = if self.style & 1 == 0 { 40 } else { 5200 };
                        self.q.push_back(op("g", &[r.range(4, big)]));
                    }
                }
            }
            _ => {
                let f5 = *r.pick(&[0u32, 1, 4, 8, 12, 16, 20, 24, 28]);
                if rs2 != 0 && rs2 != rs1 {
                    let x = r.val();
                    self.set(rs2, x);
                }
                if r.chance(1, 3) {
                    let x = r.val();
                    if !self.vm_data(v) && dev::region(BASE, a) == dev::Reg::Dram {
                        self.q.push_back(op("m", &[a, 8, x]));
                    }
                }
                self.set(rs1, a);
                self.x(rt(f5 << 2, rs2, rs1, n, rd, 0x2f) | aq)
            }
        }
    }
    fn csr_val(&mut self, r: &mut Rng, v: &View, n: u64) -> u64 {
        if self.adopt {
            return match r.below(3) {
                0 => r.u64(),
                1 => r.val(),
                _ => CODE + r.below(0x4000),
            };
        }
        let bits = |r: &mut Rng, m: u64| match r.below(4) {
            0 => m,
            1 => r.u64() & r.u64() & m,
            2 => 1u64 << r.below(24) & m,
            _ => r.u64() & m,
        };
        match n {
            0x300 => {
                let mut x = bits(r, model::MST);
                if x & model::MPP == 2 << 11 && r.chance(4, 5) {
                    x |= model::MPP;
                }
                if r.chance(2, 3) {
                    x &= !model::MPRV;
                }
                x
            }
            0x100 => bits(r, model::MST),
            0x304 | 0x104 => bits(r, model::MIRQ),
            0x344 => 2 * r.below(2) | (r.u64() & 0x888),
            0x144 => bits(r, model::MIRQ),
            0x302 if r.chance(1, 20) => r.u64(),
            0x302 => bits(r, model::MEDELEG_OK),
            0x303 if r.chance(1, 10) => bits(r, model::MIRQ) | if r.chance(1, 3) { r.u64() } else { 0 },
            0x303 => bits(r, model::SIRQ),
            0x305 | 0x105 => {
                let t = CODE + 0x2000 + 0x400 * r.below(12);
                t | tvec_low(r)
            }
            0x341 | 0x141 => {
                if r.chance(1, 5) {
                    r.val()
                } else {
                    self.slot(r, v, v.st.prv) | r.below(4) / 3
                }
            }
            0x180 => {
                if r.chance(1, 4) {
                    0
                } else if v.st.rv64 {
                    8 << 60 | (PT + 0x3000 * r.below(2)) >> 12
                } else {
                    1 << 31 | (PT + 0x3000 * r.below(2)) >> 12
                }
            }
            0x306 | 0x106 => match r.below(4) {
                0 => r.u64(),
                1 => 1 << r.below(32),
                _ => r.below(8),
            },
            _ => r.val(),
        }
    }
    fn counter(&self, r: &mut Rng) -> u64 {
        *r.pick(&[0xc00, 0xc00, 0xc80]) + if r.chance(1, 3) { r.below(4) } else { r.below(32) }
    }
    fn i_csr(&mut self, r: &mut Rng, v: &View) {
        const M: [u64; 17] = [0x300, 0x302, 0x303, 0x304, 0x305, 0x306, 0x340, 0x341, 0x342, 0x343, 0x344, 0xf14, 0xc01, 0x300, 0x304, 0x301, 0xc81];
        const S: [u64; 12] = [0x100, 0x104, 0x105, 0x106, 0x140, 0x141, 0x142, 0x143, 0x144, 0x180, 0x100, 0xc01];
        let prv = v.st.prv;
        let n = match (prv, r.below(10)) {
            (3, 0..=5) => *r.pick(&M),
            (3, 6..=8) => *r.pick(&S),
            (1, 0..=5) => *r.pick(&S),
            (1, 6) => *r.pick(&M),
            (1, 7) => r.below(0x400) | 0x300,
            (0, 0..=3) => *r.pick(&S),
            (0, 4..=5) => *r.pick(&M),
            (0, 6) => 0x100 + r.below(0x300),
            (_, 7) => *r.pick(&[0xc01u64, 0xf11, 0xf12, 0xf13, 0xf14, 0x301]),
            (0 | 1, 8) if r.chance(1, 2) => self.counter(r),
            (0, _) => 0xc01,
            _ => *r.pick(&[0xc01u64, 0xf14, 0x180, 0x306, 0x106]),
        };
        let n = if self.adopt && r.chance(1, 3) { r.below(4096) } else { n };
        // registers nothing is known about, which must not lead anywhere
        if !self.adopt && r.chance(1, 14) {
            const O: [u64; 34] = [
                0, 1, 3, 4, 5, 0x40, 0x41, 0x42, 0x43, 0x44, 0x110, 0x102, 0x103, 0x14d, 0x200, 0x280, 0x30a, 0x310, 0x320, 0x345, 0x34a, 0x3a1, 0x3a3, 0x3a4,
                0x7a3, 0x7a4, 0x7b0, 0x800, 0x900, 0xb00, 0xb03, 0xb80, 0xda0, 0xfc0,
            ];
            let n = if r.chance(1, 2) { *r.pick(&O) } else { r.below(4096) };
            let known = matches!(n, 0x300..=0x306 | 0x340..=0x344 | 0x100..=0x101 | 0x104..=0x106 | 0x140..=0x144 | 0x180 | 0x3a0 | 0x3a2 | 0x3b0..=0x3bf | 0x7a0..=0x7a2)
                || !v.st.rv64 && matches!(n, 0x3a1 | 0x3a3);
            if !known {
                let x = if r.chance(1, 2) { u64::MAX >> (32 * r.below(2)) } else { r.u64() };
                return self.csr_op(r, *r.clone().pick(&[1u32, 2, 3, 1, 2, 5, 6, 7]), n, x);
            }
        }
        let f3 = *r.pick(&[1u32, 2, 3, 1, 2, 3, 5, 6, 7]);
        // hardware fields are only ever read, or written whole by known values
        let val = self.csr_val(r, v, n);
        if f3 & 4 != 0 && !self.adopt {
            let m = match n {
                0x300 | 0x100 => 0xa,
                0x304 | 0x104 | 0x144 => 0xa,
                0x344 => 2,
                0x302 => 31,
                0x303 => 2,
                0x305 | 0x105 => 0,
                0x180 => 0,
                0x306 | 0x106 => 7,
                _ => 31,
            };
            return self.csr_op(r, f3, n, val & m);
        }
        if n == 0xc01 || n >> 10 == 3 {
            // mostly reads
            if r.chance(3, 4) {
                let rd = r.below(32) as u32;
                return self.x(it(n as i64, 0, *r.pick(&[2u32, 3, 6, 7]), rd, 0x73));
            }
        }
        if !self.adopt && n == 0x344 {
            // a write through rs1 = x0 would be fine too; values stay {0, SSIP}
            let rs = r.range(1, 31) as u32;
            self.set(rs, val);
            let rd = r.below(32) as u32;
            return self.x(it(n as i64, rs, f3 & 3, rd, 0x73));
        }
        if n == 0x305 || n == 0x105 || n == 0x180 {
            if !self.adopt {
                if r.chance(1, 3) {
                    let rd = r.below(32) as u32;
                    return self.x(it(n as i64, 0, *r.pick(&[2u32, 3]), rd, 0x73));
                }
                return self.csr_write(r, n, val);
            }
        }
        self.csr_op(r, f3, n, val)
    }
    fn i_trap(&mut self, r: &mut Rng) {
        let i = match r.below(8) {
            0..=2 => 0x73,
            3 => 0x0010_0073,
            4 => 0x9002,
            5 => *r.pick(&[0u32, 0xffff_ffff, 0x0000_707f, 0x8000, 0x2000, 0xa000, 0x9c41, 0x9c61]),
            6 => rt(*r.pick(&[2u32, 0x40, 0x7f, 3]), 1, 2, r.below(8) as u32, 5, *r.pick(&[0x33, 0x3b])),
            _ => *r.pick(&[0x0000_0007u32, 0x0000_2027, 0x0000_0053, 0x0020_0073, 0x7b20_0073, 0x0000_4073, 0x0000_2063, 0x0000_3067, 0x0000_702f, 0x0000_7003, 0x0000_4023]),
        };
        self.x(i)
    }
    fn i_xret(&mut self, r: &mut Rng, v: &View, p: &Prof) {
        let prv = v.st.prv;
        if prv == 0 {
            let i = if r.chance(1, 4) { *r.pick(&[0x3020_0073, 0x1020_0073]) } else { 0x73 };
            return self.x(i);
        }
        if prv == 3 && r.chance(1, 4) && p.vm > 0 && !self.adopt {
            let on = r.chance(3, 4);
            self.satp(r, v, on);
        }
        if prv == 3 && r.chance(3, 4) {
            let to = *r.pick(&[0u8, 0, 1, 1, 1, 3]);
            let t = self.slot(r, v, to);
            self.csr_write(r, 0x341, t);
            let mut m = r.u64() & model::MST & !model::MPP & !model::MPRV;
            if r.chance(3, 4) {
                m &= !(model::TSR | model::TVM | model::TW);
            }
            m |= (to as u64) << 11;
            if r.chance(1, 10) {
                m |= model::MPRV;
            }
            self.csr_write(r, 0x300, m);
            self.x(0x3020_0073);
        } else {
            let to = r.below(2) as u8;
            let t = self.slot(r, v, to);
            self.csr_write(r, 0x141, t);
            let rs = r.range(5, 31) as u32;
            let m = r.u64() & model::SST & !model::SPP | if to == 1 { model::SPP } else { 0 };
            self.set(rs, m);
            self.x(csrw(0x100, rs));
            self.x(0x1020_0073);
        }
    }
    fn i_irqcfg(&mut self, r: &mut Rng, v: &View) {
        let (m, s) = (v.st.prv == 3, v.st.prv >= 1);
        match r.below(6) {
            0 | 1 if m => {
                let x = r.u64() & model::MIRQ | if r.chance(1, 3) { model::MIRQ } else { 0 };
                self.csr_write(r, 0x304, x)
            }
            2 if m => {
                let x = r.u64() & model::SIRQ;
                self.csr_write(r, 0x303, x)
            }
            3 if m => {
                let b = *r.pick(&[2u32, 8, 10]);
                let f = *r.pick(&[6u32, 7, 6]);
                self.x(it(0x300, b, f, 0, 0x73))
            }
            3 if s => {
                let f = *r.pick(&[6u32, 7, 6]);
                self.x(it(0x100, 2, f, 0, 0x73))
            }
            4 if s => {
                let x = r.u64() & model::MIRQ;
                self.csr_op(r, *r.clone().pick(&[1u32, 2, 3]), 0x104, x)
            }
            _ if m => {
                let f = *r.pick(&[6u32, 6, 7]);
                self.x(it(0x344, 2, f, r.below(32) as u32, 0x73))
            }
            _ if s => {
                let f = *r.pick(&[6u32, 6, 7]);
                self.x(it(0x144, 2, f, r.below(32) as u32, 0x73))
            }
            _ => self.x(0x73),
        }
    }
    fn time_val(&self, r: &mut Rng, v: &View) -> u64 {
        match r.below(9) {
            0 => 0,
            1 => u64::MAX,
            2 => u64::MAX - r.below(120),
            3 => v.st.mtime.wrapping_add(r.below(120)),
            4 => v.st.mtime.wrapping_sub(r.below(60)),
            5 => v.st.mtimecmp.wrapping_add(r.below(3)).wrapping_sub(1),
            6 => 0xffff_ffff - r.below(60),
            7 => r.val(),
            _ => v.st.mtime.wrapping_add(1),
        }
    }
    fn i_irqsrc(&mut self, r: &mut Rng, v: &View) {
        match r.below(8) {
            0 => {
                let hi = if r.chance(1, 4) { r.u64() & 0xffff_fffe } else { 0 };
                self.q.push_back(op("ms", &[r.below(2) | hi]))
            }
            1 | 2 => {
                let x = self.time_val(r, v);
                self.q.push_back(op("tc", &[x]))
            }
            3 => {
                let x = self.time_val(r, v);
                self.q.push_back(op("t", &[x]))
            }
            4..=6 => {
                let id = match r.below(5) {
                    0 => r.range(0, 34),
                    _ => 2 + r.below(6),
                };
                self.q.push_back(op("irq", &[id, r.below(2)]))
            }
            _ => {
                // quiet everything
                self.q.push_back(op("ms", &[0]));
                self.q.push_back(op("tc", &[u64::MAX]));
                self.q.push_back(op("t", &[1000]));
            }
        }
    }
    fn i_plic(&mut self, r: &mut Rng, v: &View) {
        let p = &v.st.plic;
        let id = if r.chance(1, 8) { r.below(33) } else { 1 + r.below(8) };
        let c = r.below(2);
        let wide = v.st.rv64 && r.chance(1, 7);
        let (store, off, val): (bool, u64, u64) = match r.below(12) {
            0 | 1 => (true, 4 * id, if r.chance(1, 3) { r.below(40) } else { r.below(8) }),
            2 | 3 => (true, 0x2000 + 0x80 * c, if r.chance(1, 2) { r.u64() } else { p.enable[c as usize] as u64 ^ 1 << (1 + r.below(8)) }),
            4 => (true, 0x20_0000 + 0x1000 * c, if r.chance(1, 4) { r.u64() } else { r.below(6) }),
            5..=7 => (false, 0x20_0004 + 0x1000 * c, 0),
            8 | 9 => {
                let s = p.serv[c as usize];
                let mut id = id;
                if s != 0 && r.chance(5, 6) {
                    let k = r.below(s.count_ones() as u64) as u32;
                    id = (1..32).filter(|i| s >> i & 1 == 1).nth(k as usize).unwrap_or(1) as u64;
                }
                (true, 0x20_0004 + 0x1000 * c, if r.chance(1, 30) { r.u64() } else { id })
            }
            10 => (false, *r.pick(&[4 * id, 0x2000 + 0x80 * c, 0x20_0000 + 0x1000 * c, 0x2004, 0x1f80]), 0),
            _ => {
                let o = match r.below(7) {
                    0 => r.below(0x2100),
                    1 => r.range(0x2000, 0x2200),
                    2 => 0x20_0000 + 0x1000 * r.below(4),
                    3 => r.below(dev::PLIC_SIZE),
                    4 => dev::PLIC_SIZE - 4,
                    // the neighbours of the registers of a context
                    5 if r.chance(1, 2) => 0x20_0000 + 0x1000 * c + *r.pick(&[8u64, 0xc, 0x10, 0x14, 0x40, 0x44, 0x104, 0x800, 0xffc]),
                    5 => 0x2000 + 0x80 * c + 4 * r.range(1, 31),
                    _ => 0x1000,
                };
                (r.chance(1, 2), o & !3, r.below(16))
            }
        };
        let val = if wide { val & 0xffff_ffff | r.below(8) << 32 } else { val };
        let n = if wide { 8 } else if r.chance(1, 40) { 1 << r.below(2) } else { 4 };
        let off = if wide { off & !7 } else { off };
        let a = dev::PLIC + off;
        if store {
            self.ldst(r, v, true, n, a, val)
        } else {
            // signed loads only: the width the controller accepts
            let rs1 = r.range(1, 31) as u32;
            self.set(rs1, a);
            self.x(it(0, rs1, n.trailing_zeros(), r.below(32) as u32, 3))
        }
    }
    fn i_timer(&mut self, r: &mut Rng, v: &View) {
        let wide = v.st.rv64 && r.chance(1, 2);
        let n = if wide { 8 } else { 4 };
        let o = *r.pick(&[0x4000u64, 0x4000, 0xbff8, 0xbff8, 0]);
        let o = if o == 0 { 0 } else { o + if wide { 0 } else { 4 * r.below(2) } };
        if r.chance(1, 6) {
            let rd = r.range(1, 31) as u32;
            let n = if !v.st.rv64 && r.chance(1, 2) { 0xc81 } else { 0xc01 };
            return self.x(it(n, 0, 2, rd, 0x73));
        }
        let store = r.chance(3, 5);
        let t = self.time_val(r, v);
        let val = if o == 0 {
            r.below(2) | if r.chance(1, 4) { r.u64() & 0xffff_fffe } else { 0 }
        } else if o & 4 != 0 {
            t >> 32
        } else {
            t
        };
        let n = if o == 0 { 4 } else { n };
        if store {
            self.ldst(r, v, true, n, dev::CLINT + o, val)
        } else {
            let rs1 = r.range(1, 31) as u32;
            self.set(rs1, dev::CLINT + o);
            self.x(it(0, rs1, n.trailing_zeros() as u32, r.below(32) as u32, 3))
        }
    }
    fn uart_load(&mut self, r: &mut Rng, off: u64) {
        let rs1 = r.range(1, 31) as u32;
        let rd = if r.chance(1, 24) { 0 } else { r.range(1, 31) as u32 };
        self.set(rs1, dev::UART + off);
        self.x(it(0, rs1, if r.chance(1, 2) { 0 } else { 4 }, rd, 3))
    }
    fn uart_store(&mut self, r: &mut Rng, off: u64, val: u64) {
        let rs1 = r.range(1, 15) as u32;
        let rs2 = r.range(16, 31) as u32;
        self.set(rs1, dev::UART + off);
        let hi = if r.chance(1, 3) { r.u64() << 8 } else { 0 };
        self.set(rs2, val & 0xff | hi);
        self.x(stt(0, rs2, rs1, 0))
    }
    fn i_uart(&mut self, r: &mut Rng, v: &View) {
        match r.below(20) {
            0..=3 => self.uart_load(r, 0),
            4..=6 => self.uart_load(r, 5),
            7 => self.uart_load(r, 2),
            8 => {
                let o = r.below(8);
                self.uart_load(r, o)
            }
            9..=11 => {
                let b = if r.chance(1, 2) { r.below(256) } else { 0x20 + r.below(96) };
                self.uart_store(r, 0, b)
            }
            12 => {
                let x = if r.chance(1, 2) { r.below(4) } else { r.below(256) };
                self.uart_store(r, 1, x)
            }
            13 => {
                let x = *r.pick(&[1u64, 1, 5, 0xc1, 3, 7, 0xc7]);
                self.uart_store(r, 2, x)
            }
            14 => {
                let x = match r.below(4) {
                    0 => 0x80 | r.below(128),
                    1 => r.below(128),
                    _ => 3,
                };
                self.uart_store(r, 3, x)
            }
            15 => {
                let x = if r.chance(1, 3) { 0x10 | r.below(16) } else { r.below(16) };
                self.uart_store(r, 4, x)
            }
            16 => {
                let o = *r.pick(&[5u64, 6, 7]);
                let x = r.below(256);
                self.uart_store(r, o, x)
            }
            17 if self.out_faults < 20 && (self.style % 23 != 0 || r.chance(1, 2)) => {
                self.out_faults += 1;
                // output goes out one byte at a time, so a short write of one
                // byte is a complete one; an interrupted one is retried
                self.q.push_back(op("of", &[r.below(2)]));
            }
            17 if self.style % 23 == 0 => {
                // far more bytes than any queue holds, all of them looped back
                self.q.push_back(op("ovr", &[]));
                self.uart_store(r, 3, 3);
                self.uart_store(r, 4, 0x18);
                for _ in 0..r.range(10, 120) {
                    let b = 0x20 + r.below(96);
                    self.uart_store(r, 0, b);
                }
                if r.chance(1, 2) {
                    self.uart_store(r, 4, 8);
                }
            }
            18 => {
                // read until empty
                let k = r.range(1, 12);
                for _ in 0..k {
                    self.uart_load(r, 5);
                    self.uart_load(r, 0);
                }
            }
            _ => {
                let _ = v;
                for _ in 0..r.range(1, 20) {
                    self.q.push_back(op("tick", &[]));
                }
            }
        }
    }
    fn i_input(&mut self, r: &mut Rng, v: &View) {
        match r.below(12) {
            0..=6 if self.lines < 40 && !self.eof && v.uart.outstanding() < 12 => {
                let mut d = vec![];
                for _ in 0..r.range(1, 3) {
                    let n = match r.below(6) {
                        0 => 0,
                        1 if r.chance(1, 60) => *r.pick(&[1024u64, 4095, 4096, 4097, 5000, 9000]) - r.below(3),
                        1 => r.below(90),
                        _ => r.below(12),
                    };
                    for _ in 0..n {
                        let b = match r.below(6) {
                            0 => r.below(256) as u8,
                            1 => *r.pick(&[0xc3u8, 0xa9, 0xff, 0x80, 0xe2, 0x82, 0, b'\r']),
                            _ => 0x61 + r.below(26) as u8,
                        };
                        if b != b'\n' {
                            d.push(b);
                        }
                    }
                    if r.chance(4, 5) {
                        d.push(b'\n');
                        self.lines += 1;
                    }
                }
                // any chunking
                while !d.is_empty() {
                    let k = if r.chance(1, 2) { d.len() } else { 1 + r.below(d.len() as u64) as usize };
                    let c: Vec<u8> = d.drain(..k).collect();
                    self.q.push_back(opb("in", &[], &c));
                    if r.chance(1, 4) {
                        self.q.push_back(op("ineio", &[*r.pick(&[libc::EINTR as u64, libc::EINTR as u64, libc::EAGAIN as u64])]));
                    }
                    if r.chance(1, 4) {
                        self.q.push_back(op("tick", &[]));
                    }
                }
            }
            7 if r.chance(1, 12) && !self.eof => {
                self.eof = true;
                if r.chance(1, 2) {
                    // the last line has no end, and comes in pieces
                    for _ in 0..r.range(1, 3) {
                        let c: Vec<u8> = (0..r.range(1, 8)).map(|_| 0x30 + r.below(60) as u8).collect();
                        self.q.push_back(opb("in", &[], &c));
                        let e = *r.pick(&[libc::EINTR as u64, libc::EAGAIN as u64, libc::EAGAIN as u64]);
                        self.q.push_back(op("ineio", &[e]));
                        for _ in 0..r.below(4) {
                            self.q.push_back(op("tick", &[]));
                        }
                    }
                }
                // end of file, or a terminal that hung up
                let dead = if r.chance(1, 3) { libc::EIO as u64 } else { 0 };
                self.q.push_back(op("ineof", &[dead]));
            }
            _ => {
                for _ in 0..r.range(1, 18) {
                    self.q.push_back(op("tick", &[]));
                }
            }
        }
    }
    /// run an instruction whose halves lie in two pages mapped apart
    fn straddle(&mut self, r: &mut Rng, v: &View) {
        let n = if v.st.rv64 { 8 } else { 4 };
        let k = r.below(7);
        let u = if v.st.prv == 0 { 0x10 } else { 0 };
        for i in 0..2 {
            let f = if r.chance(1, 8) { self.rand_flags(r, false) } else { *r.pick(&[0xcf, 0xcb, 0xc9]) | u };
            let pa = if r.chance(1, 10) {
                *r.pick(&[dev::UART, 0x1000, 0x1_8000_0000, BASE + dev::DRAM_SIZE])
            } else {
                DATA + 0x1000 * r.range(4, 12)
            };
            let e = self.leaf(pa, f);
            self.pte(v, PT + 0x2000 + n * (k + i), e);
        }
        let t = r.range(1, 31) as u32;
        self.set(t, 0x1000 * (k + 1) - 2);
        self.x(it(0, t, 0, 0, 0x67));
        match r.below(4) {
            0 => {
                let (a, w) = (self.addr(r, v, 4, false), r.chance(1, 2));
                self.ldst(r, v, w, 4, a, 7);
            }
            1 => self.x(csrw(0x140, 5)),
            _ => self.i_int(r, v, false),
        }
        if r.chance(2, 3) {
            // and back to ordinary code
            let a = self.slot(r, v, v.st.prv);
            self.set(t, a);
            self.x(it(0, t, 0, 0, 0x67));
        }
    }
    fn i_vm(&mut self, r: &mut Rng, v: &View) {
        let n = if v.st.rv64 { 8 } else { 4 };
        if v.st.prv < 3 && v.st.vm_on(v.st.prv) && r.chance(1, 8) {
            return self.straddle(r, v);
        }
        match r.below(10) {
            0..=4 => {
                let wild = r.chance(1, 4);
                let f = self.rand_flags(r, wild);
                let pa = match r.below(10) {
                    0 => *r.pick(&[0x1_8000_0000u64, 0, 0x3_0000_0000, dev::UART, dev::CLINT, 0x1000, BASE + dev::DRAM_SIZE, (1 << 34) - 0x1000]),
                    1 => CODE + 0x1000 * r.below(6),
                    _ => DATA + 0x1000 * r.below(4),
                };
                let k = page(v, r.below(12));
                let pa = self.far(r, v, pa);
                let mut e = self.leaf(pa, f);
                if self.adopt && r.chance(1, 3) {
                    e = r.u64();
                }
                self.pte(v, PT + 0x2000 + n * k, e)
            }
            5 => {
                // a table pointer: good, outside memory, or with odd contents
                let f = *r.pick(&[1u64, 1, 1, 0, 3, 5]);
                let to = *r.pick(&[PT + 0x2000, PT + 0x2000, PT + 0x5000, 0x4000, 0x1_0000_0000, BASE + dev::DRAM_SIZE, dev::UART & !0xfff, 0xffff_f000, 0x3_ffff_f000]);
                let at = if v.st.rv64 { *r.pick(&[PT + 0x1000, PT, PT + 0x4000]) } else { *r.pick(&[PT, PT + 0x3000]) };
                let to = if v.st.rv64 && at == PT && to == PT + 0x2000 { PT + 0x1000 } else { to };
                let to = self.far(r, v, to);
                let mut e = self.leaf(to, f);
                if self.adopt && r.chance(1, 4) {
                    e = r.u64();
                }
                self.pte(v, at, e)
            }
            6 => {
                // superpages, aligned or not
                let f = self.rand_flags(r, false);
                let pa = *r.pick(&[BASE, BASE + 0x20_0000, BASE + 0x40_0000, 0x1_0000_0000, 0x3_fff0_0000]);
                let va = big(r, v);
                let at = match (v.st.rv64, va >> 30) {
                    (true, 0) => PT + 0x1000 + 8 * (va >> 21),
                    (true, k) => PT + 8 * k,
                    _ => PT + 4 * (va >> 22),
                };
                // one bit too many
                let bits = if !v.st.rv64 { 10 } else if va >> 30 == 0 { 9 } else { 18 };
                let pa = if bits == 18 && r.chance(3, 4) { pa & !0x3fff_ffff } else { pa };
                let pa = if r.chance(1, 3) { pa | 0x1000 << r.below(bits) } else { pa };
                let pa = self.far(r, v, pa);
                let e = self.leaf(pa, f);
                self.pte(v, at, e);
                self.recent.push(va + *r.pick(&[0u64, 0x1000, 0x10_0000]) + 8 * r.below(512));
                if self.recent.len() > 6 {
                    self.recent.remove(0);
                }
            }
            7 => {
                let on = r.chance(5, 6);
                self.satp(r, v, on)
            }
            8 => {
                self.x(rt(9, *r.clone().pick(&[0u32, 5]), *r.clone().pick(&[0u32, 6]), 0, 0, 0x73));
                if r.chance(1, 6) {
                    self.tables(r, v)
                }
            }
            _ => {
                if v.st.prv == 3 {
                    let x = r.u64() & (model::SUM | model::MXR | model::MPRV) | (r.below(2) * 3 & 1) << 11;
                    self.csr_write(r, 0x300, x)
                } else {
                    let x = r.u64() & (model::SUM | model::MXR);
                    self.csr_write(r, 0x100, x)
                }
            }
        }
    }
    // ------------------------------------------------- protection, triggers
    /// somewhere the program goes
    fn place(&self, r: &mut Rng) -> u64 {
        match r.below(12) {
            0..=4 => DATA + self.data_off(r),
            5 | 6 => CODE + 0x400 * r.below(24),
            7 => CODE + 0x1000 * r.below(7),
            8 => PT + 0x1000 * r.below(5),
            9 => *r.pick(&[dev::UART, dev::CLINT, dev::CLINT + 0x4000, dev::CLINT + 0xbff8, dev::PLIC, dev::ROM]),
            10 => BASE + dev::DRAM_SIZE - 8 * r.below(3),
            _ => BASE + (r.u64() & (dev::DRAM_SIZE - 1)),
        }
    }
    fn i_pmp(&mut self, r: &mut Rng, v: &View) {
        if v.st.prv < 3 {
            if r.chance(1, 2) {
                return self.i_trap(r);
            }
            let n = self.width(r, v);
            let (a, s, x) = (self.addr(r, v, n, false), r.chance(1, 2), r.val());
            return self.ldst(r, v, s, n, a, x);
        }
        let f3 = *r.pick(&[1u32, 1, 1, 1, 2, 3, 5, 6, 7]);
        let i = *r.pick(&[0u64, 0, 1, 1, 2, 3, 4, 5, 7, 8, 11, 14, 15]);
        if r.chance(1, 2) {
            let a = self.place(r);
            let x = match r.below(14) {
                0..=5 => a >> 2,
                6..=11 => {
                    // a power of two around it
                    let k = *r.pick(&[0u32, 0, 1, 1, 2, 4, 7, 8, 9, 9, 9, 12, 16, 20]);
                    a >> 2 & !(1 << k) | ((1 << k) - 1)
                }
                12 => *r.pick(&[0, u64::MAX, u64::MAX >> 1, 0xffff_ffff, 0x7fff_ffff, (1 << 53) - 1, (1 << 54) - 1]),
                _ => r.u64(),
            };
            if f3 == 1 {
                self.csr_write(r, 0x3b0 + i, x)
            } else {
                let x = if f3 & 4 == 0 && r.chance(1, 2) { 1 << r.below(56) } else { x };
                self.csr_op(r, f3, 0x3b0 + i, x)
            }
        } else {
            let (n, k) = if v.st.rv64 { (i / 8 * 2, i % 8) } else { (i / 4, i % 4) };
            let mut b = r.below(4) << 3 | *r.pick(&[0u64, 1, 1, 3, 3, 4, 5, 5, 7, 7]);
            if r.chance(1, 16) {
                b |= 0x80;
            }
            if r.chance(1, 12) {
                b |= 0x60;
            }
            let old = v.st.pmp_reg(n as usize);
            let x = if self.adopt { r.u64() & 0x7f7f_7f7f_7f7f_7f7f } else { old & !(0xff << (8 * k)) | b << (8 * k) };
            if f3 == 1 {
                self.csr_write(r, 0x3a0 + n, x)
            } else {
                let x = if f3 & 4 == 0 { b << (8 * k) } else { r.u64() };
                self.csr_op(r, f3, 0x3a0 + n, x)
            }
        }
    }
    fn i_trig(&mut self, r: &mut Rng, v: &View) {
        if v.st.prv < 3 {
            if r.chance(1, 2) {
                return self.i_trap(r);
            }
            let n = self.width(r, v);
            let (a, s, x) = (self.addr(r, v, n, false), r.chance(1, 2), r.val());
            return self.ldst(r, v, s, n, a, x);
        }
        let ty = if v.st.rv64 { 60 } else { 28 };
        let f3 = *r.pick(&[1u32, 1, 1, 1, 2, 3, 5, 6, 7]);
        match r.below(9) {
            0 | 1 => {
                let x = match r.below(8) {
                    0 => *r.pick(&[8u64, 9, 15, 16, 255, 1 << 32, u64::MAX]),
                    1 => r.val(),
                    _ => r.below(8),
                };
                self.csr_op(r, f3, 0x7a0, x)
            }
            2..=4 => {
                let a = match r.below(8) {
                    0..=3 if !self.recent.is_empty() => *r.pick(&self.recent),
                    0 => v.st.pc.wrapping_add(4 * r.below(20)),
                    1..=3 => v.st.pc.wrapping_add(2 * r.below(20)),
                    4 => self.place(r),
                    5 => self.place(r) + ALIAS,
                    6 => {
                        let p = r.below(4) as u8;
                        self.slot(r, v, p)
                    }
                    _ => DATA + 8 * r.below(8),
                };
                let a = a.wrapping_add(if r.chance(1, 6) { r.below(8) } else { 0 });
                if self.recent.len() < 6 {
                    self.recent.push(a);
                }
                if f3 == 1 {
                    self.csr_write(r, 0x7a2, a)
                } else {
                    self.csr_op(r, f3, 0x7a2, a)
                }
            }
            5..=7 => {
                let mut x = r.u64() & model::T1_OK;
                if r.chance(1, 2) {
                    x |= 0x40;
                }
                x |= 2 << ty;
                if r.chance(1, 8) {
                    x = r.u64() & model::T1_OK;
                }
                if self.adopt && r.chance(1, 2) {
                    x = r.u64();
                }
                if f3 == 1 {
                    self.csr_write(r, 0x7a1, x)
                } else {
                    let x = if r.chance(1, 2) { x & model::T1_OK } else { x };
                    self.csr_op(r, f3, 0x7a1, x)
                }
            }
            _ => {
                let n = 0x7a0 + r.below(3);
                let rd = r.below(32) as u32;
                self.x(it(n as i64, 0, *r.pick(&[2u32, 3, 6, 7]), rd, 0x73))
            }
        }
    }
    // -------------------------------------------------------------- proxy
    fn buf(&self, r: &mut Rng, n: u64, near: u64) -> u64 {
        match r.below(10) {
            0 => BASE + dev::DRAM_SIZE - n - r.below(3),
            1 => HB + 0x1000 * r.range(1, 12) - r.below(9),
            2 => near + 64,
            3 => near.saturating_sub(n),
            4 => DATA + r.below(64),
            _ => HB + 0x4000 + r.below(0x4000),
        }
    }
    fn words(&mut self, at: u64, w: &[u64]) {
        for (i, x) in w.iter().enumerate() {
            self.q.push_back(op("m", &[at + 8 * i as u64, 8, *x]));
        }
    }
    fn i_proxy(&mut self, r: &mut Rng, v: &View) {
        let h = v.htif;
        let user = v.st.vm_on(v.st.eff_prv(Acc::Store)) && v.st.eff_prv(Acc::Store) == 0;
        let va = |a: u64| if user && a < BASE + ALIAS { a + ALIAS } else { a };
        match r.below(40) {
            0 => {
                // writing zero is not a request
                let n = self.width(r, v);
                let k = r.below(8) & !(n - 1);
                return self.ldst(r, v, true, n, va(h.tohost + k), 0);
            }
            1 | 2 => {
                let n = self.width(r, v);
                return self.ldst(r, v, false, n, va(*r.clone().pick(&[h.tohost, h.fromhost])), 0);
            }
            3 => {
                let x = *r.pick(&[0u64, 1, 2, 0x1_0000_0000, 1 << 63]);
                let n = if v.st.rv64 { 8 } else { 4 };
                return self.ldst(r, v, true, n, va(h.fromhost), x);
            }
            4 => {
                // a neighbour of the mailbox
                let n = self.width(r, v);
                let a = if r.chance(1, 2) { h.tohost.wrapping_sub(n) } else { h.tohost + 8 };
                let x = r.val();
                return self.ldst(r, v, true, n, va(a), x);
            }
            5 if r.chance(1, if self.style >> 40 & 7 == 0 { 200 } else { 14 }) => {
                // the end of the program
                let code = if r.chance(1, 2) { r.below(256) } else { r.val() };
                if r.chance(1, 3) {
                    let blk = HB + 0x2000 + 8 * r.below(64);
                    self.words(blk, &[93, code, r.val(), r.val()]);
                    return self.mail(r, v, va(h.tohost), blk);
                }
                return self.mail(r, v, va(h.tohost), code | 1);
            }
            5 => {
                // only part of the word: an odd byte or halfword is an exit, keep it rare
                if r.chance(1, 24) {
                    let n = 1 << r.below(2);
                    let x = r.below(256) | 1;
                    return self.ldst(r, v, true, n, va(h.tohost), x);
                }
            }
            6 => {
                let d: Vec<u8> = (0..r.below(40)).map(|_| r.u64() as u8).collect();
                self.q.push_back(opb("si", &[], &d));
            }
            _ => (),
        }
        let blk = match r.below(12) {
            0 => BASE + dev::DRAM_SIZE - 64,
            1 => h.tohost + 8,
            2 => h.fromhost.wrapping_sub(64),
            3 => DATA,
            _ => HB + 0x2000 + 8 * r.below(256),
        };
        let open: Vec<u64> = (0..h.table.len() as u64).filter(|i| h.table[*i as usize].is_some()).collect();
        let fd = |r: &mut Rng| -> u64 {
            match r.below(16) {
                0 => h.table.len() as u64,
                1 => *r.pick(&[u64::MAX, 0xffff_ffff, 1 << 32, 3, 100, 700, 1 << 63, 0x1_0000_0003, (-100i64) as u64]),
                2 => r.below(h.table.len() as u64 + 1),
                3 => r.below(3),
                _ if open.len() > 3 => open[3 + r.below(open.len() as u64 - 3) as usize],
                _ if !open.is_empty() => *r.pick(&open),
                _ => 0,
            }
        };
        let mut len = *r.pick(&[0u64, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 255, 256, 1000, 4095, 4096, 5000]);
        if r.chance(1, 24) {
            len = *r.pick(&[8191u64, 8193, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x2_0003]);
        }
        let files = open.len().saturating_sub(3);
        // some programs keep opening files and hardly close any
        let hoard = self.style >> 40 & 7 == 0 && files < 300 && r.chance(4, 5);
        let nr = *r.pick(if hoard {
            &[56u64, 56, 56, 56, 56, 56, 56, 56, 56, 57, 64, 80][..]
        } else if files < 2 {
            &[56u64, 56, 56, 56, 56, 64, 63, 57, 79, 80, 2011, 62, 67, 68][..]
        } else {
            &[56, 56, 57, 57, 57, 62, 62, 63, 63, 63, 64, 64, 64, 67, 67, 68, 68, 79, 80, 80, 2011][..]
        });
        let mut a = [nr, 0, 0, 0, 0, 0, r.val(), r.val()];
        for x in a.iter_mut().skip(1).take(5) {
            *x = r.val();
        }
        match nr {
            56 | 79 => {
                let mut dir = (-100i64) as u64;
                let mut name: Vec<u8> = match if hoard && r.chance(3, 4) { 0 } else { r.below(12) } {
                    0..=5 => r.pick(&FILES).0.to_vec(),
                    6 => format!("new{}", r.below(5)).into_bytes(),
                    7 => (0..*r.clone().pick(&[3u64, 12, 30, 30, 255, 256, 257, 300, 1023, 1024, 4094, 4095])).map(|_| r.range(1, 255) as u8).collect(),
                    8 if !hoard => vec![],
                    9 if !self.names.is_empty() => r.pick(&self.names).clone(),
                    _ => {
                        dir = fd(r);
                        r.pick(&[&b"a"[..], b"d1", b"d1/b", b"nope", b"f0"]).to_vec()
                    }
                };
                if name.first() == Some(&b'/') && h.fd(dir) < 0 {
                    dir = (-100i64) as u64;
                }
                if r.chance(1, 10) && dir as i64 == -100 {
                    dir = 0xffff_ff9c;
                }
                if self.names.len() < 8 {
                    self.names.push(name.clone());
                }
                name.push(0);
                if r.chance(1, 8) {
                    // bytes after the terminator do not belong to the name
                    name.extend_from_slice(b"zz\0");
                }
                let at = self.buf(r, name.len() as u64, blk);
                self.q.push_back(opb("mb", &[at], &name));
                a[1] = dir;
                a[2] = at;
                a[3] = name.len() as u64;
                if nr == 56 {
                    a[4] = *r.pick(&[0u64, 0, 1, 2, 2, 0x42, 0x42, 0xc2, 0x242, 0x441, 0x241, 0x10000, 0x401]);
                    a[5] = *r.pick(&[0o644u64, 0o600, 0, 0o777]);
                } else {
                    a[4] = self.buf(r, 128, blk);
                    a[5] = *r.pick(&[0u64, 0x100, 0x1000]);
                }
            }
            57 => a[1] = fd(r),
            62 => {
                a[1] = fd(r);
                a[2] = *r.pick(&[0u64, 1, 5, 64, 300, 4096, u64::MAX, (-5i64) as u64, (-64i64) as u64, 1 << 40]);
                a[3] = *r.pick(&[0u64, 0, 0, 1, 1, 2, 2, 3, 1 << 32]);
            }
            63 | 64 | 67 | 68 => {
                a[1] = fd(r);
                a[2] = self.buf(r, len, blk);
                a[3] = len;
                a[4] = *r.pick(&[0u64, 1, 8, 60, 300, 4090, 5000, u64::MAX, 1 << 40]);
                if nr == 64 || nr == 68 {
                    let d: Vec<u8> = (0..len.min(64)).map(|_| r.u64() as u8).collect();
                    self.q.push_back(opb("mb", &[a[2]], &d));
                    if len > 64 {
                        let d: Vec<u8> = (0..32).map(|_| r.u64() as u8).collect();
                        self.q.push_back(opb("mb", &[a[2] + len - 32], &d));
                    }
                } else if r.chance(1, 2) && len > 0 {
                    // something recognisable where the data goes
                    let d = vec![0xa5; len.min(40) as usize];
                    self.q.push_back(opb("mb", &[a[2]], &d));
                    self.q.push_back(opb("mb", &[a[2] + len - len.min(16)], &d[..len.min(16) as usize]));
                }
            }
            80 => {
                a[1] = fd(r);
                a[2] = self.buf(r, 128, blk);
            }
            _ => {
                a[1] = self.buf(r, 400, blk);
                let need = (h.args.len() as u64 + 3) * 8 + h.args.iter().map(|s| s.len() as u64 + 1).sum::<u64>();
                a[2] = *r.pick(&[0u64, need - 1, need, need + 1, 1024, 8, 24]);
            }
        }
        if matches!(nr, 79 | 80) && r.chance(1, 2) {
            let at = if nr == 79 { a[4] } else { a[2] };
            self.q.push_back(opb("mb", &[at], &[0x5a; 128]));
        }
        if r.chance(1, 4) {
            let f = if r.chance(2, 3) || matches!(nr, 56 | 57 | 62 | 79 | 80) {
                [0, *r.pick(&[5u64, 28, 13, 24, 4, 11, 1, 2, 9, 122])]
            } else {
                [1, r.below(len + 2)]
            };
            self.q.push_back(op("hf", &f));
        }
        self.words(blk, &a);
        if r.chance(3, 4) {
            self.q.push_back(op("m", &[h.fromhost, 8, 0]));
        }
        self.mail(r, v, va(h.tohost), blk);
        if r.chance(1, 4) {
            let n = if v.st.rv64 { 8 } else { 4 };
            self.ldst(r, v, false, n, va(blk), 0);
            self.ldst(r, v, false, n, va(h.fromhost), 0);
        }
    }
    /// the store that makes the request
    fn mail(&mut self, r: &mut Rng, v: &View, to: u64, val: u64) {
        let n: u64 = if v.st.rv64 { 8 } else { 4 };
        let f = n.trailing_zeros();
        let (rs1, rs2) = (r.range(1, 15) as u32, r.range(16, 31) as u32);
        match r.below(6) {
            0 => {
                // by an atomic
                let f5 = *r.pick(&[0u32, 1, 4, 8, 28]);
                self.set(rs1, to);
                self.set(rs2, val);
                self.x(rt(f5 << 2, rs2, rs1, f, r.below(32) as u32, 0x2f));
            }
            1 => {
                self.set(rs1, to);
                self.x(rt(2 << 2, 0, rs1, f, 0, 0x2f));
                self.set(rs2, val);
                self.x(rt(3 << 2, rs2, rs1, f, r.below(32) as u32, 0x2f));
            }
            2 if v.st.rv64 && val >> 32 == 0 => {
                self.set(rs1, to);
                self.set(rs2, val);
                self.x(stt(0, rs2, rs1, 2));
            }
            _ => self.ldst(r, v, true, n, to, val),
        }
    }
    fn i_run(&mut self, r: &mut Rng, v: &View, p: &Prof) {
        if let Some(pa) = v.st.tlb_ok(v.mem, v.st.pc, Acc::Fetch) {
            if dev::region(BASE, pa) == dev::Reg::Dram && pa & 0xfff < 0xf00 {
                let k = r.range(1, 4);
                for i in 0..k {
                    let c = match r.below(if p.long_runs { 5 } else { 4 }) {
                        4 => {
                            let a = if v.st.vm_on(v.st.prv) && v.st.prv == 0 { ALIAS } else { 0 };
                            self.set(23, DATA + a + 8 * r.below(4));
                            0x1000_202f | 23 << 15 | 24 << 7
                        }
                        0 => it(1, 20, 0, 20, 0x13),
                        1 => rt(0, 20, 21, 0, 21, 0x33),
                        2 => it(if v.st.rv64 || r.chance(1, 2) { 0xc01 } else { 0xc81 }, 0, 2, 22, 0x73),
                        _ => rt(1, 20, 21, 0, 22, 0x33),
                    };
                    let c = if v.st.prv < 3 && c & 0x7f == 0x73 { 0x13 } else { c };
                    self.q.push_back(op("m", &[pa + 4 * i, 4, c as u64]));
                }
                self.q.push_back(op("m", &[pa + 4 * k, 4, jt(-4 * k as i64, 0) as u64]));
                let max = if p.long_runs { *r.pick(&[50u64, 400, 2600, 5200]) } else { 40 };
                self.q.push_back(op("g", &[r.range(3, max)]));
                return;
            }
        }
        self.q.push_back(op("g", &[r.range(1, 6)]));
    }
    fn i_priv(&mut self, r: &mut Rng, v: &View) {
        match r.below(8) {
            0 => self.x(0x1050_0073),
            1 | 2 => self.x(rt(9, *r.clone().pick(&[0u32, 5]), *r.clone().pick(&[0u32, 6]), 0, 0, 0x73)),
            3 => self.x(*r.pick(&[0x0ff0_000fu32, 0x0000_100f, 0x0330_000f])),
            4 if v.st.prv < 3 => self.x(0x3020_0073),
            5 if v.st.prv < 3 => self.x(0x1020_0073),
            6 if v.st.prv == 3 => {
                let x = r.u64() & (model::TVM | model::TSR | model::TW);
                let f = *r.pick(&[2u32, 3]);
                self.csr_op(r, f, 0x300, x)
            }
            6 => {
                let n = match r.below(6) {
                    0 => self.counter(r),
                    k => [0x180u64, 0x180, 0xc01, 0x300, 0x100][k as usize - 1],
                };
                self.x(it(n as i64, 0, 2, r.below(32) as u32, 0x73))
            }
            _ => {
                let n = if v.st.prv == 3 { 0x306 } else { 0x106 };
                let x = r.below(8);
                self.csr_write(r, n, x)
            }
        }
    }
    fn i_comp(&mut self, r: &mut Rng, v: &View) {
        // random compressed encodings with useful operands; memory forms get
        // their base register from `ldst` instead
        let q = *r.pick(&[1u32, 1, 1, 2, 2, 0]);
        let mut c = (r.u64() as u32 & 0xfffc) | q;
        let f3 = c >> 13;
        match (q, f3) {
            (0, 0) => (),
            (0, _) => c = c & 0x1fff,
            (1, 5) | (1, 6) | (1, 7) => {
                if r.chance(3, 4) {
                    // short offsets
                    c &= 0xe387;
                    c |= r.below(8) as u32 & 6;
                    c |= (r.below(2) as u32) << 3;
                }
                if f3 == 6 || f3 == 7 {
                    let rs = 8 + (c >> 7 & 7);
                    let x = *r.pick(&[0u64, 0, 1, 1 << 32]);
                    self.set(rs, x);
                }
            }
            (2, 4) => {
                if r.chance(1, 4) {
                    // a jump, often through the link register itself
                    c &= !(31 << 2);
                    if r.chance(1, 4) {
                        c = c & !(31 << 7) | 1 << 7;
                    }
                }
                let rs2 = c >> 2 & 31;
                let rd = c >> 7 & 31;
                if rs2 == 0 && rd != 0 {
                    let t = self.slot(r, v, v.st.prv) | r.below(2);
                    self.set(rd, t);
                }
            }
            (2, 2) | (2, 3) | (2, 6) | (2, 7) => {
                let a = self.addr(r, v, 8, false);
                self.set(2, a.wrapping_sub(8 * r.below(16)));
            }
            _ => {
                let rd = c >> 7 & 31;
                let x = r.val();
                self.set(rd, x);
                let x = r.val();
                self.set(8 + (c >> 2 & 7), x);
                let x = r.val();
                self.set(8 + (c >> 7 & 7), x);
            }
        }
        self.x(c)
    }
}
