//! Reference models of the memory-mapped devices, written from their data
//! sheets (SiFive CLINT/PLIC, 16550A), not from the emulator.

pub const ROM: u64 = 0x1000;
pub const ROM_SIZE: u64 = 0x1000;
pub const CLINT: u64 = 0x0200_0000;
pub const CLINT_SIZE: u64 = 0x1_0000;
pub const PLIC: u64 = 0x0c00_0000;
pub const PLIC_SIZE: u64 = 0x100_0000;
pub const UART: u64 = 0x1000_0000;
pub const UART_SIZE: u64 = 0x100;
pub const DRAM_SIZE: u64 = 0x8000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reg {
    Rom,
    Clint,
    Plic,
    Uart,
    Dram,
    None,
}

pub fn region(dram_base: u64, a: u64) -> Reg {
    let inr = |b: u64, s: u64| a >= b && a - b < s;
    if inr(ROM, ROM_SIZE) {
        Reg::Rom
    } else if inr(CLINT, CLINT_SIZE) {
        Reg::Clint
    } else if inr(dram_base, DRAM_SIZE) {
        Reg::Dram
    } else if inr(UART, UART_SIZE) {
        Reg::Uart
    } else if inr(PLIC, PLIC_SIZE) {
        Reg::Plic
    } else {
        Reg::None
    }
}

/// Level-triggered PLIC with 31 sources and two contexts (0 = M, 1 = S).
#[derive(Clone, Debug, PartialEq)]
pub struct Plic {
    pub level: u32,
    pub prio: [u8; 32],
    pub enable: [u32; 2],
    pub thr: [u8; 2],
    /// sources in service, per claiming context
    pub serv: [u32; 2],
}

impl Plic {
    pub fn new() -> Plic {
        Plic { level: 0, prio: [0; 32], enable: [0; 2], thr: [0; 2], serv: [0; 2] }
    }
    fn busy(&self) -> u32 {
        self.serv[0] | self.serv[1]
    }
    /// sources a context could be signalled for
    fn cand(&self, c: usize) -> u32 {
        self.level & self.enable[c] & !self.busy() & !1
    }
    pub fn line(&self, c: usize) -> bool {
        let m = self.cand(c);
        (1..32).any(|i| m >> i & 1 == 1 && self.prio[i] > 0 && self.prio[i] > self.thr[c])
    }
    pub fn best(&self, c: usize) -> u32 {
        let m = self.cand(c);
        let mut b = 0;
        let mut bp = 0;
        for i in 1..32 {
            if m >> i & 1 == 1 && self.prio[i] > bp {
                b = i as u32;
                bp = self.prio[i];
            }
        }
        b
    }
    pub fn set_level(&mut self, id: u32, l: bool) {
        if (1..32).contains(&id) {
            if l {
                self.level |= 1 << id
            } else {
                self.level &= !(1 << id)
            }
        }
    }
    /// Some(value), or None for an access fault.
    pub fn load(&mut self, off: u64) -> Option<u32> {
        match off {
            0..=0x1fff => {
                let id = (off >> 2) as usize;
                Some(if (1..32).contains(&id) { self.prio[id] as u32 } else { 0 })
            }
            0x2000..=0x20_0000 if off < 0x20_0000 => {
                let c = ((off - 0x2000) / 0x80) as usize;
                if c >= 2 {
                    return None;
                }
                Some(if (off - 0x2000) % 0x80 == 0 { self.enable[c] } else { 0 })
            }
            _ => {
                let c = ((off - 0x20_0000) / 0x1000) as usize;
                if c >= 2 {
                    return None;
                }
                match off & 0xfff {
                    0 => Some(self.thr[c] as u32),
                    4 => {
                        let b = self.best(c);
                        if b != 0 {
                            self.serv[c] |= 1 << b;
                        }
                        Some(b)
                    }
                    _ => Some(0),
                }
            }
        }
    }
    pub fn store(&mut self, off: u64, v: u32) -> Option<()> {
        match off {
            0..=0x1fff => {
                let id = (off >> 2) as usize;
                if (1..32).contains(&id) {
                    self.prio[id] = (v & 15) as u8;
                }
                Some(())
            }
            0x2000..=0x20_0000 if off < 0x20_0000 => {
                let c = ((off - 0x2000) / 0x80) as usize;
                if c >= 2 {
                    return None;
                }
                if (off - 0x2000) % 0x80 == 0 {
                    self.enable[c] = v & !1;
                    self.serv[c] &= self.enable[c];
                }
                Some(())
            }
            _ => {
                let c = ((off - 0x20_0000) / 0x1000) as usize;
                if c >= 2 {
                    return None;
                }
                match off & 0xfff {
                    0 => self.thr[c] = (v & 15) as u8,
                    4 => {
                        if v < 32 && self.enable[c] >> v & 1 == 1 {
                            self.serv[c] &= !(1 << v);
                        }
                    }
                    _ => (),
                }
                Some(())
            }
        }
    }
}

/// What may be waiting in the receive queue: `pre`, then the bytes `t0..t` of
/// the input that arrived, where `t` is some line end between `lo` and `hi`
/// (when the device took each line over is not visible to the guest).
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct RxState {
    pub pre: Vec<u8>,
    pub t0: usize,
    pub lo: usize,
    pub hi: usize,
}
impl RxState {
    fn may_be_empty(&self) -> bool {
        self.pre.is_empty() && self.lo == self.t0
    }
    fn may_hold(&self) -> bool {
        !self.pre.is_empty() || self.hi > self.t0
    }
}

/// 16550A-style serial port.
#[derive(Clone, Debug)]
pub struct Uart {
    pub ier: u8,
    pub lcr: u8,
    pub mcr: u8,
    pub scr: u8,
    pub dll: u8,
    pub dlm: u8,
    /// bytes that have arrived in full lines (or before end of file)
    pub arrived: Vec<u8>,
    /// where the lines end in `arrived`
    pub ends: Vec<usize>,
    /// bytes of an unfinished line
    pub partial: Vec<u8>,
    /// every possible receive state
    pub rx: Vec<RxState>,
    /// stdout expected so far
    pub out: Vec<u8>,
    /// too many possibilities to follow: received data is no longer judged
    pub unchecked: bool,
}

impl Uart {
    pub fn new() -> Uart {
        Uart {
            ier: 0,
            lcr: 0,
            mcr: 8,
            scr: 0,
            dll: 0x0c,
            dlm: 0,
            arrived: vec![],
            partial: vec![],
            ends: vec![],
            rx: vec![RxState { pre: vec![], t0: 0, lo: 0, hi: 0 }],
            out: vec![],
            unchecked: false,
        }
    }
    fn dedup(&mut self) {
        self.rx.sort();
        self.rx.dedup();
        if self.rx.len() > 2048 {
            self.unchecked = true;
            self.rx.truncate(1);
        }
    }
    pub fn input(&mut self, d: &[u8]) {
        for &b in d {
            self.partial.push(b);
            if b == b'\n' {
                self.line_done();
            }
        }
    }
    fn line_done(&mut self) {
        let p = std::mem::take(&mut self.partial);
        if !p.is_empty() {
            self.arrived.extend_from_slice(&p);
            self.ends.push(self.arrived.len());
        }
    }
    pub fn eof(&mut self) {
        self.line_done();
    }
    /// the first line end after byte `i`
    fn end_after(&self, i: usize) -> usize {
        let k = self.ends.partition_point(|e| *e <= i);
        self.ends.get(k).copied().unwrap_or(self.arrived.len())
    }
    /// possible values of `t` for a state
    fn cuts(&self, s: &RxState) -> Vec<usize> {
        let mut v = vec![s.lo];
        let k = self.ends.partition_point(|e| *e <= s.lo);
        v.extend(self.ends[k..].iter().take_while(|e| **e <= s.hi));
        v
    }
    /// lines that may still be on their way to the queue
    pub fn outstanding(&self) -> usize {
        let lo = self.rx.iter().map(|s| s.lo).min().unwrap_or(0);
        self.ends.len() - self.ends.partition_point(|e| *e <= lo)
    }
    /// the longest the queue could be
    pub fn max_queue(&self) -> usize {
        self.rx.iter().map(|s| s.pre.len() + s.hi - s.t0).max().unwrap_or(0)
    }
    /// a tick may move any number of arrived lines into the queue
    pub fn tick(&mut self) {
        if self.mcr & 0x10 != 0 {
            return;
        }
        let n = self.arrived.len();
        for s in self.rx.iter_mut() {
            s.hi = n;
        }
        self.dedup();
    }
    /// keep only the states consistent with the observed data-ready bit
    pub fn observe_dr(&mut self, dr: bool) -> bool {
        if self.unchecked {
            return true;
        }
        let mut nx = vec![];
        for s in &self.rx {
            let mut t = s.clone();
            if dr && s.may_hold() {
                if s.may_be_empty() {
                    t.lo = self.end_after(s.t0);
                }
                nx.push(t);
            } else if !dr && s.may_be_empty() {
                t.hi = t.t0;
                nx.push(t);
            }
        }
        if nx.is_empty() {
            return false;
        }
        self.rx = nx;
        self.dedup();
        true
    }
    pub fn dr_possible(&self, dr: bool) -> bool {
        self.unchecked || self.rx.iter().any(|s| if dr { s.may_hold() } else { s.may_be_empty() })
    }
    /// `None`: a byte was taken, whatever it was
    pub fn observe_read(&mut self, b: Option<u8>) -> bool {
        if self.unchecked {
            return true;
        }
        let mut nx = vec![];
        for s in &self.rx {
            if s.may_be_empty() {
                // reading an empty receiver returns an unspecified byte
                let mut t = s.clone();
                t.hi = t.t0;
                nx.push(t);
            }
            if let Some(&f) = s.pre.first() {
                if b.map_or(true, |b| b == f) {
                    let mut t = s.clone();
                    t.pre.remove(0);
                    nx.push(t);
                }
            } else if s.hi > s.t0 && b.map_or(true, |b| b == self.arrived[s.t0]) {
                let mut t = s.clone();
                t.lo = t.lo.max(self.end_after(s.t0));
                t.t0 += 1;
                nx.push(t);
            }
        }
        if nx.is_empty() {
            return false;
        }
        self.rx = nx;
        self.dedup();
        true
    }
    pub fn clear_rx(&mut self) {
        let mut nx = vec![];
        for s in &self.rx {
            for t in self.cuts(s) {
                nx.push(RxState { pre: vec![], t0: t, lo: t, hi: t });
            }
        }
        self.rx = nx;
        self.dedup();
    }
    /// loopback: the byte goes behind whatever is in the queue
    pub fn push_loop(&mut self, b: u8) {
        if self.max_queue() >= 16 {
            // an overrun: what the queue keeps is the device's choice
            self.unchecked = true;
        }
        let mut nx = vec![];
        for s in &self.rx {
            for t in self.cuts(s) {
                let mut pre = s.pre.clone();
                pre.extend_from_slice(&self.arrived[s.t0..t]);
                pre.push(b);
                nx.push(RxState { pre, t0: t, lo: t, hi: t });
            }
        }
        self.rx = nx;
        self.dedup();
    }
    /// everything that arrived has been handed to the guest
    pub fn all_delivered(&self) -> bool {
        self.unchecked || self.rx.iter().any(|s| s.pre.is_empty() && s.t0 == self.arrived.len())
    }
    pub fn describe_rx(&self) -> String {
        let mut v: Vec<String> = self
            .rx
            .iter()
            .take(3)
            .map(|s| {
                let q: Vec<u8> = s.pre.iter().chain(&self.arrived[s.t0..s.hi]).take(4).copied().collect();
                format!("{q:02x?}{}", if s.may_be_empty() { " (perhaps not yet)" } else { "" })
            })
            .collect();
        v.dedup();
        v.join(" or ")
    }
    pub fn dlab(&self) -> bool {
        self.lcr & 0x80 != 0
    }
    pub fn line(&self, dr: bool) -> bool {
        (self.ier & 1 != 0 && dr) || self.ier & 2 != 0
    }
    pub fn iir(&self, dr: bool) -> u8 {
        if self.ier & 1 != 0 && dr {
            4
        } else if self.ier & 2 != 0 {
            2
        } else {
            1
        }
    }
    /// Check a register read. Err(message) when it contradicts the history.
    pub fn load(&mut self, off: u64, v: u8) -> Result<(), String> {
        let bad = |what: &str, want: u8| Err(format!("serial {what} read {v:#04x}, expected {want:#04x}"));
        match off {
            0 if self.dlab() => {
                if v != self.dll {
                    return bad("DLL", self.dll);
                }
            }
            0 => {
                let want = self.describe_rx();
                if !self.observe_read(Some(v)) {
                    return Err(format!("serial RX read {v:#04x}, the queue can only start with {want}"));
                }
            }
            1 if self.dlab() => {
                if v != self.dlm {
                    return bad("DLM", self.dlm);
                }
            }
            1 => {
                if v != self.ier {
                    return bad("IER", self.ier);
                }
            }
            2 => {
                let can: Vec<u8> =
                    [false, true].iter().filter(|d| self.dr_possible(**d)).map(|d| self.iir(*d)).collect();
                if !can.contains(&(v & 0xf)) {
                    return Err(format!("serial IIR read {v:#04x}, expected one of {can:02x?}"));
                }
                if self.iir(true) != self.iir(false) {
                    let dr = v & 0xf == 4;
                    self.observe_dr(dr);
                }
            }
            3 => {
                if v != self.lcr {
                    return bad("LCR", self.lcr);
                }
            }
            4 => {
                if v != self.mcr {
                    return bad("MCR", self.mcr);
                }
            }
            5 => {
                if v & 0xfe != 0x60 {
                    return bad("LSR", 0x60 | v & 1);
                }
                if !self.observe_dr(v & 1 != 0) {
                    return bad("LSR", 0x60 | (v & 1 ^ 1));
                }
            }
            6 => {
                if v != 0xb0 {
                    return bad("MSR", 0xb0);
                }
            }
            7 => {
                if v != self.scr {
                    return bad("SCR", self.scr);
                }
            }
            _ => (),
        }
        Ok(())
    }
    pub fn store(&mut self, off: u64, v: u8) {
        match off {
            0 if self.dlab() => self.dll = v,
            0 if self.mcr & 0x10 != 0 => self.push_loop(v),
            0 => self.out.push(v),
            1 if self.dlab() => self.dlm = v,
            1 => self.ier = v & 15,
            2 => {
                if v & 2 != 0 {
                    self.clear_rx()
                }
            }
            3 => self.lcr = v,
            4 => self.mcr = v,
            7 => self.scr = v,
            _ => (),
        }
    }
}
