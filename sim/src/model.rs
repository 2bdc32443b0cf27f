//! Executable reference model of the hart, written from the RISC-V manuals.
//! One call of `step` is one iteration of the machine: take an interrupt, or
//! execute one instruction, or trap. Freedom the manuals leave is expressed
//! through `Pick` (alternatives) and through the `*_ok` sets of `Out`.
use crate::dev::{self, Plic, Reg};

pub const SIE: u64 = 1 << 1;
pub const MIE: u64 = 1 << 3;
pub const SPIE: u64 = 1 << 5;
pub const MPIE: u64 = 1 << 7;
pub const SPP: u64 = 1 << 8;
pub const MPP: u64 = 3 << 11;
pub const MPRV: u64 = 1 << 17;
pub const SUM: u64 = 1 << 18;
pub const MXR: u64 = 1 << 19;
pub const TVM: u64 = 1 << 20;
pub const TW: u64 = 1 << 21;
pub const TSR: u64 = 1 << 22;
pub const MST: u64 = SIE | MIE | SPIE | MPIE | SPP | MPP | MPRV | SUM | MXR | TVM | TW | TSR;
pub const SST: u64 = SIE | SPIE | SPP | SUM | MXR;
pub const SIRQ: u64 = 0x222;
pub const MIRQ: u64 = 0xaaa;
/// what a trigger can be told: modes and accesses
pub const T1_OK: u64 = 0x5f;
pub const MEDELEG_OK: u64 = 0xb3ff;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Resv {
    pub pa: u64,
    pub va: u64,
    pub size: u64,
    /// something happened since the load-reserved that may have cleared it
    pub shaky: bool,
}

#[derive(Clone, Debug)]
pub struct St {
    pub rv64: bool,
    pub base: u64,
    pub pc: u64,
    pub x: [u64; 32],
    pub prv: u8,
    pub mstatus: u64,
    pub mie: u64,
    pub ssip: bool,
    pub mideleg: u64,
    pub medeleg: u64,
    pub mtvec: u64,
    pub stvec: u64,
    pub mscratch: u64,
    pub sscratch: u64,
    pub mepc: u64,
    pub sepc: u64,
    pub mcause: u64,
    pub scause: u64,
    pub mtval: u64,
    pub stval: u64,
    pub satp: u64,
    pub mcounteren: u64,
    pub scounteren: u64,
    pub resv: Option<Resv>,
    pub mtime: u64,
    pub mtimecmp: u64,
    pub msip: u32,
    /// bits above the first were written: what they read as is not ours
    pub msip_hi: bool,
    pub plic: Plic,
    /// protection entries: configuration byte and address
    pub pmpcfg: [u8; 16],
    pub pmpaddr: [u64; 16],
    /// address triggers
    pub tsel: usize,
    pub t1: [u64; NTRIG],
    pub t2: [u64; NTRIG],
}

pub struct Mem {
    pub base: u64,
    pub dram: *mut u8,
    pub rom: Vec<u8>,
}
impl Mem {
    pub fn read(&self, pa: u64, n: u64) -> u64 {
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.byte(pa + i) as u64) << (8 * i);
        }
        v
    }
    pub fn byte(&self, pa: u64) -> u8 {
        match dev::region(self.base, pa) {
            Reg::Dram => unsafe { *self.dram.add((pa - self.base) as usize) },
            Reg::Rom => self.rom.get((pa - dev::ROM) as usize).copied().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn write(&mut self, pa: u64, n: u64, v: u64) {
        for i in 0..n {
            if dev::region(self.base, pa + i) == Reg::Dram {
                unsafe { *self.dram.add((pa + i - self.base) as usize) = (v >> (8 * i)) as u8 }
            }
        }
    }
}

/// Depth-first enumeration of allowed alternatives.
#[derive(Default)]
pub struct Pick {
    pub v: Vec<(u8, u8)>,
    idx: usize,
}
impl Pick {
    pub fn begin(&mut self) {
        self.idx = 0;
    }
    pub fn of(&mut self, n: u8) -> u8 {
        if self.idx == self.v.len() {
            self.v.push((0, n));
        }
        let r = self.v[self.idx].0;
        self.idx += 1;
        r
    }
    /// advance to the next alternative; false when exhausted
    pub fn next(&mut self) -> bool {
        self.v.truncate(self.idx);
        while let Some((c, n)) = self.v.pop() {
            if c + 1 < n {
                self.v.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cat {
    Int,
    MulDiv,
    Branch,
    Load,
    Store,
    Amo,
    Csr,
    Xret,
    Sys,
    Illegal,
    Fetch,
    Irq,
}

#[derive(Clone, Debug)]
pub enum Io {
    UartLoad { off: u64, rd: usize, signed: bool },
    UartStore { off: u64, v: u8 },
}

#[derive(Clone, Debug)]
pub struct Out {
    pub st: St,
    pub writes: Vec<(u64, u64, u64)>,
    pub cat: Cat,
    pub inst: u32,
    pub len: u64,
    /// exception or interrupt taken: (cause, is_interrupt)
    pub trap: Option<(u64, bool)>,
    /// allowed trap values; None = any
    pub tval_ok: Option<Vec<u64>>,
    /// register whose value is taken from the machine, under `rd_mask`
    pub adopt_rd: Option<(usize, u64)>,
    pub adopt_mpp: bool,
    pub adopt_mprv: bool,
    pub translated: bool,
    pub dev: Option<Reg>,
    pub io: Option<Io>,
    pub csr: Option<u32>,
    /// the outcome is not specified; the engine must not execute this
    pub unspec: Option<&'static str>,
    /// physical address of a data access
    pub pa: Option<u64>,
    pub atomic_note: &'static str,
}

/// how many address triggers there are
pub const NTRIG: usize = 8;

/// does an address trigger fire?
#[derive(Clone, Copy, PartialEq)]
pub enum Hit {
    No,
    /// it may: the watched address is inside the access but not its lowest,
    /// or which privilege counts is open
    Maybe(u64),
    Yes,
}

pub enum Tr {
    Ok(u64),
    Page,
    Access,
    Unspec(&'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Acc {
    Fetch,
    Load,
    Store,
}

struct Trap {
    cause: u64,
    tval_ok: Option<Vec<u64>>,
}
type R<T> = Result<T, Stop>;
enum Stop {
    Trap(Trap),
    Unspec(&'static str),
}

fn bits(x: u32, hi: u32, lo: u32) -> u32 {
    (x >> lo) & ((1u64 << (hi - lo + 1)) - 1) as u32
}
fn sext(v: u64, n: u32) -> u64 {
    ((v << (64 - n)) as i64 >> (64 - n)) as u64
}

impl St {
    pub fn new(rv64: bool, base: u64) -> St {
        St {
            rv64,
            base,
            pc: dev::ROM,
            x: [0; 32],
            prv: 3,
            mstatus: 0,
            mie: 0,
            ssip: false,
            mideleg: 0,
            medeleg: 0,
            mtvec: 0,
            stvec: 0,
            mscratch: 0,
            sscratch: 0,
            mepc: 0,
            sepc: 0,
            mcause: 0,
            scause: 0,
            mtval: 0,
            stval: 0,
            satp: 0,
            mcounteren: 0,
            scounteren: 0,
            resv: None,
            mtime: 0,
            mtimecmp: 0,
            msip: 0,
            msip_hi: false,
            pmpcfg: [0; 16],
            pmpaddr: [0; 16],
            tsel: 0,
            t1: [0; NTRIG],
            t2: [0; NTRIG],
            plic: Plic::new(),
        }
    }
    pub fn xm(&self) -> u64 {
        if self.rv64 {
            u64::MAX
        } else {
            0xffff_ffff
        }
    }
    /// signed view of a register value
    pub fn sx(&self, v: u64) -> i64 {
        if self.rv64 {
            v as i64
        } else {
            v as u32 as i32 as i64
        }
    }
    pub fn set(&mut self, r: usize, v: u64) {
        if r != 0 {
            self.x[r] = v & self.xm();
        }
    }
    pub fn mip(&self) -> u64 {
        let t = self.mtime >= self.mtimecmp;
        (self.ssip as u64) << 1
            | ((self.msip & 1) as u64) << 3
            | (t as u64) << 5
            | (t as u64) << 7
            | (self.plic.line(1) as u64) << 9
            | (self.plic.line(0) as u64) << 11
    }
    pub fn pending(&self) -> Option<u64> {
        let p = self.mip() & self.mie;
        let m = p & !self.mideleg;
        let s = p & self.mideleg;
        let m_on = self.prv < 3 || self.mstatus & MIE != 0;
        let s_on = self.prv < 1 || (self.prv == 1 && self.mstatus & SIE != 0);
        let pool = if m_on && m != 0 {
            m
        } else if s_on && s != 0 {
            s
        } else {
            0
        };
        [11u64, 3, 7, 9, 1, 5].into_iter().find(|c| pool >> c & 1 == 1)
    }
    pub fn enter_trap(&mut self, cause: u64, intr: bool, tval: u64) {
        let deleg = if intr { self.mideleg } else { self.medeleg };
        let cv = if intr { cause | 1 << if self.rv64 { 63 } else { 31 } } else { cause };
        if let Some(r) = self.resv.as_mut() {
            r.shaky = true;
        }
        if self.prv < 3 && deleg >> cause & 1 == 1 {
            self.scause = cv;
            self.sepc = self.pc & !1;
            self.stval = tval;
            let sie = self.mstatus & SIE != 0;
            self.mstatus &= !(SIE | SPIE | SPP);
            if sie {
                self.mstatus |= SPIE;
            }
            if self.prv == 1 {
                self.mstatus |= SPP;
            }
            self.prv = 1;
            self.pc = vector(self.stvec, cause, intr) & self.xm();
        } else {
            self.mcause = cv;
            self.mepc = self.pc & !1;
            self.mtval = tval;
            let mie = self.mstatus & MIE != 0;
            self.mstatus &= !(MIE | MPIE | MPP);
            if mie {
                self.mstatus |= MPIE;
            }
            self.mstatus |= (self.prv as u64) << 11;
            self.prv = 3;
            self.pc = vector(self.mtvec, cause, intr) & self.xm();
        }
    }
    pub fn eff_prv(&self, acc: Acc) -> u8 {
        if acc != Acc::Fetch && self.mstatus & MPRV != 0 {
            (self.mstatus >> 11 & 3) as u8
        } else {
            self.prv
        }
    }
    pub fn vm_on(&self, prv: u8) -> bool {
        prv < 3 && if self.rv64 { self.satp >> 60 == 8 } else { self.satp >> 31 & 1 == 1 }
    }
    pub fn pmp_reg(&self, n: usize) -> u64 {
        let i0 = 4 * (n & 3);
        (0..if self.rv64 { 8 } else { 4 }).fold(0, |w, k| w | (self.pmpcfg[i0 + k] as u64) << (8 * k))
    }
    /// the selected trigger's control register, and what of it is specified
    pub fn t1_reg(&self) -> (u64, u64) {
        let ty = 15 << if self.rv64 { 60 } else { 28 };
        let t = self.t1[self.tsel];
        (t, if t & ty != 0 { T1_OK | ty } else { ty })
    }
    pub fn pmp_on(&self) -> bool {
        self.pmpcfg.iter().any(|c| c & 0x18 != 0)
    }
    fn pmp_range(&self, i: usize) -> Option<(u64, u64)> {
        let a = self.pmpaddr[i];
        match self.pmpcfg[i] >> 3 & 3 {
            0 => None,
            1 => Some((if i == 0 { 0 } else { self.pmpaddr[i - 1] << 2 }, a << 2)),
            2 => Some((a << 2, (a << 2) + 4)),
            _ => {
                let k = a.trailing_ones().min(54);
                let lo = (a >> k << k) << 2;
                Some((lo, lo.saturating_add(8 << k)))
            }
        }
    }
    pub fn pmp_edge(&self, i: usize, hi: bool) -> Option<u64> {
        self.pmp_range(i).map(|r| if hi { r.1 } else { r.0 })
    }
    /// the entry that decides about an access
    pub fn pmp_entry(&self, pa: u64, n: u64) -> Option<usize> {
        (0..16).find(|i| self.pmp_range(*i).map_or(false, |(lo, hi)| pa < hi && lo < pa + n && lo < hi))
    }
    /// With no entry active everything is open to everyone.
    pub fn pmp_ok(&self, pa: u64, n: u64, acc: Acc, prv: u8) -> bool {
        if !self.pmp_on() {
            return true;
        }
        let Some(i) = self.pmp_entry(pa, n) else { return prv == 3 };
        let (lo, hi) = self.pmp_range(i).unwrap();
        if pa < lo || hi < pa + n {
            return false;
        }
        let c = self.pmpcfg[i];
        let bit = match acc {
            Acc::Load => 1,
            Acc::Store => 2,
            Acc::Fetch => 4,
        };
        prv == 3 && c & 0x80 == 0 || c & bit != 0
    }
    pub fn trigger(&self, va: u64, n: u64, acc: Acc, amo: bool) -> Hit {
        let va = va & self.xm();
        let mut hit = Hit::No;
        let mode = |t: u64, p: u8| t >> [3, 4, 0, 6][p as usize] & 1 == 1 && p != 2;
        for i in 0..NTRIG {
            let (t, a) = (self.t1[i], self.t2[i] & self.xm());
            if t >> if self.rv64 { 60 } else { 28 } & 15 != 2 {
                continue;
            }
            let (mut sure, mut may) = match acc {
                Acc::Fetch => (t & 4 != 0, false),
                Acc::Load => (t & 1 != 0, false),
                Acc::Store => (t & 2 != 0, amo && t & 1 != 0),
            };
            let (m0, m1) = (mode(t, self.prv), mode(t, self.eff_prv(acc)));
            if !m0 && !m1 {
                continue;
            }
            if m0 != m1 {
                may |= sure;
                sure = false;
            }
            if !sure && !may {
                continue;
            }
            if a == va && sure {
                return Hit::Yes;
            }
            if a.wrapping_sub(va) < n {
                hit = Hit::Maybe(a);
            }
        }
        hit
    }
    /// Translate, and check that the place may be accessed.
    pub fn translate(&self, m: &Mem, va: u64, n: u64, acc: Acc) -> Tr {
        match self.walk(m, va, acc) {
            Tr::Ok(pa) if !self.pmp_ok(pa, n, acc, self.eff_prv(acc)) => Tr::Access,
            t => t,
        }
    }
    fn walk(&self, m: &Mem, va: u64, acc: Acc) -> Tr {
        let prv = self.eff_prv(acc);
        let va = va & self.xm();
        if !self.vm_on(prv) {
            return Tr::Ok(va);
        }
        let (levels, vb, psz, ppnm) = if self.rv64 { (3u32, 9, 8u64, (1u64 << 44) - 1) } else { (2, 10, 4, (1u64 << 22) - 1) };
        if self.rv64 && sext(va, 39) != va {
            return Tr::Page;
        }
        let mut table = (self.satp & ppnm) << 12;
        let mut lvl = levels - 1;
        loop {
            let idx = va >> (12 + vb * lvl) & ((1 << vb) - 1);
            let pa = table + idx * psz;
            match dev::region(self.base, pa) {
                Reg::Dram => (),
                Reg::Rom => return Tr::Unspec("page table in rom"),
                _ => return Tr::Access,
            }
            if !self.pmp_ok(pa, psz, Acc::Load, 1) {
                return Tr::Access;
            }
            let pte = m.read(pa, psz);
            let (v, r, w, x, u, a, d) = (pte & 1, pte >> 1 & 1, pte >> 2 & 1, pte >> 3 & 1, pte >> 4 & 1, pte >> 6 & 1, pte >> 7 & 1);
            if v == 0 || (r == 0 && w == 1) {
                return Tr::Page;
            }
            if self.rv64 && pte >> 54 != 0 {
                return Tr::Unspec("reserved pte bits");
            }
            let ppn = pte >> 10 & ppnm;
            if r == 0 && x == 0 {
                if u == 1 || a == 1 || d == 1 {
                    return Tr::Unspec("non-leaf pte with A/D/U");
                }
                if lvl == 0 {
                    return Tr::Page;
                }
                table = ppn << 12;
                lvl -= 1;
                continue;
            }
            let low = (1u64 << (vb * lvl)) - 1;
            if ppn & low != 0 {
                return Tr::Page;
            }
            if (prv == 0 && u == 0) || (prv == 1 && u == 1 && (acc == Acc::Fetch || self.mstatus & SUM == 0)) {
                return Tr::Page;
            }
            let ok = match acc {
                Acc::Fetch => x == 1,
                Acc::Load => r == 1 || (self.mstatus & MXR != 0 && x == 1),
                Acc::Store => w == 1 && d == 1,
            };
            if !ok || a == 0 {
                return Tr::Page;
            }
            let off = va & ((1u64 << (12 + vb * lvl)) - 1);
            return Tr::Ok((ppn & !low) << 12 | off);
        }
    }
    pub fn tlb_ok(&self, m: &Mem, va: u64, acc: Acc) -> Option<u64> {
        match self.translate(m, va, 2, acc) {
            Tr::Ok(pa) => Some(pa),
            _ => None,
        }
    }
}

fn vector(tvec: u64, cause: u64, intr: bool) -> u64 {
    let b = tvec & !3;
    if tvec & 1 == 1 && intr {
        b.wrapping_add(4 * cause)
    } else {
        b
    }
}

pub struct Exec<'a> {
    pub s: St,
    pub m: &'a Mem,
    pub p: &'a mut Pick,
    pub o: Out,
}

pub fn step(pre: &St, m: &Mem, p: &mut Pick) -> Out {
    p.begin();
    let o = Out {
        st: pre.clone(),
        writes: vec![],
        cat: Cat::Fetch,
        inst: 0,
        len: 0,
        trap: None,
        tval_ok: None,
        adopt_rd: None,
        adopt_mpp: false,
        adopt_mprv: false,
        translated: false,
        dev: None,
        io: None,
        csr: None,
        unspec: None,
        pa: None,
        atomic_note: "",
    };
    let mut e = Exec { s: pre.clone(), m, p, o };
    if let Some(c) = e.s.pending() {
        e.o.cat = Cat::Irq;
        e.s.enter_trap(c, true, 0);
        e.o.trap = Some((c, true));
        e.o.tval_ok = Some(vec![0]);
        e.o.st = e.s;
        return e.o;
    }
    match e.run() {
        Ok(()) => {
            e.s.pc &= e.s.xm();
            e.o.st = e.s;
            e.o
        }
        Err(Stop::Unspec(w)) => {
            e.o.unspec = Some(w);
            e.o
        }
        Err(Stop::Trap(t)) => {
            let mut s = pre.clone();
            let r = e.s.resv;
            s.resv = r;
            s.enter_trap(t.cause, false, t.tval_ok.as_ref().and_then(|v| v.first().copied()).unwrap_or(0));
            e.o.writes.clear();
            e.o.adopt_rd = None;
            e.o.adopt_mpp = false;
            e.o.adopt_mprv = false;
            e.o.io = None;
            e.o.trap = Some((t.cause, false));
            e.o.tval_ok = t.tval_ok.map(|v| v.iter().map(|x| x & s.xm()).collect());
            e.o.st = s;
            e.o
        }
    }
}

impl<'a> Exec<'a> {
    fn trap<T>(&self, cause: u64, tval: Vec<u64>) -> R<T> {
        Err(Stop::Trap(Trap { cause, tval_ok: Some(tval) }))
    }
    fn illegal<T>(&mut self) -> R<T> {
        let i = self.o.inst as u64;
        self.trap(2, vec![0, i])
    }
    fn unspec<T>(&self, w: &'static str) -> R<T> {
        Err(Stop::Unspec(w))
    }
    fn fault<T>(&mut self, t: Tr, acc: Acc, va: u64) -> R<T> {
        let va = va & self.s.xm();
        match t {
            Tr::Page => self.trap(match acc { Acc::Fetch => 12, Acc::Load => 13, Acc::Store => 15 }, vec![va]),
            Tr::Access => self.trap(match acc { Acc::Fetch => 1, Acc::Load => 5, Acc::Store => 7 }, vec![va]),
            Tr::Unspec(w) => self.unspec(w),
            Tr::Ok(_) => unreachable!(),
        }
    }
    fn access_fault<T>(&mut self, acc: Acc, va: u64, pa: u64) -> R<T> {
        let va = va & self.s.xm();
        self.trap(match acc { Acc::Fetch => 1, Acc::Load => 5, Acc::Store => 7 }, vec![va, pa])
    }
    fn fetch_half(&mut self, va: u64) -> R<u32> {
        let va = va & self.s.xm();
        match self.s.translate(self.m, va, 2, Acc::Fetch) {
            Tr::Ok(pa) => match dev::region(self.s.base, pa) {
                Reg::Dram | Reg::Rom => Ok(self.m.read(pa, 2) as u32),
                Reg::None => self.access_fault(Acc::Fetch, va, pa),
                // either half of a word fetched from a device may be named
                _ => self.trap(1, vec![va, pa, va.wrapping_add(2) & self.s.xm(), pa.wrapping_add(2)]),
            },
            t => self.fault(t, Acc::Fetch, va),
        }
    }
    fn run(&mut self) -> R<()> {
        let pc = self.s.pc;
        self.o.translated = self.s.vm_on(self.s.prv);
        self.watched(pc, 1, Acc::Fetch, false)?;
        let lo = self.fetch_half(pc)?;
        self.watched(pc, if lo & 3 == 3 { 4 } else { 2 }, Acc::Fetch, false)?;
        if lo & 3 == 3 {
            let hi = self.fetch_half(pc.wrapping_add(2))?;
            if self.s.pmp_on() {
                let f = |a: u64| self.s.tlb_ok(self.m, a & self.s.xm(), Acc::Fetch).map(|p| self.s.pmp_entry(p, 2));
                if f(pc) != f(pc.wrapping_add(2)) && self.p.of(2) == 1 {
                    // one access or two
                    return self.trap(1, vec![pc & self.s.xm(), pc.wrapping_add(2) & self.s.xm()]);
                }
            }
            self.o.inst = hi << 16 | lo;
            self.o.len = 4;
            self.s.pc = pc.wrapping_add(4) & self.s.xm();
            let i = self.o.inst;
            self.exec32(pc, i, 4)
        } else {
            self.o.inst = lo;
            self.o.len = 2;
            self.s.pc = pc.wrapping_add(2) & self.s.xm();
            self.exec16(pc, lo)
        }
    }

    fn watched(&mut self, va: u64, n: u64, acc: Acc, amo: bool) -> R<()> {
        let m = self.s.xm();
        match self.s.trigger(va, n, acc, amo) {
            Hit::Yes => self.trap(3, vec![va & m, 0]),
            Hit::Maybe(a) if self.p.of(2) == 1 => self.trap(3, vec![va & m, 0, a & m]),
            _ => Ok(()),
        }
    }
    // ------------------------------------------------------------- memory
    /// Translate and align-check a data access; returns the physical address.
    fn daddr(&mut self, va: u64, n: u64, acc: Acc) -> R<u64> {
        let va = va & self.s.xm();
        self.o.translated |= self.s.vm_on(self.s.eff_prv(acc));
        let amo = self.o.cat == Cat::Amo && acc == Acc::Store;
        self.watched(va, n, acc, amo)?;
        let t = self.s.translate(self.m, va, n, acc);
        if va % n != 0 {
            if let Tr::Unspec(w) = t {
                return self.unspec(w);
            }
            let faulty = match t {
                Tr::Ok(pa) => dev::region(self.s.base, pa) == Reg::None,
                _ => true,
            };
            if !faulty || self.p.of(2) == 0 {
                return self.trap(if acc == Acc::Load { 4 } else { 6 }, vec![va]);
            }
            return match t {
                Tr::Ok(pa) => self.access_fault(acc, va, pa),
                t => self.fault(t, acc, va),
            };
        }
        match t {
            Tr::Ok(pa) => {
                self.o.pa = Some(pa);
                self.o.dev = Some(dev::region(self.s.base, pa));
                Ok(pa)
            }
            t => self.fault(t, acc, va),
        }
    }
    fn load(&mut self, va: u64, n: u64, signed: bool, rd: usize) -> R<()> {
        self.o.cat = Cat::Load;
        let pa = self.daddr(va, n, Acc::Load)?;
        let v = match dev::region(self.s.base, pa) {
            Reg::Dram | Reg::Rom => self.m.read(pa, n),
            Reg::None => return self.access_fault(Acc::Load, va, pa),
            Reg::Clint => {
                if n < 4 {
                    return self.access_fault(Acc::Load, va, pa);
                }
                if n == 4 && !signed && self.p.of(2) == 1 {
                    return self.access_fault(Acc::Load, va, pa);
                }
                match self.clint_read(pa - dev::CLINT, n) {
                    Some(v) => v,
                    None => {
                        self.o.adopt_rd = Some((rd, 0));
                        0
                    }
                }
            }
            Reg::Uart => {
                if n != 1 {
                    return self.access_fault(Acc::Load, va, pa);
                }
                self.o.io = Some(Io::UartLoad { off: pa - dev::UART, rd, signed });
                self.o.adopt_rd = Some((rd, 0));
                return Ok(());
            }
            Reg::Plic => {
                if n < 4 || (n == 4 && !signed && self.p.of(2) == 1) {
                    return self.access_fault(Acc::Load, va, pa);
                }
                let off = pa - dev::PLIC;
                let mut v = 0u64;
                for k in 0..n / 4 {
                    match self.s.plic.load(off + 4 * k) {
                        Some(x) => v |= (x as u64) << (32 * k),
                        None => return self.access_fault(Acc::Load, va, pa),
                    }
                }
                v
            }
        };
        let v = if signed { sext(v, 8 * n as u32) } else { v };
        self.s.set(rd, v);
        Ok(())
    }
    fn clint_read(&self, off: u64, n: u64) -> Option<u64> {
        let part = |v: u64, o: u64| if n == 8 { v } else { v >> (8 * o) & 0xffff_ffff };
        match off {
            0 if n == 4 && !self.s.msip_hi => Some(self.s.msip as u64),
            0x4000 => Some(part(self.s.mtimecmp, 0)),
            0x4004 => Some(part(self.s.mtimecmp, 4)),
            0xbff8 => Some(part(self.s.mtime, 0)),
            0xbffc => Some(part(self.s.mtime, 4)),
            _ => None,
        }
    }
    fn store(&mut self, va: u64, n: u64, v: u64) -> R<()> {
        self.o.cat = Cat::Store;
        let pa = self.daddr(va, n, Acc::Store)?;
        self.store_pa(va, pa, n, v)
    }
    fn store_pa(&mut self, va: u64, pa: u64, n: u64, v: u64) -> R<()> {
        match dev::region(self.s.base, pa) {
            Reg::Dram => {
                self.o.writes.push((pa, n, v));
                if let Some(r) = self.s.resv.as_mut() {
                    if pa < r.pa + 64 && r.pa < pa + 64 {
                        r.shaky = true;
                    }
                }
            }
            Reg::Rom | Reg::None => return self.access_fault(Acc::Store, va, pa),
            Reg::Clint => {
                if n < 4 {
                    return self.access_fault(Acc::Store, va, pa);
                }
                let upd = |old: u64, o: u64| {
                    if n == 8 {
                        v
                    } else {
                        old & !(0xffff_ffff << (8 * o)) | (v & 0xffff_ffff) << (8 * o)
                    }
                };
                match pa - dev::CLINT {
                    0 if n == 4 => {
                        // bit 0 is the interrupt, the rest is hardwired
                        self.s.msip = v as u32 & 1;
                        self.s.msip_hi = v as u32 > 1;
                    }
                    0x4000 => self.s.mtimecmp = upd(self.s.mtimecmp, 0),
                    0x4004 => self.s.mtimecmp = upd(self.s.mtimecmp, 4),
                    0xbff8 => self.s.mtime = upd(self.s.mtime, 0),
                    0xbffc => self.s.mtime = upd(self.s.mtime, 4),
                    // other hart slots: nothing of ours is there
                    0 | 0x3ffc | 0xbff4 => return self.unspec("clint overlap"),
                    _ => (),
                }
            }
            Reg::Uart => {
                if n != 1 {
                    return self.access_fault(Acc::Store, va, pa);
                }
                let (off, b) = (pa - dev::UART, v as u8);
                if (off == 2 && b & 1 == 0) || (off == 4 && b & 0xe0 != 0) {
                    return self.unspec("reserved serial register bits");
                }
                self.o.io = Some(Io::UartStore { off, v: b });
            }
            Reg::Plic => {
                if n < 4 {
                    return self.access_fault(Acc::Store, va, pa);
                }
                let off = pa - dev::PLIC;
                for k in 0..n / 4 {
                    if self.s.plic.store(off + 4 * k, (v >> (32 * k)) as u32).is_none() {
                        return self.access_fault(Acc::Store, va, pa);
                    }
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------- 32 bit
    fn exec32(&mut self, pc: u64, i: u32, len: u64) -> R<()> {
        let rd = bits(i, 11, 7) as usize;
        let rs1 = bits(i, 19, 15) as usize;
        let rs2 = bits(i, 24, 20) as usize;
        let f3 = bits(i, 14, 12);
        let f7 = bits(i, 31, 25);
        let a = self.s.x[rs1];
        let b = self.s.x[rs2];
        let ii = sext(bits(i, 31, 20) as u64, 12);
        let rv64 = self.s.rv64;
        let next = pc.wrapping_add(len) & self.s.xm();
        match i & 0x7f {
            0x37 => {
                self.o.cat = Cat::Int;
                self.s.set(rd, sext((i & 0xffff_f000) as u64, 32));
            }
            0x17 => {
                self.o.cat = Cat::Int;
                self.s.set(rd, pc.wrapping_add(sext((i & 0xffff_f000) as u64, 32)));
            }
            0x6f => {
                self.o.cat = Cat::Branch;
                let o = bits(i, 31, 31) << 20 | bits(i, 19, 12) << 12 | bits(i, 20, 20) << 11 | bits(i, 30, 21) << 1;
                self.s.set(rd, next);
                self.s.pc = pc.wrapping_add(sext(o as u64, 21));
            }
            0x67 if f3 == 0 => {
                self.o.cat = Cat::Branch;
                self.s.set(rd, next);
                self.s.pc = a.wrapping_add(ii) & !1;
            }
            0x63 => {
                self.o.cat = Cat::Branch;
                let o = bits(i, 31, 31) << 12 | bits(i, 7, 7) << 11 | bits(i, 30, 25) << 5 | bits(i, 11, 8) << 1;
                let (sa, sb) = (self.s.sx(a), self.s.sx(b));
                let t = match f3 {
                    0 => a == b,
                    1 => a != b,
                    4 => sa < sb,
                    5 => sa >= sb,
                    6 => a < b,
                    7 => a >= b,
                    _ => {
                        self.o.cat = Cat::Illegal;
                        return self.illegal();
                    }
                };
                if t {
                    self.s.pc = pc.wrapping_add(sext(o as u64, 13));
                }
            }
            0x03 => {
                let (n, sg) = match (f3, rv64) {
                    (0, _) => (1, true),
                    (1, _) => (2, true),
                    (2, _) => (4, true),
                    (3, true) => (8, true),
                    (4, _) => (1, false),
                    (5, _) => (2, false),
                    (6, true) => (4, false),
                    _ => {
                        self.o.cat = Cat::Illegal;
                        return self.illegal();
                    }
                };
                self.load(a.wrapping_add(ii), n, sg, rd)?;
            }
            0x23 => {
                let o = sext((bits(i, 31, 25) << 5 | bits(i, 11, 7)) as u64, 12);
                let n = match (f3, rv64) {
                    (0, _) => 1,
                    (1, _) => 2,
                    (2, _) => 4,
                    (3, true) => 8,
                    _ => {
                        self.o.cat = Cat::Illegal;
                        return self.illegal();
                    }
                };
                self.store(a.wrapping_add(o), n, b)?;
            }
            0x13 => {
                self.o.cat = Cat::Int;
                let xl = if rv64 { 6 } else { 5 };
                let sh = bits(i, 25, 20) & ((1 << xl) - 1);
                let top = bits(i, 31, 20) >> xl;
                let r = match f3 {
                    0 => a.wrapping_add(ii),
                    2 => (self.s.sx(a) < ii as i64) as u64,
                    3 => (a < (ii & self.s.xm())) as u64,
                    4 => a ^ ii,
                    6 => a | ii,
                    7 => a & ii,
                    1 if top == 0 => a << sh,
                    5 if top == 0 => a >> sh,
                    5 if top == 0x400 >> xl => (self.s.sx(a) >> sh) as u64,
                    _ => {
                        self.o.cat = Cat::Illegal;
                        return self.illegal();
                    }
                };
                self.s.set(rd, r);
            }
            0x1b if rv64 => {
                self.o.cat = Cat::Int;
                let sh = bits(i, 24, 20);
                let w = a as u32;
                let r = match (f3, f7) {
                    (0, _) => w.wrapping_add(ii as u32),
                    (1, 0) => w << sh,
                    (5, 0) => w >> sh,
                    (5, 0x20) => ((w as i32) >> sh) as u32,
                    _ => {
                        self.o.cat = Cat::Illegal;
                        return self.illegal();
                    }
                };
                self.s.set(rd, r as i32 as i64 as u64);
            }
            0x33 => {
                self.o.cat = if f7 == 1 { Cat::MulDiv } else { Cat::Int };
                let shm = if rv64 { 63 } else { 31 };
                let sh = b & shm;
                let (sa, sb) = (self.s.sx(a), self.s.sx(b));
                let xl = if rv64 { 64 } else { 32 };
                let min = if rv64 { i64::MIN } else { i32::MIN as i64 };
                let r = match (f7, f3) {
                    (0, 0) => a.wrapping_add(b),
                    (0x20, 0) => a.wrapping_sub(b),
                    (0, 1) => a << sh,
                    (0, 2) => (sa < sb) as u64,
                    (0, 3) => (a < b) as u64,
                    (0, 4) => a ^ b,
                    (0, 5) => a >> sh,
                    (0x20, 5) => (sa >> sh) as u64,
                    (0, 6) => a | b,
                    (0, 7) => a & b,
                    (1, 0) => a.wrapping_mul(b),
                    (1, 1) => ((sa as i128 * sb as i128) >> xl) as u64,
                    (1, 2) => ((sa as i128 * b as i128) >> xl) as u64,
                    (1, 3) => ((a as u128 * b as u128) >> xl) as u64,
                    (1, 4) => {
                        if sb == 0 {
                            u64::MAX
                        } else if sa == min && sb == -1 {
                            min as u64
                        } else {
                            (sa / sb) as u64
                        }
                    }
                    (1, 5) => a.checked_div(b).unwrap_or(u64::MAX),
                    (1, 6) => {
                        if sb == 0 {
                            sa as u64
                        } else if sa == min && sb == -1 {
                            0
                        } else {
                            (sa % sb) as u64
                        }
                    }
                    (1, 7) => a.checked_rem(b).unwrap_or(a),
                    _ => {
                        self.o.cat = Cat::Illegal;
                        return self.illegal();
                    }
                };
                self.s.set(rd, r);
            }
            0x3b if rv64 => {
                self.o.cat = if f7 == 1 { Cat::MulDiv } else { Cat::Int };
                let (w, z) = (a as u32, b as u32);
                let (sw, sz) = (w as i32, z as i32);
                let r = match (f7, f3) {
                    (0, 0) => w.wrapping_add(z),
                    (0x20, 0) => w.wrapping_sub(z),
                    (0, 1) => w << (z & 31),
                    (0, 5) => w >> (z & 31),
                    (0x20, 5) => (sw >> (z & 31)) as u32,
                    (1, 0) => w.wrapping_mul(z),
                    (1, 4) => {
                        if sz == 0 {
                            u32::MAX
                        } else {
                            sw.wrapping_div(sz) as u32
                        }
                    }
                    (1, 5) => w.checked_div(z).unwrap_or(u32::MAX),
                    (1, 6) => {
                        if sz == 0 {
                            w
                        } else {
                            sw.wrapping_rem(sz) as u32
                        }
                    }
                    (1, 7) => w.checked_rem(z).unwrap_or(w),
                    _ => {
                        self.o.cat = Cat::Illegal;
                        return self.illegal();
                    }
                };
                self.s.set(rd, r as i32 as i64 as u64);
            }
            0x0f => {
                self.o.cat = Cat::Int;
                if f3 > 1 {
                    self.o.cat = Cat::Illegal;
                    return self.illegal();
                }
            }
            0x2f => self.amo(i)?,
            0x73 if f3 == 0 => self.system(i)?,
            0x73 if f3 != 4 => self.csr_inst(i)?,
            _ => {
                self.o.cat = Cat::Illegal;
                return self.illegal();
            }
        }
        Ok(())
    }

    fn amo(&mut self, i: u32) -> R<()> {
        self.o.cat = Cat::Amo;
        let rd = bits(i, 11, 7) as usize;
        let rs1 = bits(i, 19, 15) as usize;
        let rs2 = bits(i, 24, 20) as usize;
        let n = match (bits(i, 14, 12), self.s.rv64) {
            (2, _) => 4u64,
            (3, true) => 8,
            _ => {
                self.o.cat = Cat::Illegal;
                return self.illegal();
            }
        };
        let f5 = bits(i, 31, 27);
        let va = self.s.x[rs1];
        let b = self.s.x[rs2];
        let w = 8 * n as u32;
        let plain = |r: Reg| matches!(r, Reg::Dram | Reg::Rom | Reg::None);
        match f5 {
            2 => {
                if rs2 != 0 {
                    return self.unspec("lr with rs2");
                }
                if let Some(r) = self.s.resv.as_mut() {
                    r.shaky = true; // kept only if this one faults
                }
                let pa = self.daddr(va, n, Acc::Load)?;
                match dev::region(self.s.base, pa) {
                    Reg::Dram | Reg::Rom => (),
                    Reg::None => return self.access_fault(Acc::Load, va, pa),
                    _ => return self.unspec("lr to device"),
                }
                let v = self.m.read(pa, n);
                self.s.set(rd, sext(v, w));
                self.s.resv = Some(Resv { pa, va: va & self.s.xm(), size: n, shaky: false });
            }
            3 => {
                let r = self.s.resv;
                let t = self.s.translate(self.m, va, n, Acc::Store);
                if let Tr::Ok(pa) = t {
                    if !plain(dev::region(self.s.base, pa)) {
                        return self.unspec("sc to device");
                    }
                }
                let same = |pa: u64| r.map_or(false, |r| r.pa == pa);
                let sure = |pa: u64| r.map_or(false, |r| r.pa == pa && r.size == n && !r.shaky && r.va == va & self.s.xm());
                // would the access fault if it were performed?
                let okpa = match t {
                    Tr::Ok(pa) if va % n == 0 && dev::region(self.s.base, pa) == Reg::Dram => Some(pa),
                    Tr::Unspec(w) => return self.unspec(w),
                    _ => None,
                };
                match okpa {
                    Some(pa) => {
                        let hit = self.s.trigger(va, n, Acc::Store, true);
                        if hit == Hit::Yes && sure(pa) || hit != Hit::No && self.p.of(2) == 1 {
                            let a = if let Hit::Maybe(a) = hit { a } else { 0 };
                            if let Some(r) = self.s.resv.as_mut() {
                                r.shaky = true;
                            }
                            return self.trap(3, vec![va & self.s.xm(), 0, a]);
                        }
                        self.o.pa = Some(pa);
                        self.o.dev = Some(Reg::Dram);
                        self.o.translated |= self.s.vm_on(self.s.eff_prv(Acc::Store));
                        let succeed = if sure(pa) {
                            true
                        } else if same(pa) {
                            self.p.of(2) == 0
                        } else {
                            false
                        };
                        self.s.resv = None;
                        if succeed {
                            self.o.atomic_note = "sc-ok";
                            self.o.writes.push((pa, n, b));
                            self.s.set(rd, 0);
                        } else {
                            self.o.atomic_note = "sc-fail";
                            // any non-zero value
                            self.o.adopt_rd = Some((rd, 0));
                        }
                    }
                    None => {
                        // it may fault, or (without a reservation) fail quietly
                        let quiet = match t {
                            Tr::Ok(pa) => !sure(pa),
                            _ => true,
                        };
                        if quiet && va % n == 0 && self.p.of(2) == 1 {
                            self.o.atomic_note = "sc-fail";
                            self.s.resv = None;
                            self.o.adopt_rd = Some((rd, 0));
                            return Ok(());
                        }
                        if let Some(r) = self.s.resv.as_mut() {
                            r.shaky = true;
                        }
                        let pa = self.daddr(va, n, Acc::Store)?;
                        return self.access_fault(Acc::Store, va, pa);
                    }
                }
            }
            0 | 1 | 4 | 8 | 12 | 16 | 20 | 24 | 28 => {
                let pa = self.daddr(va, n, Acc::Store)?;
                match dev::region(self.s.base, pa) {
                    Reg::Dram => (),
                    Reg::Rom | Reg::None => return self.access_fault(Acc::Store, va, pa),
                    _ => return self.unspec("amo to device"),
                }
                let old = sext(self.m.read(pa, n), w);
                let sb = sext(b, w);
                let um = if n == 8 { u64::MAX } else { 0xffff_ffff };
                let (uo, ub) = (old & um, b & um);
                let (so, ss) = (old as i64, sb as i64);
                let new = match f5 {
                    1 => sb,
                    0 => old.wrapping_add(sb),
                    4 => old ^ sb,
                    12 => old & sb,
                    8 => old | sb,
                    16 => so.min(ss) as u64,
                    20 => so.max(ss) as u64,
                    24 => uo.min(ub),
                    _ => uo.max(ub),
                };
                self.store_pa(va, pa, n, new)?;
                self.s.set(rd, old);
            }
            _ => {
                self.o.cat = Cat::Illegal;
                return self.illegal();
            }
        }
        Ok(())
    }

    fn system(&mut self, i: u32) -> R<()> {
        self.o.cat = Cat::Sys;
        match i {
            0x0000_0073 => {
                let c = 8 + self.s.prv as u64;
                self.trap(c, vec![0])
            }
            0x0010_0073 => {
                let pc = self.s.pc.wrapping_sub(self.o.len) & self.s.xm();
                self.trap(3, vec![pc, 0])
            }
            0x3020_0073 => {
                self.o.cat = Cat::Xret;
                if self.s.prv < 3 {
                    return self.illegal();
                }
                let mpp = (self.s.mstatus >> 11 & 3) as u8;
                let pie = self.s.mstatus & MPIE != 0;
                self.s.mstatus &= !(MIE | MPP);
                if pie {
                    self.s.mstatus |= MIE;
                }
                self.s.mstatus |= MPIE;
                self.s.prv = mpp;
                if mpp != 3 {
                    self.o.adopt_mprv = true;
                }
                self.s.pc = self.s.mepc & !1;
                Ok(())
            }
            0x1020_0073 => {
                self.o.cat = Cat::Xret;
                if self.s.prv < 1 || (self.s.prv == 1 && self.s.mstatus & TSR != 0) {
                    return self.illegal();
                }
                let spp = (self.s.mstatus >> 8 & 1) as u8;
                let pie = self.s.mstatus & SPIE != 0;
                self.s.mstatus &= !(SIE | SPP);
                if pie {
                    self.s.mstatus |= SIE;
                }
                self.s.mstatus |= SPIE;
                self.s.prv = spp;
                self.o.adopt_mprv = true;
                self.s.pc = self.s.sepc & !1;
                Ok(())
            }
            0x1050_0073 => {
                let may_trap = self.s.prv == 0 || (self.s.prv == 1 && self.s.mstatus & TW != 0);
                if may_trap && self.p.of(2) == 1 {
                    return self.illegal();
                }
                Ok(())
            }
            _ if bits(i, 31, 25) == 9 && bits(i, 11, 7) == 0 => {
                if self.s.prv == 0 || (self.s.prv == 1 && self.s.mstatus & TVM != 0) {
                    return self.illegal();
                }
                Ok(())
            }
            _ if bits(i, 31, 25) == 9 => self.unspec("sfence with rd"),
            _ => {
                self.o.cat = Cat::Illegal;
                self.illegal()
            }
        }
    }

    // ---------------------------------------------------------------- CSR
    /// A register the model has nothing to say about: it exists or not, and
    /// holds whatever it likes, but it is not a way to anything else.
    fn other_csr(&mut self, rd: usize) -> R<()> {
        if self.p.of(2) == 1 {
            return self.illegal();
        }
        self.o.adopt_rd = Some((rd, 0));
        Ok(())
    }
    fn csr_inst(&mut self, i: u32) -> R<()> {
        self.o.cat = Cat::Csr;
        let n = bits(i, 31, 20);
        let f3 = bits(i, 14, 12);
        let rd = bits(i, 11, 7) as usize;
        let r1 = bits(i, 19, 15) as usize;
        self.o.csr = Some(n);
        let src = if f3 & 4 != 0 { r1 as u64 } else { self.s.x[r1] };
        let op = f3 & 3;
        let write = op == 1 || r1 != 0;
        if (n >> 8 & 3) as u8 > self.s.prv {
            return self.illegal();
        }
        if n >> 10 == 3 && write {
            return self.illegal();
        }
        if n == 0x180 && self.s.prv == 1 && self.s.mstatus & TVM != 0 {
            return self.illegal();
        }
        if (0xc00..=0xc1f).contains(&n) || (0xc80..=0xc9f).contains(&n) && !self.s.rv64 {
            let bit = 1 << (n & 31);
            if self.s.prv < 3 && self.s.mcounteren & bit == 0 {
                return self.illegal();
            }
            if self.s.prv < 1 && self.s.scounteren & bit == 0 {
                return self.illegal();
            }
        }
        // read: value, and which bits of it are specified
        let xm = self.s.xm();
        let (old, mask) = match n {
            0x300 => {
                let mut v = self.s.mstatus;
                let mut m = MST;
                if self.s.rv64 {
                    v |= 0xa_0000_0000;
                    m |= 0xf_0000_0000;
                }
                (v, m)
            }
            0x100 => {
                let mut v = self.s.mstatus & SST;
                let mut m = MST;
                if self.s.rv64 {
                    v |= 0x2_0000_0000;
                    m |= 0xf_0000_0000;
                }
                (v, m)
            }
            0x304 => (self.s.mie, MIRQ),
            0x104 => {
                let f = if self.p.of(2) == 0 { SIRQ } else { SIRQ & self.s.mideleg };
                (self.s.mie & f, MIRQ)
            }
            0x344 => (self.s.mip(), MIRQ),
            0x144 => {
                let f = if self.p.of(2) == 0 { SIRQ } else { SIRQ & self.s.mideleg };
                (self.s.mip() & f, MIRQ)
            }
            0x302 => (self.s.medeleg, MEDELEG_OK),
            0x303 => (self.s.mideleg, MIRQ),
            0x305 => (self.s.mtvec, xm),
            0x105 => (self.s.stvec, xm),
            0x306 => (self.s.mcounteren, 7),
            0x106 => (self.s.scounteren, 7),
            0x340 => (self.s.mscratch, xm),
            0x140 => (self.s.sscratch, xm),
            0x341 => (self.s.mepc, xm),
            0x141 => (self.s.sepc, xm),
            0x342 => (self.s.mcause, xm),
            0x142 => (self.s.scause, xm),
            0x343 => (self.s.mtval, xm),
            0x143 => (self.s.stval, xm),
            // how many ASID bits there are is the hart's choice
            0x180 => (self.s.satp, xm & !(if self.s.rv64 { 0xffff << 44 } else { 0x1ff << 22 })),
            0x3a0..=0x3a3 => {
                if self.s.rv64 && n & 1 == 1 {
                    return self.other_csr(rd);
                }
                (self.s.pmp_reg(n as usize), xm)
            }
            0x3b0..=0x3bf => (self.s.pmpaddr[n as usize & 15], xm),
            0x7a0 => (self.s.tsel as u64, xm),
            0x7a1 => {
                self.s.t1_reg()
            }
            0x7a2 => (self.s.t2[self.s.tsel], xm),
            0xc01 => (self.s.mtime & xm, xm),
            0xc81 if !self.s.rv64 => (self.s.mtime >> 32, xm),
            // what is counted is the machine's choice
            0xc00..=0xc1f => (0, 0),
            0xc80..=0xc9f if !self.s.rv64 => (0, 0),
            0xf14 => (0, xm),
            0x301 => (if self.s.rv64 { 2 << 62 } else { 1 << 30 } | 0x14_1105, xm),
            0xf11 | 0xf12 | 0xf13 => (0, 0),
            _ => return self.other_csr(rd),
        };
        self.s.set(rd, old);
        if rd != 0 && mask != xm {
            self.o.adopt_rd = Some((rd, mask));
        }
        if !write {
            return Ok(());
        }
        // fields the machine may keep to itself must not be touched
        let new = match op {
            1 => src,
            2 => old | src,
            _ => old & !src,
        } & xm;
        match n {
            0x300 => {
                let mpp = match op {
                    1 => src & MPP,
                    _ => new & MPP,
                };
                self.s.mstatus = new & MST;
                if mpp == 2 << 11 {
                    self.o.adopt_mpp = true;
                }
            }
            0x100 => self.s.mstatus = self.s.mstatus & !SST | new & SST,
            0x304 => self.s.mie = new & MIRQ,
            0x104 => {
                let f = if self.p.of(2) == 0 { SIRQ } else { SIRQ & self.s.mideleg };
                self.s.mie = self.s.mie & !f | new & f;
            }
            0x344 => {
                // only SSIP is software's to write here. MEIP, MTIP and MSIP
                // are read-only; what M-mode may inject through SEIP and STIP,
                // which this machine derives from its devices, is left open.
                if op != 3 && src & (1 << 5 | 1 << 9) != 0 {
                    return self.unspec("mip.SEIP or mip.STIP written");
                }
                self.s.ssip = new >> 1 & 1 == 1;
            }
            0x144 => {
                let f = if self.s.mideleg & 2 != 0 || self.p.of(2) == 0 { 2 } else { 0 };
                if f != 0 {
                    self.s.ssip = new >> 1 & 1 == 1;
                }
            }
            0x302 => {
                // the other bits stand for nothing
                self.s.medeleg = new & MEDELEG_OK;
            }
            0x303 => {
                // machine level interrupts need not be delegable
                let can = if new & MIRQ & !SIRQ != 0 && self.p.of(2) == 1 { SIRQ } else { MIRQ };
                self.s.mideleg = new & can;
            }
            0x305 | 0x105 => {
                if new & 2 != 0 {
                    return self.unspec("tvec mode");
                }
                if n == 0x305 {
                    self.s.mtvec = new
                } else {
                    self.s.stvec = new
                }
            }
            0x306 => self.s.mcounteren = new & 0xffff_ffff,
            0x106 => self.s.scounteren = new & 0xffff_ffff,
            0x340 => self.s.mscratch = new,
            0x140 => self.s.sscratch = new,
            0x341 => self.s.mepc = new & !1,
            0x141 => self.s.sepc = new & !1,
            0x342 => self.s.mcause = new,
            0x142 => self.s.scause = new,
            0x343 => self.s.mtval = new,
            0x143 => self.s.stval = new,
            0x180 => {
                if self.s.rv64 {
                    if new >> 60 != 0 && new >> 60 != 8 {
                        // the hart does not have that mode: no effect
                        return Ok(());
                    }
                }
                self.s.satp = new;
            }
            // which extensions there are is fixed
            0x301 => (),
            0x3a0..=0x3a3 => {
                let i0 = 4 * (n as usize & 3);
                for k in 0..if self.s.rv64 { 8 } else { 4 } {
                    let b = (new >> (8 * k)) as u8 & 0x9f;
                    if self.s.pmpcfg[i0 + k] & 0x80 != 0 {
                        continue;
                    }
                    if b & 3 == 2 {
                        return self.unspec("reserved protection");
                    }
                    self.s.pmpcfg[i0 + k] = b;
                }
            }
            0x3b0..=0x3bf => {
                let i = n as usize & 15;
                let tor = i < 15 && self.s.pmpcfg[i + 1] & 0x98 == 0x88;
                if self.s.pmpcfg[i] & 0x80 == 0 && !tor {
                    self.s.pmpaddr[i] = new & if self.s.rv64 { (1 << 54) - 1 } else { u64::MAX };
                }
            }
            0x7a0 => {
                if new < NTRIG as u64 {
                    self.s.tsel = new as usize
                } else if self.p.of(2) == 1 {
                    self.s.tsel = new as usize % NTRIG
                }
            }
            0x7a1 => {
                let ty = if self.s.rv64 { 60 } else { 28 };
                match new >> ty & 15 {
                    0 => self.s.t1[self.s.tsel] = 0,
                    2 if new & !(15 << ty | T1_OK) == 0 => self.s.t1[self.s.tsel] = new,
                    _ => return self.unspec("trigger kind"),
                }
            }
            0x7a2 => self.s.t2[self.s.tsel] = new,
            _ => (),
        }
        Ok(())
    }

    // ------------------------------------------------------------- 16 bit
    /// Compressed instructions are expanded to their 32-bit equivalents, which
    /// is how the manual defines them.
    fn exec16(&mut self, pc: u64, c: u32) -> R<()> {
        let rv64 = self.s.rv64;
        let op = c & 3;
        let f3 = bits(c, 15, 13);
        let rdp = bits(c, 4, 2) + 8;
        let rsp = bits(c, 9, 7) + 8;
        let rd = bits(c, 11, 7);
        let rs2 = bits(c, 6, 2);
        let imm6 = (sext((bits(c, 12, 12) << 5 | bits(c, 6, 2)) as u64, 6) as u32) & 0xfff;
        let sh6 = bits(c, 12, 12) << 5 | bits(c, 6, 2);
        let itype = |imm: u32, rs1: u32, f3: u32, rd: u32, opc: u32| (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | opc;
        let stype = |imm: u32, rs2: u32, rs1: u32, f3: u32| (imm >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23;
        let rtype = |f7: u32, rs2: u32, rs1: u32, f3: u32, rd: u32, opc: u32| f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | opc;
        let jtype = |o: u32, rd: u32| {
            (o >> 20 & 1) << 31 | (o >> 1 & 0x3ff) << 21 | (o >> 11 & 1) << 20 | (o >> 12 & 0xff) << 12 | rd << 7 | 0x6f
        };
        let btype = |o: u32, rs1: u32, f3: u32| {
            (o >> 12 & 1) << 31 | (o >> 5 & 0x3f) << 25 | rs1 << 15 | f3 << 12 | (o >> 1 & 15) << 8 | (o >> 11 & 1) << 7 | 0x63
        };
        if c & 0xffff == 0 {
            self.o.cat = Cat::Illegal;
            return self.illegal();
        }
        let cw = bits(c, 5, 5) << 6 | bits(c, 12, 10) << 3 | bits(c, 6, 6) << 2;
        let cd = bits(c, 6, 5) << 6 | bits(c, 12, 10) << 3;
        let cj = sext(
            (bits(c, 12, 12) << 11
                | bits(c, 11, 11) << 4
                | bits(c, 10, 9) << 8
                | bits(c, 8, 8) << 10
                | bits(c, 7, 7) << 6
                | bits(c, 6, 6) << 7
                | bits(c, 5, 3) << 1
                | bits(c, 2, 2) << 5) as u64,
            12,
        ) as u32;
        let cb = sext(
            (bits(c, 12, 12) << 8 | bits(c, 11, 10) << 3 | bits(c, 6, 5) << 6 | bits(c, 4, 3) << 1 | bits(c, 2, 2) << 5) as u64,
            9,
        ) as u32;
        let big: u32 = match (op, f3) {
            (0, 0) => {
                let imm = bits(c, 10, 7) << 6 | bits(c, 12, 11) << 4 | bits(c, 5, 5) << 3 | bits(c, 6, 6) << 2;
                if imm == 0 {
                    return self.unspec("reserved c.addi4spn");
                }
                itype(imm, 2, 0, rdp, 0x13)
            }
            (0, 2) => itype(cw, rsp, 2, rdp, 0x03),
            (0, 3) if rv64 => itype(cd, rsp, 3, rdp, 0x03),
            (0, 6) => stype(cw, rdp, rsp, 2),
            (0, 7) if rv64 => stype(cd, rdp, rsp, 3),
            (1, 0) => itype(imm6, rd, 0, rd, 0x13),
            (1, 1) if rv64 => {
                if rd == 0 {
                    return self.unspec("reserved c.addiw");
                }
                itype(imm6, rd, 0, rd, 0x1b)
            }
            (1, 1) => jtype(cj, 1),
            (1, 2) => itype(imm6, 0, 0, rd, 0x13),
            (1, 3) if rd == 2 => {
                let imm = sext(
                    (bits(c, 12, 12) << 9 | bits(c, 4, 3) << 7 | bits(c, 5, 5) << 6 | bits(c, 2, 2) << 5 | bits(c, 6, 6) << 4) as u64,
                    10,
                ) as u32;
                if imm == 0 {
                    return self.unspec("reserved c.addi16sp");
                }
                itype(imm, 2, 0, 2, 0x13)
            }
            (1, 3) => {
                if sh6 == 0 {
                    return self.unspec("reserved c.lui");
                }
                (sext(sh6 as u64, 6) as u32) << 12 | rd << 7 | 0x37
            }
            (1, 4) => match bits(c, 11, 10) {
                0 | 1 => {
                    if !rv64 && sh6 > 31 {
                        return self.unspec("reserved shift");
                    }
                    let top = if bits(c, 11, 10) == 1 { 0x400 } else { 0 };
                    itype(top | sh6, rsp, 5, rsp, 0x13)
                }
                2 => itype(imm6, rsp, 7, rsp, 0x13),
                _ => match (bits(c, 12, 12), bits(c, 6, 5)) {
                    (0, 0) => rtype(0x20, rdp, rsp, 0, rsp, 0x33),
                    (0, 1) => rtype(0, rdp, rsp, 4, rsp, 0x33),
                    (0, 2) => rtype(0, rdp, rsp, 6, rsp, 0x33),
                    (0, 3) => rtype(0, rdp, rsp, 7, rsp, 0x33),
                    (1, 0) if rv64 => rtype(0x20, rdp, rsp, 0, rsp, 0x3b),
                    (1, 1) if rv64 => rtype(0, rdp, rsp, 0, rsp, 0x3b),
                    _ => {
                        self.o.cat = Cat::Illegal;
                        return self.illegal();
                    }
                },
            },
            (1, 5) => jtype(cj, 0),
            (1, 6) => btype(cb, rsp, 0),
            (1, 7) => btype(cb, rsp, 1),
            (2, 0) => {
                if !rv64 && sh6 > 31 {
                    return self.unspec("reserved shift");
                }
                itype(sh6, rd, 1, rd, 0x13)
            }
            (2, 2) => {
                if rd == 0 {
                    return self.unspec("reserved c.lwsp");
                }
                itype(bits(c, 3, 2) << 6 | bits(c, 12, 12) << 5 | bits(c, 6, 4) << 2, 2, 2, rd, 0x03)
            }
            (2, 3) if rv64 => {
                if rd == 0 {
                    return self.unspec("reserved c.ldsp");
                }
                itype(bits(c, 4, 2) << 6 | bits(c, 12, 12) << 5 | bits(c, 6, 5) << 3, 2, 3, rd, 0x03)
            }
            (2, 4) => match (bits(c, 12, 12), rd, rs2) {
                (0, 0, 0) => return self.unspec("reserved c.jr"),
                (0, _, 0) => itype(0, rd, 0, 0, 0x67),
                (0, _, _) => rtype(0, rs2, 0, 0, rd, 0x33),
                (_, 0, 0) => 0x0010_0073,
                (_, _, 0) => itype(0, rd, 0, 1, 0x67),
                _ => rtype(0, rs2, rd, 0, rd, 0x33),
            },
            (2, 6) => stype(bits(c, 8, 7) << 6 | bits(c, 12, 9) << 2, rs2, 2, 2),
            (2, 7) if rv64 => stype(bits(c, 9, 7) << 6 | bits(c, 12, 10) << 3, rs2, 2, 3),
            _ => {
                self.o.cat = Cat::Illegal;
                return self.illegal();
            }
        };
        self.exec32(pc, big, 2)
    }
}
