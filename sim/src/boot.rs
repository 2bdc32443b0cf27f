//! Start-up: images of many shapes, host failures while loading them, and what
//! the guest finds in memory, registers and the device tree afterwards.
use crate::elf::{Image, Seg};
use crate::host;
use crate::mach::{self, GB2};
use crate::plan::{op, Op, Source};
use crate::report::{viol, Report, Viol};
use crate::rng::{mix, Rng};
use crate::{cli, dev, fdt};
use carron::sim::Observe;
use carron::Emulator;
use std::cell::RefCell;

const KERNEL: &str = "/sim-image/kernel";
const INITRD: &str = "/sim-image/initrd";
const INITRD_END: u64 = 0xffff_f000;

struct Boot {
    rep: Report,
    rv64: bool,
    base: u64,
    init_pc: Option<u64>,
    /// the image is only shown
    show: bool,
    /// the emulator has to refuse to start, and why
    must_stop: Option<String>,
    /// it may refuse to start
    may_stop: bool,
    /// contents expected in memory: (address, bytes)
    parts: Vec<(u64, Vec<u8>)>,
    judge_memory: bool,
    initrd: Option<(u64, u64)>,
    started: bool,
    n: u64,
    dtb_at: u64,
    shadow: *mut u8,
    dram: *mut u8,
}

thread_local! {
    static CUR: RefCell<Option<Boot>> = const { RefCell::new(None) };
}

fn fill(seed: u64, n: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    // never zero, so that a missing or displaced byte shows
    (0..n).map(|_| (r.u64() >> 9) as u8 | 1).collect()
}

fn make(r: &mut Rng, base: u64) -> Vec<Op> {
    let mut v = vec![];
    let n = r.range(1, 5);
    let small = |r: &mut Rng| *r.pick(&[1u64, 2, 4, 7, 16, 100, 4095, 4096, 4097, 9000]);
    if r.chance(1, 5) {
        // something that is not loaded comes first
        v.push(op("seg", &[r.below(64) << 12, small(r), small(r), *r.pick(&[4u64, 2, 6, 0x6474_e551, 0x7000_0003]), 0, r.u64()]));
    }
    let vd = if r.chance(1, 3) { *r.pick(&[0xffff_ffff_0000_0000u64.wrapping_sub(base), 0x4000_0000, !0xfff]) } else { 0 };
    for i in 0..n {
        let f = if r.chance(1, 10) { 0 } else { small(r) };
        let m = f + if r.chance(1, 2) { small(r) } else { 0 };
        let off = if i == 0 {
            0
        } else {
            match r.below(12) {
                0 => GB2 as u64 - f,
                1 => GB2 as u64 - m,
                2 => 0x20_0000 - f,
                3 => 0x40_0000 - f,
                4 => r.below(0x10_0000) + 0x800_0000,
                5 => r.below(0x7000_0000),
                6 if r.chance(1, 3) => GB2 as u64 - f + 1,
                6 if r.chance(1, 2) => GB2 as u64 + 0x1000,
                7 if r.chance(1, 3) => 0u64.wrapping_sub(0x1000),
                _ => r.range(1, 40) << 14 | r.below(0x1000),
            }
        };
        let ty = if i > 0 && r.chance(1, 8) { 4 } else { 1 };
        v.push(op("seg", &[off, f, m, ty, vd, r.u64()]));
    }
    if r.chance(1, 2) {
        let n = if r.chance(1, 12) { 0 } else { *r.pick(&[1u64, 511, 4096, 4097, 70_000]) };
        v.push(op("kernel", &[n, r.u64()]));
    }
    if r.chance(1, 2) {
        let n = if r.chance(1, 12) { 0 } else { *r.pick(&[1u64, 513, 4095, 4096, 4097, 50_001]) };
        v.push(op("initrd", &[n, r.u64()]));
    }
    v
}

fn hook(emu: &mut Emulator) -> bool {
    CUR.with(|c| {
        let mut g = c.borrow_mut();
        let b = g.as_mut().unwrap();
        if !b.started {
            b.prepare(emu);
        }
        match b.step(emu) {
            Ok(stop) => stop,
            Err(m) => {
                b.rep.viol = Some(m);
                true
            }
        }
    })
}

fn v(class: &str, m: String) -> Viol {
    viol(class, &["C19", "C20"], m)
}

pub fn run(mut src: Source) -> Report {
    let rv64 = src.param("rv64", |r| r.chance(3, 5) as u64) != 0;
    let base = src.param("base", |r| match r.below(12) {
        0 => 0x8020_0000,
        1 => 0x4000_0000,
        2 => 0x8000_1000,
        3 if rv64 => 0x1_0000_0000,
        _ => 0x8000_0000,
    });
    let strip = src.param("strip", |r| r.chance(1, 6) as u64) != 0;
    let ph_end = src.param("phend", |r| r.chance(1, 6) as u64) != 0;
    let cover = src.param("cover", |r| r.chance(1, 5) as u64) != 0;
    let align = src.param("align", |r| *r.pick(&[1u64, 16, 4, 4096]));
    let extra_secs = src.param("secs", |r| if r.chance(1, 12) { *r.pick(&[1u64, 30, 1100, 1700]) } else { 0 });
    let extra_ph = src.param("phs", |r| if r.chance(1, 12) { *r.pick(&[1u64, 9, 1171, 2100]) } else { 0 });
    let init_pc = src.param("pc", |r| match r.below(12) {
        // one more than the address
        0 => base + 4 * r.below(64) + 1,
        1 => *r.pick(&[1u64, 0x1001, 0x8000_0001, 0x1_0001, 0xffff_fffd]),
        _ => 0,
    });
    let fault = src.param("fault", |r| if r.chance(2, 5) { 1 + r.below(5) } else { 0 });
    let which = src.param("which", |r| r.below(3));
    let fval = src.param("fval", |r| r.u64());
    let cli_seed = src.param("cli", |r| r.u64());
    let mut todo: Option<Vec<Op>> = None;
    let mut ops = vec![];
    while let Some(o) = src.next(|r| {
        let t = todo.get_or_insert_with(|| {
            let mut v = make(r, base);
            v.reverse();
            v
        });
        t.pop()
    }) {
        ops.push(o);
    }

    let mut img = Image {
        rv64,
        strip,
        ph_end,
        cover,
        align: align as usize,
        extra_secs: extra_secs as usize,
        extra_ph: extra_ph as usize,
        sec_order: (cli_seed >> 40) % 8,
        syms: vec![("_start".into(), base), ("main".into(), base + 4)],
        ..Default::default()
    };
    let (mut kernel, mut initrd) = (None, None);
    for o in &ops {
        let a = |i: usize| o.arg(i);
        match o.k.as_str() {
            "seg" => img.segs.push(Seg {
                paddr: base.wrapping_add(a(0)) & if rv64 { !0 } else { u32::MAX as u64 },
                data: fill(a(5), a(1).min(1 << 20)),
                memsz: a(2).max(a(1)),
                ptype: a(3) as u32,
                vdelta: a(4),
            }),
            "kernel" => kernel = Some(fill(a(1), a(0).min(1 << 20))),
            "initrd" => initrd = Some(fill(a(1), a(0).min(1 << 20))),
            _ => (),
        }
    }
    let lay = img.layout();
    let mut b = Boot {
        rep: Report::default(),
        rv64,
        base,
        init_pc: init_pc.checked_sub(1),
        show: false,
        must_stop: None,
        may_stop: false,
        parts: vec![],
        judge_memory: true,
        initrd: None,
        started: false,
        n: 0,
        dtb_at: 0,
        shadow: std::ptr::null_mut(),
        dram: std::ptr::null_mut(),
    };
    // what has to come of it
    let top = base.wrapping_add(GB2 as u64);
    let mut ranges: Vec<(u64, u64)> = vec![];
    match img.segs.iter().find(|s| s.ptype == 1) {
        None => b.must_stop = Some("the image has nothing to load".into()),
        Some(s) => assert!(s.paddr == base || src.replay),
    }
    if let Some(s) = img.segs.iter().find(|s| s.ptype == 1) {
        b.base = s.paddr;
    }
    for (s, r) in img.segs.iter().zip(&lay.segs).filter(|(s, _)| s.ptype == 1) {
        let d = lay.bytes[r.0..r.1].to_vec();
        let n = d.len() as u64;
        let mem = s.memsz.max(n);
        if n > 0 && (s.paddr < b.base || s.paddr.checked_add(n).map_or(true, |e| e > top)) {
            b.must_stop = Some("a segment lies outside memory".into());
            continue;
        }
        if n == 0 && !(b.base..=top).contains(&s.paddr) || s.paddr.wrapping_add(mem) > top {
            b.may_stop = true;
        }
        ranges.push((s.paddr, s.paddr.wrapping_add(mem)));
        b.parts.push((s.paddr, d));
    }
    // the command line
    let mut cr = Rng::new(cli_seed);
    let mut cmd = cli::Cmd {
        image: "/sim-image/guest".into(),
        kernel: kernel.as_ref().map(|_| KERNEL.to_string()),
        initrd: initrd.as_ref().map(|_| INITRD.to_string()),
        pc: b.init_pc.map(|p| match cr.below(4) {
            0 => format!("{p:x}"),
            1 => format!("{p:X}"),
            2 => format!("0x{p:016x}"),
            _ => format!("0x{p:x}"),
        }),
        ..Default::default()
    };
    let decoy = Image { rv64: !rv64, segs: vec![Seg { paddr: base, data: fill(cli_seed, 300), memsz: 300, ptype: 1, vdelta: 0 }], align: 16, ..Default::default() };
    if cr.chance(1, 4) {
        cmd.pk = Some("/sim-image/pk".into());
        host::set_image(&cmd.image, host::Image { data: decoy.build(), ..Default::default() });
    }
    for _ in 0..*cr.pick(&[0, 0, 0, 1, 4]) {
        cmd.args.push(cr.pick(&["x", "/sim-image/kernel", "--initrd", "/sim-image/other", "-e", "80000000"]).to_string());
    }
    // files that are there but were not asked for
    for p in [KERNEL, INITRD, "/sim-image/other"] {
        host::set_image(p, host::Image { data: fill(!cli_seed, 5000), ..Default::default() });
    }
    if cr.chance(1, 16) {
        cmd.show = Some(*cr.pick(cli::SHOW));
        b.show = true;
        b.may_stop = true;
    } else if cr.chance(1, 24) {
        cmd.pc = Some(cr.pick(&["", "0x", "zz", "80000000h", "0x0x80000000", "+80000000", "0x+80001000", "-1", "1_0", "0x1 ", "10000000000000000", "0x8000.0"]).to_string());
        b.must_stop = Some("the entry address is malformed".into());
    }
    let loaded = cmd.loaded().to_string();
    let mut bytes = lay.bytes.clone();
    if cr.chance(1, 30) {
        let i = cr.below(4) as usize;
        bytes[i] ^= 1 << cr.below(8);
        b.must_stop = Some("the image is not an ELF file".into());
    }
    let mut files = vec![(loaded.as_str(), Some(bytes)), (KERNEL, kernel.clone()), (INITRD, initrd.clone())];
    if let Some(k) = &kernel {
        let at = b.base + if rv64 { 0x20_0000 } else { 0x40_0000 };
        ranges.push((at, at + k.len() as u64));
        b.parts.push((at, k.clone()));
        b.may_stop |= k.is_empty();
    }
    if let Some(k) = &initrd {
        let at = INITRD_END - k.len() as u64;
        if (at < b.base || INITRD_END > top) && !k.is_empty() {
            b.must_stop = Some("the ramdisk does not fit".into());
        } else {
            b.initrd = Some((at, INITRD_END));
            ranges.push((at, INITRD_END));
            b.parts.push((at, k.clone()));
        }
        b.may_stop |= k.is_empty();
    }
    ranges.sort();
    if ranges.windows(2).any(|w| w[0].1 > w[1].0 && w[1].0 < w[1].1) {
        // overlapping pieces: nothing says which one is to win
        b.judge_memory = false;
        b.may_stop = true;
    }
    if b.base >= 1 << 32 {
        b.may_stop = true;
    }
    if !rv64 && top > 1 << 32 {
        // memory beyond what 32-bit addresses reach
        b.may_stop |= ranges.iter().any(|r| r.1 > 1 << 32);
    }
    // the failure
    let w = which as usize % 3;
    let mut cut = false;
    if fault != 0 {
        if let (path, Some(d)) = &mut files[w] {
            let mut i = host::Image { data: d.clone(), ..Default::default() };
            let errno = |l: &[i32]| l[fval as usize % l.len()];
            let name = match fault {
                1 => {
                    i.open_errno = errno(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM, libc::ELOOP]);
                    b.must_stop = Some(format!("{path} cannot be opened"));
                    "open"
                }
                2 => {
                    i.mmap_errno = errno(&[libc::ENOMEM, libc::EACCES, libc::ENODEV, libc::EAGAIN]);
                    b.may_stop = true;
                    "mmap"
                }
                3 => {
                    i.stat_errno = errno(&[libc::EIO, libc::EOVERFLOW, libc::ENOMEM]);
                    b.may_stop = true;
                    "stat"
                }
                4 => {
                    i.read_errno = errno(&[libc::EIO, libc::EISDIR]);
                    b.may_stop = true;
                    "read"
                }
                _ if w == 0 => {
                    // the host has only the beginning of the image
                    let k = match fval >> 32 & 3 {
                        0 => fval % d.len() as u64,
                        1 => (lay.need as u64).saturating_sub(1 + fval % 64),
                        2 => lay.need as u64 + fval % (d.len() as u64 - lay.need as u64 + 1),
                        _ => fval % (lay.need as u64 + 1),
                    };
                    i.cut = Some(k);
                    cut = true;
                    if k < lay.need as u64 {
                        b.must_stop = Some(format!("{path} ends after {k} of {} bytes", d.len()));
                    } else {
                        b.may_stop = true;
                    }
                    "truncation"
                }
                _ => "none",
            };
            if name != "none" {
                b.rep.add(&format!("fault:load-{name}"), 1);
            }
            host::set_image(path, i);
            files[w].1 = None;
        }
    }
    for (p, d) in &files {
        if let Some(d) = d {
            host::set_image(p, host::Image { data: d.clone(), ..Default::default() });
        }
    }
    let mut sig = mix(rv64 as u64, base);
    for x in [strip as u64, ph_end as u64, cover as u64, extra_secs.min(2), extra_ph.min(2), fault, which, kernel.is_some() as u64, initrd.is_some() as u64, b.must_stop.is_some() as u64] {
        sig = mix(sig, x);
    }
    b.rep.sig(mix(sig, img.segs.len() as u64));
    let _ = cut;
    if cr.chance(1, 40) && b.must_stop.is_none() {
        cmd.image = "/sim-image/missing".into();
        if cmd.pk.is_none() {
            b.must_stop = Some("there is no such image".into());
        }
    }
    CUR.with(|c| *c.borrow_mut() = Some(b));
    cli::set_argv(&cmd.argv(cli_seed));
    carron::sim::set_step_hook(Some(hook));
    cli::go();
    carron::sim::set_step_hook(None);
    let seen = CUR.with(|c| c.borrow().as_ref().map_or(false, |b| b.started || b.rep.viol.is_some()));
    if seen {
        return CUR.with(|c| c.borrow_mut().take().unwrap().rep);
    }
    stopped("it returned")
}

/// The emulator ended without running anything.
pub fn stopped(how: &str) -> Report {
    let b = CUR.with(|c| match c.try_borrow_mut() {
        Ok(mut g) => g.take(),
        Err(_) => None,
    });
    let Some(mut b) = b else {
        let mut r = Report::default();
        r.viol = Some(viol("harness", &["*"], format!("HARNESS boot ended early: {how}")));
        return r;
    };
    if b.started {
        b.rep.viol = Some(v("boot-died", format!("the emulator ended while starting the guest: {how}")));
    } else if b.must_stop.is_none() && !b.may_stop {
        b.rep.viol = Some(v("boot-refused", format!("nothing is wrong with the image, but the emulator ended: {how}")));
    } else {
        b.rep.add("seen:refused-to-start", 1);
        let why = b.must_stop.as_deref().unwrap_or("may");
        let why: String = why.split(' ').filter(|w| !w.starts_with('/') && !w.ends_with(|c: char| c.is_ascii_digit())).collect::<Vec<_>>().join("-");
        b.rep.add(&format!("seen:refused-{why}"), 1);
        b.rep.add("seen:shown", b.show as u64);
        if b.show && std::env::var_os("SIM_SHOW").is_some() {
            b.rep.add(&format!("seen:shown: {how}"), 1);
        }
    }
    b.rep
}

impl Boot {
    fn prepare(&mut self, emu: &mut Emulator) {
        self.shadow = mach::shadow();
        self.dram = mach::find_dram(emu, self.base).unwrap_or(std::ptr::null_mut());
        for (at, d) in &self.parts {
            for (i, x) in d.iter().enumerate() {
                let o = at.wrapping_add(i as u64).wrapping_sub(self.base);
                if o < GB2 as u64 {
                    unsafe { *self.shadow.add(o as usize) = *x };
                }
            }
        }
    }

    fn step(&mut self, emu: &mut Emulator) -> Result<bool, Viol> {
        let pc = emu.cpu.pc();
        if !self.started {
            self.started = true;
            let rom: Vec<u8> = mach::rom_bytes(emu);
            self.rep.notes.push(format!("boot memory {:x}", crate::runner::bytes_hash(&rom)));
            if self.show {
                return Err(v("boot-shown", "the image was to be shown, but the guest is executed".into()));
            }
            if let Some(why) = &self.must_stop {
                return Err(v("boot-started", format!("the emulator runs the guest though {why}")));
            }
            self.rep.add("seen:started", 1);
            self.rep.add(&format!("seen:{}", if self.rv64 { "rv64" } else { "rv32" }), 1);
            self.memory(emu)?;
            if let Some(p) = self.init_pc {
                if pc != p {
                    return Err(v("boot-pc", format!("the first instruction is at {pc:#x}, asked for {p:#x}")));
                }
                if emu.cpu.privilege() != 3 {
                    return Err(v("boot-privilege", "the guest does not start in machine mode".into()));
                }
                // the ROM is there all the same
                self.rom(emu, dev::ROM + 32)?;
                return Ok(true);
            }
        }
        if pc == self.base {
            if emu.cpu.privilege() != 3 {
                return Err(v("boot-privilege", "the image is not entered in machine mode".into()));
            }
            let x: Vec<u64> = (0..32).map(|i| emu.cpu.regs.read(Some(i))).collect();
            let (a0, a1) = (x[10], x[11]);
            if a0 != emu.cpu.csr(0xf14) || a0 != 0 {
                return Err(v("boot-hartid", format!("a0 is {a0:#x} at the first image instruction")));
            }
            self.dtb_at = a1;
            self.rom(emu, a1)?;
            self.memory(emu)?;
            self.rep.add("sim:instructions", self.n);
            self.rep.hash = x.iter().fold(self.n, |h, v| mix(h, *v));
            self.rep.notes.push(format!("memory {:x}", mach::memory_hash(self.dram)));
            return Ok(true);
        }
        self.n += 1;
        if self.n > 16 {
            return Err(v("boot-entry", format!("the image at {:#x} is not entered, the hart is at {pc:#x}", self.base)));
        }
        Ok(false)
    }

    fn memory(&mut self, emu: &mut Emulator) -> Result<(), Viol> {
        if !self.judge_memory {
            self.rep.add("skip:overlapping pieces", 1);
            return Ok(());
        }
        let bus = |emu: &mut Emulator, a: u64| emu.cpu.bus.load8(a).ok().map(|b| b as u8);
        let (base, last) = (self.base, self.base + GB2 as u64 - 1);
        if bus(emu, last).is_none() || bus(emu, base).is_none() || bus(emu, last + 1).is_some() || bus(emu, base - 1).is_some() {
            return Err(v("boot-memory-size", format!("memory does not span {base:#x} to {last:#x}")));
        }
        for (at, d) in &self.parts {
            let n = d.len() as u64;
            let step = (n / 64).max(1);
            let mut i = 0;
            while i < n {
                if bus(emu, at + i) != Some(d[i as usize]) {
                    return Err(v(
                        "boot-memory",
                        format!("byte {i:#x} of the {n:#x} bytes loaded at {at:#x} reads {:02x?}, the file has {:#04x}", bus(emu, at + i), d[i as usize]),
                    ));
                }
                i += if i + 1 < n { step.min(n - 1 - i) } else { 1 };
            }
        }
        if self.dram.is_null() {
            panic!("HARNESS cannot locate guest memory");
        }
        if let Some(o) = mach::compare_all(self.dram, self.shadow) {
            let (g, w) = unsafe { (*self.dram.add(o), *self.shadow.add(o)) };
            return Err(v("boot-memory", format!("memory at {:#x} is {g:#04x} after loading, expected {w:#04x}", base + o as u64)));
        }
        Ok(())
    }

    fn rom(&mut self, emu: &mut Emulator, at: u64) -> Result<(), Viol> {
        let mut b = vec![];
        let mut a = at;
        while let Ok(x) = emu.cpu.bus.load8(a) {
            b.push(x as u8);
            a += 1;
            if b.len() > 1 << 16 {
                break;
            }
        }
        if at % 8 != 0 {
            return Err(v("boot-dtb", format!("the device tree address {at:#x} is not aligned")));
        }
        self.tree(emu, &b).map_err(|m| v("boot-dtb", m))
    }

    fn tree(&mut self, emu: &mut Emulator, b: &[u8]) -> Result<(), String> {
        let t = fdt::parse(b)?;
        let root = &t.root;
        let all = root.all();
        let one = |what: &str, f: &dyn Fn(&fdt::Node) -> bool| -> Result<&fdt::Node, String> {
            let m: Vec<_> = all.iter().filter(|n| f(n)).collect();
            match m[..] {
                [n] => Ok(*n),
                _ => Err(format!("the device tree has {} {what} nodes", m.len())),
            }
        };
        let parent = |n: &fdt::Node| all.iter().find(|p| p.kids.iter().any(|k| k.path == n.path)).copied().unwrap();
        let unit = |n: &fdt::Node, a: u64| -> Result<(), String> {
            match n.name.split_once('@').map(|x| u64::from_str_radix(x.1, 16)) {
                Some(Ok(u)) if u == a => Ok(()),
                _ => Err(format!("{} is at {a:#x}", n.path)),
            }
        };
        let mut handles = vec![];
        for n in &all {
            if n.prop("phandle").is_some() {
                let h = n.cell("phandle")?;
                if h == 0 || h == u32::MAX || handles.contains(&h) {
                    return Err(format!("phandle {h:#x} of {}", n.path));
                }
                handles.push(h);
            }
            if let Some(s) = n.prop("status") {
                if s != b"okay\0" && s != b"ok\0" {
                    return Err(format!("{} is not enabled", n.path));
                }
            }
        }
        // memory
        let m = one("memory", &|n| n.is("device_type", "memory"))?;
        let r = m.reg(root)?;
        if r != [(self.base, GB2 as u64)] {
            return Err(format!("memory is described as {r:x?}, the guest has {:#x} bytes at {:#x}", GB2, self.base));
        }
        unit(m, self.base)?;
        // the hart
        let cpu = one("cpu", &|n| n.is("device_type", "cpu"))?;
        let cpus = parent(cpu);
        if cpu.reg(cpus)? != [(0, 0)] || t.cpuid != 0 {
            return Err("the hart is not number 0".into());
        }
        let isa = if self.rv64 { "rv64imac" } else { "rv32imac" };
        if !cpu.strs("riscv,isa")?.first().map_or(false, |s| s.split('_').next() == Some(isa)) {
            return Err(format!("the hart is described as {:?}, it is {isa}", cpu.strs("riscv,isa")));
        }
        let mmu = if self.rv64 { "riscv,sv39" } else { "riscv,sv32" };
        if cpu.strs("mmu-type")? != [mmu] {
            return Err(format!("the translation mode is described as {:?}, it is {mmu}", cpu.strs("mmu-type")?));
        }
        if !cpu.is("compatible", "riscv") {
            return Err("the hart is not compatible with riscv".into());
        }
        let tb = if cpus.prop("timebase-frequency").is_some() { cpus.num("timebase-frequency")? } else { cpu.num("timebase-frequency")? };
        let cf = cpu.num("clock-frequency")?;
        if tb == 0 || cf != tb * 100 {
            return Err(format!("time base {tb} Hz and clock {cf} Hz, one tick takes 100 instructions"));
        }
        for (p, want) in [("riscv,pmpregions", 16), ("riscv,pmpgranularity", 4)] {
            if cpu.prop(p).is_some() && cpu.cell(p)? != want {
                return Err(format!("{p} of the hart is {}, not {want}", cpu.cell(p)?));
            }
        }
        let intc = one("cpu-intc", &|n| n.is("compatible", "riscv,cpu-intc"))?;
        if parent(intc).path != cpu.path || intc.prop("interrupt-controller").is_none() || intc.cell("#interrupt-cells")? != 1 {
            return Err("the hart's interrupt controller is not described".into());
        }
        let ih = intc.cell("phandle")?;
        // devices
        let dev = |compat: &str, at: u64, lo: u64, hi: u64| -> Result<&fdt::Node, String> {
            let n = one(compat, &|n| n.is("compatible", compat))?;
            let p = parent(n);
            if p.path != "/" && !(p.is("compatible", "simple-bus") && p.prop("ranges") == Some(&[])) {
                return Err(format!("{} cannot be reached through {}", n.path, p.path));
            }
            match n.reg(p)?[..] {
                [(a, s)] if a == at && s >= lo && s <= hi => (),
                ref r => return Err(format!("{compat} is described at {r:x?}, it is at {at:#x}")),
            }
            unit(n, at)?;
            Ok(n)
        };
        let clint = dev("riscv,clint0", dev::CLINT, 0xc000, 0x100_0000)?;
        if clint.cells("interrupts-extended")? != [ih, 3, ih, 7] {
            return Err(format!("CLINT interrupts {:x?}", clint.cells("interrupts-extended")?));
        }
        let plic = dev("riscv,plic0", dev::PLIC, 0x20_2000, 0x400_0000)?;
        if plic.cells("interrupts-extended")? != [ih, 11, ih, 9] {
            return Err(format!("PLIC contexts {:x?}", plic.cells("interrupts-extended")?));
        }
        if plic.prop("interrupt-controller").is_none() || plic.cell("#interrupt-cells")? != 1 {
            return Err("the PLIC is not described as an interrupt controller".into());
        }
        if plic.cell("riscv,ndev")? != 31 {
            return Err(format!("the PLIC has 31 sources, not {}", plic.cell("riscv,ndev")?));
        }
        let ph = plic.cell("phandle")?;
        let uart = dev("ns16550a", dev::UART, 8, 0x1000)?;
        let irq = uart.cell("interrupts")?;
        let ip = if uart.prop("interrupt-parent").is_some() { uart.cell("interrupt-parent")? } else { parent(uart).cell("interrupt-parent")? };
        if ip != ph {
            return Err("the serial port's interrupts do not go to the PLIC".into());
        }
        for (p, want) in [("reg-shift", 0), ("reg-io-width", 1)] {
            if uart.prop(p).is_some() && uart.cell(p)? != want {
                return Err(format!("{p} of the serial port is {}", uart.cell(p)?));
            }
        }
        // start-up parameters
        let ch = one("chosen", &|n| n.path == "/chosen")?;
        let sp = ch.strs("stdout-path")?;
        let path = sp.first().map_or("", |s| s.split(':').next().unwrap());
        let alias = all.iter().find(|n| n.path == "/aliases").and_then(|n| n.strs(path).ok());
        let path = alias.and_then(|a| a.first().cloned()).unwrap_or(path.to_string());
        if path != uart.path {
            return Err(format!("stdout-path is {sp:?}, the serial port is {}", uart.path));
        }
        let get = |n: &str| if ch.prop(n).is_some() { ch.num(n) } else { Ok(0) };
        let got = (get("linux,initrd-start")?, get("linux,initrd-end")?);
        let want = self.initrd.unwrap_or((0, 0));
        if got != want && !(got.0 == got.1 && want.0 == want.1) {
            return Err(format!("the ramdisk is described at {got:x?}, it is at {want:x?}"));
        }
        self.rep.add("seen:device-trees-read", 1);
        // and the devices answer where the tree says
        let bus = &mut emu.cpu.bus;
        if bus.load_u8(dev::UART + 5).ok().map(|v| v & 0x60) != Some(0x60) {
            return Err("no serial port answers there".into());
        }
        if bus.load64(dev::CLINT + 0xbff8).is_err() || bus.load64(dev::CLINT + 0x4000).is_err() {
            return Err("no CLINT answers there".into());
        }
        let pl = |o: u64| dev::PLIC + o;
        if plic.prop("riscv,max-priority").is_some() {
            let want = plic.cell("riscv,max-priority")? as u64;
            let old = bus.load32(pl(4)).unwrap_or(0);
            let _ = bus.store32(pl(4), !0);
            let got = bus.load32(pl(4)).unwrap_or(!0);
            let _ = bus.store32(pl(4), old);
            if got != want {
                return Err(format!("the highest priority is described as {want}, the PLIC keeps {got}"));
            }
        }
        let claim = |bus: &mut carron::bus::Bus| -> Option<u64> {
            for (a, x) in [(4 * irq as u64, 1), (0x2000, 1 << irq), (0x20_0000, 0)] {
                bus.store32(pl(a), x).ok()?;
            }
            bus.store8(dev::UART + 1, 2).ok()?;
            let c = bus.load32(pl(0x20_0004)).ok()?;
            bus.store8(dev::UART + 1, 0).ok()?;
            bus.store32(pl(0x20_0004), c).ok()?;
            for a in [4 * irq as u64, 0x2000] {
                bus.store32(pl(a), 0).ok()?;
            }
            Some(c)
        };
        let c = claim(bus);
        if c != Some(irq as u64) || irq == 0 {
            return Err(format!("the serial port's interrupt is described as {irq}, the PLIC hands out {c:?}"));
        }
        Ok(())
    }
}
