//! Building an emulator inside the simulated host, and direct views of its
//! guest memory for comparison.
use crate::{cli, elf, host};
use carron::cmdline::{Arguments, ExeOption};
use carron::elfload::ElfLoader;
use carron::Emulator;

pub const GB2: usize = 0x8000_0000;

pub fn guest(rv64: bool, base: u64, syms: &[(&str, u64)]) -> elf::Image {
    elf::Image {
        rv64,
        segs: vec![elf::Seg { paddr: base, data: vec![0x13, 0, 0, 0], memsz: 4, ptype: 1, vdelta: 0 }],
        align: 16,
        syms: syms.iter().map(|(n, v)| (n.to_string(), *v)).collect(),
        ..Default::default()
    }
}

/// An emulator for this image, from the command line on.
pub fn emulator(img: &elf::Image, c: &cli::Cmd, style: u64) -> Emulator {
    host::set_image(c.loaded(), host::Image { data: img.build(), ..Default::default() });
    cli::set_argv(&c.argv(style));
    boot(Arguments::new()).expect("HARNESS nothing to run")
}

/// What the main program does with its arguments.
pub fn boot(a: Arguments) -> Option<Emulator> {
    let path = a.pk_path.as_ref().unwrap_or(&a.filename);
    let l = match ElfLoader::try_new(path) {
        Ok(l) => l,
        Err(e) => panic!("There was a problem opening the file: {e:?}"),
    };
    if !l.is_elf() {
        panic!("This file is not an ELF.");
    }
    match a.exe_option {
        ExeOption::OPT_DEFAULT => Some(Emulator::new(l, a)),
        _ => None,
    }
}

/// Anonymous, lazily populated memory that the kernel will not merge with the
/// emulator's own.
pub fn shadow() -> *mut u8 {
    unsafe {
        let g = 1 << 16;
        let p = libc::mmap(
            std::ptr::null_mut(),
            GB2 + 2 * g,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "shadow mmap");
        let q = (p as *mut u8).add(g);
        assert_eq!(libc::mprotect(q as *mut libc::c_void, GB2, libc::PROT_READ | libc::PROT_WRITE), 0);
        q
    }
}

fn resident(p: *const u8, n: usize) -> Option<Vec<u8>> {
    let a = p as usize & !4095;
    let end = (p as usize + n + 4095) & !4095;
    let mut v = vec![0u8; (end - a) >> 12];
    let r = unsafe { libc::mincore(a as *mut libc::c_void, end - a, v.as_mut_ptr()) };
    (r == 0).then_some(v)
}

/// The eight bytes at p, if they can be read at all.
fn peek(p: *const u8) -> Option<u64> {
    let mut fds = [0i32; 2];
    let mut b = [0u8; 8];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            panic!("HARNESS pipe");
        }
        let mut n = libc::syscall(libc::SYS_write, fds[1], p, 8usize);
        if n == 8 {
            n = libc::syscall(libc::SYS_read, fds[0], b.as_mut_ptr(), 8usize);
        }
        libc::syscall(libc::SYS_close, fds[0]);
        libc::syscall(libc::SYS_close, fds[1]);
        (n == 8).then(|| u64::from_le_bytes(b))
    }
}

/// Find the guest memory of the emulator: the one pointer in the memory
/// device's own fields whose bytes follow stores made over the bus.
pub fn find_dram(emu: &mut Emulator, base: u64) -> Option<*mut u8> {
    let n = std::mem::size_of_val(&emu.cpu.bus.dram) / 8;
    let words: Vec<u64> = unsafe {
        let p = &emu.cpu.bus.dram as *const _ as *const u64;
        (0..n).map(|i| std::ptr::read_volatile(p.add(i))).collect()
    };
    let probe = base + 0x7000_1238;
    let was = emu.cpu.bus.load64(probe).ok()?;
    for w in words {
        if w < 0x1_0000_0000 || w >> 47 != 0 || resident(w as *const u8, GB2).is_none() {
            continue;
        }
        let q = unsafe { (w as *mut u8).add((probe - base) as usize) };
        let mut ok = true;
        for v in [0x1122_3344_5566_7788u64, 0xfedc_ba98_7654_3210, was] {
            emu.cpu.bus.store64(probe, v).ok()?;
            // the word may be anything, unused padding with an old address too
            ok = ok && peek(q) == Some(v);
        }
        if ok {
            return Some(w as *mut u8);
        }
    }
    None
}

/// First address where the two memories differ.
pub fn compare_all(a: *const u8, b: *const u8) -> Option<usize> {
    let ra = resident(a, GB2)?;
    let rb = resident(b, GB2)?;
    let bytes = |p: *const u8, o: usize, n: usize| unsafe { std::slice::from_raw_parts(p.add(o), n) };
    let check = |o: usize, n: usize| -> Option<usize> {
        let (x, y) = (bytes(a, o, n), bytes(b, o, n));
        if x == y {
            return None;
        }
        (0..n).find(|i| x[*i] != y[*i]).map(|i| o + i)
    };
    let offa = a as usize & 4095;
    let offb = b as usize & 4095;
    let mut best = None;
    for (r, off) in [(&ra, offa), (&rb, offb)] {
        for (i, f) in r.iter().enumerate() {
            if f & 1 == 0 {
                continue;
            }
            let s = (i << 12).saturating_sub(off);
            let e = (((i + 1) << 12) - off).min(GB2);
            if s >= e {
                continue;
            }
            if let Some(d) = check(s, e - s) {
                if best.map_or(true, |b| d < b) {
                    best = Some(d);
                }
            }
        }
    }
    best
}

/// Hash of everything in guest memory that is not zero.
pub fn memory_hash(p: *const u8) -> u64 {
    let mut h = 0;
    if let Some(r) = resident(p, GB2) {
        let off = p as usize & 4095;
        for (i, f) in r.iter().enumerate() {
            let s = (i << 12).saturating_sub(off);
            let e = (((i + 1) << 12) - off).min(GB2);
            if f & 1 == 0 || s >= e {
                continue;
            }
            let b = unsafe { std::slice::from_raw_parts(p.add(s), e - s) };
            for (j, w) in b.iter().enumerate() {
                if *w != 0 {
                    h = crate::rng::mix(h, (s + j) as u64) ^ *w as u64;
                }
            }
        }
    }
    h
}

/// Give the other memory the same content (used once at start).
pub fn copy_resident(from: *const u8, to: *mut u8) {
    if let Some(r) = resident(from, GB2) {
        let off = from as usize & 4095;
        for (i, f) in r.iter().enumerate() {
            if f & 1 == 0 {
                continue;
            }
            let s = (i << 12).saturating_sub(off);
            let e = (((i + 1) << 12) - off).min(GB2);
            unsafe {
                let src = std::slice::from_raw_parts(from.add(s), e - s);
                if src.iter().any(|b| *b != 0) {
                    std::ptr::copy_nonoverlapping(src.as_ptr(), to.add(s), e - s);
                }
            }
        }
    }
}

pub fn rom_bytes(emu: &mut Emulator) -> Vec<u8> {
    (0..4096u64).map(|i| emu.cpu.bus.load8(0x1000 + i).map(|v| v as u8).unwrap_or(0)).collect()
}
