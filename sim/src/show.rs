//! The options that show an image instead of running it: images of many shapes,
//! host failures while loading and printing, and what was printed about them.
use crate::host;
use crate::plan::{op, opb, Op, Source};
use crate::report::{viol, Report, Viol};
use crate::rng::{mix, Rng};
use crate::cli;
use carron::Emulator;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Num(u64),
    Bytes(Vec<u8>),
    Name(String),
}

/// One instruction of a section, or the rest of it that is none.
struct Line {
    enc: Vec<u8>,
    tail: bool,
    /// mnemonic and operands, if the encoding has a meaning
    text: Option<(String, Vec<Opd>)>,
}

#[derive(Clone, PartialEq, Debug)]
enum Opd {
    Reg(u32),
    Imm(i64),
    /// either of two ways to write it
    Imm2(i64, i64),
}

enum Body {
    None,
    Words(Vec<u8>),
    Code(Vec<Line>),
}

struct Block {
    kind: &'static str,
    id: u64,
    fields: Vec<(&'static str, Val)>,
    body: Body,
}

struct Show {
    rep: Report,
    want: Vec<Block>,
    /// why the emulator may end before it has shown everything
    may_stop: bool,
    /// there has to be nothing shown
    must_stop: Option<String>,
    judge: bool,
}

thread_local! {
    static CUR: RefCell<Option<Show>> = const { RefCell::new(None) };
}

fn v(class: &str, m: String) -> Viol {
    viol(class, &["C24"], m)
}

fn p(out: &mut Vec<u8>, x: u64, n: usize) {
    out.extend_from_slice(&x.to_le_bytes()[..n])
}

const NAMES: &[&str] = &[".text", "", ".init", ".text.unlikely", ".data", "code_1", ".bss", ".strtab", ".symtab", "x"];

/// An instruction with a meaning more often than not.
fn word(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    if r.chance(1, 3) {
        let mut h = r.u64() as u16;
        if h & 3 == 3 {
            h ^= 1 << r.below(2);
        }
        p(&mut b, h as u64, 2);
        return b;
    }
    let mut w = r.u64() as u32;
    if r.chance(7, 8) {
        let opc = *r.pick(&[0x37u32, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x13, 0x33, 0x33, 0x33, 0x0f, 0x73, 0x73, 0x1b, 0x3b, 0x3b, 0x2f, 0x2f]);
        w = w & !0x7f | opc;
        match opc {
            0x33 | 0x3b => w = w & 0x01ff_ffff | *r.pick(&[0u32, 0x20, 1, 1]) << 25,
            0x13 | 0x1b if w >> 12 & 3 == 1 => w = w & 0x03ff_ffff | *r.pick(&[0u32, 0x10]) << 26,
            0x2f => {
                w = w & !0x7000 | r.range(2, 3) as u32 as u32 * 0x1000;
                let f5 = *r.pick(&[2u32, 3, 1, 0, 4, 0xc, 8, 0x10, 0x14, 0x18, 0x1c]);
                w = w & 0x07ff_ffff | f5 << 27;
                if f5 == 2 {
                    w &= !(0x1f << 20);
                }
            }
            0x67 => w &= !0x7000,
            0x73 if r.chance(1, 2) => w = *r.pick(&[0x73u32, 0x0010_0073, 0x1020_0073, 0x3020_0073, 0x1050_0073, 0x1200_0073 | (w & 0x01ff_8000)]),
            _ => (),
        }
    }
    w |= 3;
    if w & 0x1f == 0x1f {
        w &= !4;
    }
    p(&mut b, w as u64, 4);
    b
}

fn code(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..*r.pick(&[0u64, 1, 3, 8, 20]) {
        b.extend(word(r));
    }
    if r.chance(1, 6) {
        for _ in 0..r.range(1, 3) {
            b.push(r.u64() as u8);
        }
        // a long encoding makes no promise about what follows it
        let n = b.len();
        if b[n - 1] & 0x1f == 0x1f {
            b[n - 1] &= !4;
        }
    }
    b
}

fn make(r: &mut Rng, rv64: bool) -> Vec<Op> {
    let a = |r: &mut Rng| if rv64 { r.val() } else { r.val() & 0xffff_ffff };
    let mut v = vec![];
    for _ in 0..r.below(5) {
        let n = *r.pick(&[0u64, 1, 2, 3, 4, 5, 8, 31, 32, 33, 64, 100]);
        let m = n + if r.chance(1, 2) { *r.pick(&[1u64, 4, 32, 5000, 0x10_0000]) } else { 0 };
        v.push(op("seg", &[*r.pick(&[1u64, 1, 1, 4, 6, 0, 2, 3, 5, 7, 0x6474_e551, 0x7000_0003]), r.below(8), n, m, a(r), a(r), a(r), r.u64()]));
    }
    for _ in 0..r.below(6) {
        let x = r.chance(3, 4);
        let fl = r.u64() & if rv64 { 0xf000_0ff3 } else { 0xff3 } & if r.chance(1, 3) { !0 } else { 3 } | if x { 4 } else { 0 };
        let (ty, b) = match r.below(8) {
            0 => (8, vec![]),
            1 => (*r.pick(&[3u64, 7, 9, 4, 0, 2, 5, 6, 10, 11, 14, 15, 0x6fff_fff6, 0x7000_0003]), code(r)),
            _ => (1, code(r)),
        };
        let n = if ty == 8 { r.below(5000) } else { b.len() as u64 };
        v.push(opb("sec", &[ty, fl, a(r), n, r.u64() & 0xff, r.u64() & 0xffff_ffff, 1 << r.below(13), *r.pick(&[0u64, 0, 8, 16, 24, 300, 0x1_0001]), r.below(NAMES.len() as u64), r.u64()], &b));
    }
    v
}

fn hook(_emu: &mut Emulator) -> bool {
    CUR.with(|c| {
        let mut g = c.borrow_mut();
        let s = g.as_mut().unwrap();
        s.rep.viol = Some(v("show-runs", "asked to show the image, the emulator started to run it".into()));
        true
    })
}

pub fn run(mut src: Source) -> Report {
    let rv64 = src.param("rv64", |r| r.chance(1, 2) as u64) != 0;
    let head = src.param("head", |r| r.u64());
    let style = src.param("cli", |r| r.u64());
    let opt = src.param("opt", |r| r.below(cli::SHOW.len() as u64)) as usize % cli::SHOW.len();
    let fault = src.param("fault", |r| if r.chance(1, 8) { r.range(1, 5) } else { 0 });
    let outf = src.param("outf", |r| if r.chance(1, 2) { r.range(1, 8) } else { 0 });
    let fval = src.param("fval", |r| r.u64());
    let mut todo: Option<Vec<Op>> = None;
    let mut ops = vec![];
    while let Some(o) = src.next(|r| {
        let t = todo.get_or_insert_with(|| {
            let mut v = make(r, rv64);
            v.reverse();
            v
        });
        t.pop()
    }) {
        ops.push(o);
    }
    // the file: header, tables and contents in some order
    let mut r = Rng::new(head);
    let w = if rv64 { 8 } else { 4 };
    let (ehs, phs, shs) = if rv64 { (64, 56, 64) } else { (52, 32, 40) };
    let phent = phs + if r.chance(1, 6) { 8 } else { 0 };
    let shent = shs + if r.chance(1, 6) { 16 } else { 0 };
    let segs: Vec<&Op> = ops.iter().filter(|o| o.k == "seg").collect();
    let secs: Vec<&Op> = ops.iter().filter(|o| o.k == "sec").collect();
    let strip = secs.is_empty() && r.chance(1, 3);
    let shnum = if strip { 0 } else { secs.len() + 2 };
    // the string table's place among the sections
    let stri = if strip { 0 } else { 1 + r.below(secs.len() as u64 + 1) as usize };
    let tables_first = r.chance(1, 2);
    let align = *r.pick(&[1usize, 2, 4, 16]);
    let mut strtab = vec![0u8];
    let mut name_at = BTreeMap::new();
    for n in NAMES.iter().chain(&[".shstrtab"]) {
        name_at.insert(*n, strtab.len() as u64);
        strtab.extend_from_slice(n.as_bytes());
        strtab.push(0);
    }
    // a name can be the end of another
    name_at.insert("x", name_at[".text"] + 3);
    let name_of = |i: u64| if NAMES[i as usize % NAMES.len()] == "x" { "xt" } else { NAMES[i as usize % NAMES.len()] };
    let mut at = ehs + if tables_first { phent * segs.len() + shent * shnum } else { 0 };
    let body_start = at;
    let mut body = vec![];
    let mut put = |d: &[u8], at: &mut usize| {
        while *at % align != 0 {
            body.push(0);
            *at += 1;
        }
        let o = *at;
        body.extend_from_slice(d);
        *at += d.len();
        o
    };
    let str_first = r.chance(1, 2);
    let mut str_off = 0;
    if str_first {
        str_off = put(&strtab, &mut at);
    }
    let mut places = vec![];
    for o in &ops {
        let d = if o.k == "seg" {
            let mut q = Rng::new(o.arg(7));
            (0..o.arg(2).min(1 << 16)).map(|_| (q.u64() >> 9) as u8 & if q.chance(1, 4) { 0 } else { 0xff }).collect()
        } else {
            o.b.clone()
        };
        places.push((put(&d, &mut at), d));
    }
    if !str_first {
        str_off = put(&strtab, &mut at);
    }
    let tables_at = if tables_first { ehs } else { at };
    let (phoff, shoff) = if r.chance(1, 2) { (tables_at, tables_at + phent * segs.len()) } else { (tables_at + shent * shnum, tables_at) };
    let shoff = if strip { 0 } else { shoff };
    let mut file = vec![];
    let mut want: Vec<Block> = vec![];
    let ident = [0x7f, b'E', b'L', b'F', if rv64 { 2 } else { 1 }, 1, 1, r.below(4) as u8, r.below(3) as u8, 0, 0, 0, 0, r.below(2) as u8, 0, r.u64() as u8];
    file.extend_from_slice(&ident);
    let n = |x: u64| Val::Num(x);
    let mut h = vec![("magic", Val::Bytes(ident.to_vec())), ("class", n(ident[4] as u64)), ("endian", n(1)), ("version", n(1)), ("os_abi", n(ident[7] as u64)), ("os_abi_ver", n(ident[8] as u64))];
    let addr = |r: &mut Rng| r.val() & if rv64 { !0 } else { 0xffff_ffff };
    let ety = *r.pick(&[2u64, 2, 3, 1, 4, 0, 0xfe00]);
    let vals = [
        ("e_type", ety, 2),
        ("e_machine", r.u64() & 0xffff, 2),
        ("e_version", r.u64() & 0xffff_ffff, 4),
        ("e_entry", addr(&mut r), w),
        ("e_phoff", phoff as u64, w),
        ("e_shoff", shoff as u64, w),
        ("e_flags", r.u64() & 0xffff_ffff, 4),
        ("e_ehsize", ehs as u64, 2),
        ("e_phentsize", phent as u64, 2),
        ("e_phnum", segs.len() as u64, 2),
        ("e_shentsize", shent as u64, 2),
        ("e_shnum", shnum as u64, 2),
        ("e_shstrndx", stri as u64, 2),
    ];
    for (k, x, sz) in vals {
        p(&mut file, x, sz);
        if k == "e_type" {
            if x < 5 {
                h.push((k, Val::Name(["ET_NONE", "ET_REL", "ET_EXEC", "ET_DYN", "ET_CORE"][x as usize].into())));
            }
        } else {
            h.push((k, n(x)));
        }
    }
    assert_eq!(file.len(), ehs);
    want.push(Block { kind: "elf", id: 0, fields: h, body: Body::None });
    // program headers
    let mut pht = vec![];
    for (i, (o, (off, d))) in ops.iter().zip(&places).filter(|(o, _)| o.k == "seg").enumerate() {
        let a = |i: usize| o.arg(i) & if rv64 { !0 } else { 0xffff_ffff };
        let fsz = d.len() as u64;
        let msz = a(3).max(fsz);
        let s = pht.len();
        let off = *off as u64;
        if rv64 {
            for (x, sz) in [(a(0), 4), (a(1), 4), (off, 8), (a(4), 8), (a(5), 8), (fsz, 8), (msz, 8), (a(6), 8)] {
                p(&mut pht, x, sz);
            }
        } else {
            for x in [a(0), off, a(4), a(5), fsz, msz, a(1), a(6)] {
                p(&mut pht, x, 4);
            }
        }
        pht.resize(s + phent, 0xaa);
        let mut f = vec![("p_offset", n(off)), ("p_vaddr", n(a(4))), ("p_paddr", n(a(5))), ("p_filesz", n(fsz)), ("p_memsz", n(msz)), ("p_flags", n(a(1))), ("p_align", n(a(6)))];
        if a(0) < 8 {
            f.push(("p_type", Val::Name(["PT_NULL", "PT_LOAD", "PT_DYNAMIC", "PT_INTERP", "PT_NOTE", "PT_SHLIB", "PT_PHDR", "PT_TLS"][a(0) as usize].into())));
        }
        want.push(Block { kind: "program", id: i as u64 + 1, fields: f, body: Body::Words(d.clone()) });
    }
    // section headers: the empty one, the string table, and the others around it
    let mut sht = vec![];
    let mut id = 0;
    let mut sect = |name: &str, at: u64, x: [u64; 9], d: &[u8], want: &mut Vec<Block>| {
        let [ty, fl, addr, off, size, link, info, al, ent] = x;
        let s = sht.len();
        for (x, sz) in [(at, 4), (ty, 4), (fl, w), (addr, w), (off, w), (size, w), (link, 4), (info, 4), (al, w), (ent, w)] {
            p(&mut sht, x, sz);
        }
        sht.resize(s + shent, 0xbb);
        id += 1;
        let mut f = vec![
            ("sh_name", Val::Name(name.into())),
            ("sh_flags", n(fl)),
            ("sh_addr", n(addr)),
            ("sh_offset", n(off)),
            ("sh_size", n(size)),
            ("sh_link", n(link)),
            ("sh_info", n(info)),
            ("sh_addralign", n(al)),
            ("sh_entsize", n(ent)),
        ];
        const TY: &[&str] = &["NULL", "PROGBITS", "SYMTAB", "STRTAB", "RELA", "HASH", "DYNAMIC", "NOTE", "NOBITS", "REL", "SHLIB", "DYNSYM", "", "", "INIT_ARRAY", "FINI_ARRAY"];
        if let Some(t) = TY.get(ty as usize).filter(|t| !t.is_empty()) {
            f.push(("sh_type", Val::Name(format!("SHT_{t}"))));
        }
        let b = if fl & 4 != 0 { Body::Code(disasm(d, rv64)) } else { Body::None };
        want.push(Block { kind: "section", id, fields: f, body: b });
    };
    if !strip {
        sect("", 0, [0; 9], &[], &mut want);
        let st = [3, 0, 0, str_off as u64, strtab.len() as u64, 0, 0, 1, 0];
        let mut k = 1;
        for (o, (off, d)) in ops.iter().zip(&places).filter(|(o, _)| o.k == "sec") {
            if k == stri {
                sect(".shstrtab", name_at[".shstrtab"], st, &[], &mut want);
            }
            k += 1;
            let m = |x: u64| x & if rv64 { !0 } else { 0xffff_ffff };
            let name = name_of(o.arg(8));
            let na = name_at[NAMES[o.arg(8) as usize % NAMES.len()]];
            let size = if o.arg(0) == 8 { o.arg(3) } else { d.len() as u64 };
            sect(name, na, [o.arg(0), m(o.arg(1)), m(o.arg(2)), *off as u64, size, o.arg(4), o.arg(5), m(o.arg(6)), m(o.arg(7))], d, &mut want);
        }
        if k == stri {
            sect(".shstrtab", name_at[".shstrtab"], st, &[], &mut want);
        }
    }
    let mut tables = vec![0u8; pht.len() + sht.len()];
    tables[phoff - tables_at..][..pht.len()].copy_from_slice(&pht);
    if !strip {
        tables[shoff - tables_at..][..sht.len()].copy_from_slice(&sht);
    }
    if tables_first {
        file.extend_from_slice(&tables);
        assert_eq!(file.len(), body_start);
        file.extend_from_slice(&body);
    } else {
        file.extend_from_slice(&body);
        assert_eq!(file.len(), tables_at);
        file.extend_from_slice(&tables);
    }
    // what was asked for
    let o = cli::SHOW[opt];
    match o {
        "-e" | "--elfhead" => want.truncate(1),
        "-p" | "--program" => want.retain(|b| b.kind == "program"),
        "-a" | "--all" => want.iter_mut().for_each(|b| b.body = Body::None),
        _ => want.retain(|b| matches!(b.body, Body::Code(_))),
    }
    let mut cr = Rng::new(style);
    let mut cmd = cli::Cmd { image: "/sim-image/guest".into(), show: Some(o), ..Default::default() };
    if cr.chance(1, 6) {
        cmd.pk = Some("/sim-image/pk".into());
        let decoy = crate::elf::Image { rv64: !rv64, align: 16, syms: vec![("a".into(), 1)], ..Default::default() };
        host::set_image(&cmd.image, host::Image { data: decoy.build(), ..Default::default() });
    }
    if cr.chance(1, 8) {
        cmd.args.push("x".into());
    }
    let mut s = Show { rep: Report::default(), want, may_stop: false, must_stop: None, judge: true };
    if cr.chance(1, 40) {
        file[cr.below(4) as usize] ^= 1 << cr.below(8);
        s.must_stop = Some("the image is not an ELF file".into());
    }
    let mut img = host::Image { data: file.clone(), ..Default::default() };
    let errno = |l: &[i32]| l[fval as usize % l.len()];
    let mut name = "";
    match fault {
        1 => {
            img.open_errno = errno(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM]);
            s.must_stop = Some("the image cannot be opened".into());
            name = "open";
        }
        2 => {
            img.mmap_errno = errno(&[libc::ENOMEM, libc::EACCES, libc::ENODEV, libc::EAGAIN]);
            s.may_stop = true;
            name = "mmap";
        }
        3 => {
            img.stat_errno = errno(&[libc::EIO, libc::EOVERFLOW, libc::ENOMEM]);
            s.may_stop = true;
            name = "stat";
        }
        4 => {
            img.read_errno = errno(&[libc::EIO, libc::EISDIR]);
            s.may_stop = true;
            name = "read";
        }
        5 => {
            let k = fval % file.len() as u64;
            img.cut = Some(k);
            s.may_stop = true;
            s.judge = false;
            if k < 16 {
                s.must_stop = Some("the image ends in its first bytes".into());
            }
            name = "truncation";
        }
        _ => (),
    }
    if !name.is_empty() {
        s.rep.add(&format!("fault:load-{name}"), 1);
    }
    host::set_image(cmd.loaded(), img);
    // the output's faults
    let mut q = Rng::new(fval);
    let mut plan = vec![];
    match outf {
        1..=4 => {
            for _ in 0..q.range(1, 40) {
                plan.push(match q.below(3) {
                    0 => host::Fault::Errno(libc::EINTR),
                    1 => host::Fault::Short(1 + q.below(30)),
                    _ => host::Fault::None,
                });
            }
        }
        5..=6 => {
            for _ in 0..q.below(60) {
                plan.push(host::Fault::None);
            }
            plan.push(host::Fault::Errno(*q.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EAGAIN])));
            s.may_stop = true;
        }
        _ => (),
    }
    let mut sig = mix(rv64 as u64, opt as u64);
    for x in [outf, fault, segs.len() as u64, secs.len() as u64, strip as u64, tables_first as u64, str_first as u64, align as u64, stri as u64, s.must_stop.is_some() as u64] {
        sig = mix(sig, x);
    }
    s.rep.sig(sig);
    s.rep.add(&format!("seen:option {o}"), 1);
    CUR.with(|c| *c.borrow_mut() = Some(s));
    cli::set_argv(&cmd.argv(style));
    host::with(|h| {
        h.log = true;
        h.out_plan = plan.into();
    });
    carron::sim::set_step_hook(Some(hook));
    cli::go();
    carron::sim::set_step_hook(None);
    let _ = std::io::stdout().flush();
    ended(None)
}

/// The emulator ended, by itself or otherwise.
pub fn ended(how: Option<&str>) -> Report {
    let s = CUR.with(|c| match c.try_borrow_mut() {
        Ok(mut g) => g.take(),
        Err(_) => None,
    });
    let Some(mut s) = s else {
        let mut r = Report::default();
        r.viol = Some(viol("harness", &["*"], format!("HARNESS show ended early: {how:?}")));
        return r;
    };
    if s.rep.viol.is_some() {
        return s.rep;
    }
    let (out, hit) = host::with(|h| (h.stream(1), std::mem::take(&mut h.faults_hit)));
    for (k, n) in hit {
        s.rep.add(&format!("fault:{k}"), n);
    }
    let out = String::from_utf8_lossy(&out).into_owned();
    s.rep.hash = mix(s.rep.hash, crate::runner::bytes_hash(out.as_bytes()));
    if std::env::var_os("SIM_SHOW").is_some() {
        eprintln!("{out}\n{how:?}");
    }
    let r = s.judge(&out, how);
    if let Err(m) = r {
        s.rep.viol = Some(m);
    }
    s.rep
}

impl Show {
    fn judge(&mut self, out: &str, how: Option<&str>) -> Result<(), Viol> {
        let got = blocks(out);
        if let Some(m) = &self.must_stop {
            if !got.is_empty() {
                return Err(v("show-bad-image", format!("{m}, but it was shown")));
            }
            self.rep.add("seen:refused-to-show", 1);
            return Ok(());
        }
        if let Some(h) = how {
            if !self.may_stop {
                return Err(v("show-died", format!("the emulator ended while showing the image: {h}")));
            }
            self.rep.add("seen:ended-early", 1);
        }
        if !self.judge {
            return Ok(());
        }
        // with an output that failed, what is there is the beginning
        let part = self.may_stop;
        if got.len() > self.want.len() {
            return Err(v("show-extra", format!("{} headers were shown instead of {}", got.len(), self.want.len())));
        }
        if got.len() < self.want.len() && !part {
            let w = &self.want[got.len()];
            return Err(v("show-missing", format!("{} of {} headers were shown, {} header {} is missing", got.len(), self.want.len(), w.kind, w.id)));
        }
        let last = got.len();
        for (k, (g, w)) in got.iter().zip(&self.want).enumerate() {
            let part = part && k + 1 == last;
            let at = |m: String| v("show-header", format!("{} header {}: {m}", w.kind, w.id));
            if g.kind != w.kind || w.kind != "elf" && g.id != w.id {
                return Err(at(format!("{} header {} was shown in its place", g.kind, g.id)));
            }
            for (n, x) in &w.fields {
                let Some(t) = g.fields.get(*n) else {
                    if part {
                        continue;
                    }
                    return Err(at(format!("{n} is missing")));
                };
                if part && g.last == *n {
                    continue;
                }
                if !same(t, x) {
                    return Err(at(format!("{n} is given as \"{t}\", it is {x:x?}")));
                }
            }
            match &w.body {
                Body::None => (),
                Body::Words(d) => words(&g.body, d, part).map_err(|m| v("show-words", format!("program header {}: {m}", w.id)))?,
                Body::Code(l) => code_lines(&g.body, l, part).map_err(|m| v("show-code", format!("section header {}: {m}", w.id)))?,
            }
            match &w.body {
                Body::Words(d) => self.rep.add("seen:words-compared", d.len() as u64 / 4),
                Body::Code(l) => {
                    self.rep.add("seen:instructions-compared", l.len() as u64);
                    self.rep.add("seen:instructions-without-meaning", l.iter().filter(|l| l.text.is_none()).count() as u64);
                }
                _ => (),
            }
            self.rep.add("seen:headers-compared", 1);
        }
        Ok(())
    }
}

struct Got {
    kind: String,
    id: u64,
    fields: BTreeMap<String, String>,
    last: String,
    body: Vec<String>,
}

/// The headers in the text, with their fields and what follows them.
fn blocks(out: &str) -> Vec<Got> {
    let mut v: Vec<Got> = vec![];
    for l in out.lines() {
        let t: Vec<&str> = l.split(|c: char| c == '=' || c.is_whitespace()).filter(|w| !w.is_empty()).collect();
        if l.contains("==") && t.len() >= 2 && t[1] == "header" {
            v.push(Got { kind: t[0].into(), id: t.get(2).and_then(|x| x.parse().ok()).unwrap_or(0), fields: BTreeMap::new(), last: String::new(), body: vec![] });
            continue;
        }
        let Some(g) = v.last_mut() else { continue };
        match l.split_once(':') {
            Some((k, x)) if k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') => {
                g.last = k.into();
                g.fields.insert(k.into(), x.trim().into());
            }
            _ if l.trim().is_empty() || l.starts_with("---") => (),
            _ => g.body.push(l.to_string()),
        }
    }
    v
}

fn number(t: &str) -> Option<u64> {
    match t.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => t.parse().ok(),
    }
}

fn same(t: &str, x: &Val) -> bool {
    let first = t.split_whitespace().next().unwrap_or("");
    match x {
        Val::Num(n) => number(first) == Some(*n),
        Val::Name(n) => first == n,
        Val::Bytes(b) => {
            let g: Vec<Option<u8>> = t.split_whitespace().map(|h| u8::from_str_radix(h, 16).ok()).collect();
            g.len() == b.len() && g.iter().zip(b).all(|(g, b)| *g == Some(*b))
        }
    }
}

fn words(body: &[String], d: &[u8], part: bool) -> Result<(), String> {
    let got: Vec<&str> = body.iter().flat_map(|l| l.split_whitespace()).collect();
    let full = d.len() / 4;
    for i in 0..full {
        let w = u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap());
        match got.get(i) {
            None if part => return Ok(()),
            None => return Err(format!("{i} of its {full} words are shown")),
            Some(_) if part && i + 1 == got.len() => return Ok(()),
            Some(t) if t.len() == 8 && u32::from_str_radix(t, 16) == Ok(w) => (),
            Some(t) => return Err(format!("word {i} is shown as {t}, it is {w:08x}")),
        }
    }
    // the last bytes can be shown as a word or one by one
    let rest = &got[full..];
    let tail = &d[4 * full..];
    if rest.len() > tail.len() {
        return Err(format!("{} words are shown, the file has {} bytes of it", got.len(), d.len()));
    }
    if let Some(t) = rest.first() {
        if part {
            return Ok(());
        }
        let x = u32::from_str_radix(t, 16).map_err(|_| format!("\"{t}\" is shown"))?.to_le_bytes();
        let k = if t.len() == 8 { tail.len() } else { 1 };
        if x[..k] != tail[..k] {
            return Err(format!("its last bytes are shown as {t}, they are {tail:02x?}"));
        }
    } else if !tail.is_empty() && !part {
        return Err(format!("its last {} bytes are not shown", tail.len()));
    }
    Ok(())
}

fn reg(t: &str) -> Option<u32> {
    const ABI: &[&str] = &[
        "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3",
        "t4", "t5", "t6",
    ];
    ABI.iter().position(|a| *a == t).map(|i| i as u32).or_else(|| t.strip_prefix('x').unwrap_or(t).parse().ok())
}

fn imm(t: &str) -> Option<i64> {
    let (neg, u) = match t.strip_prefix('-') {
        Some(u) => (true, u),
        None => (false, t),
    };
    let x = number(u)? as i64;
    Some(if neg { -x } else { x })
}

fn code_lines(body: &[String], want: &[Line], part: bool) -> Result<(), String> {
    let mut at = 0;
    for (i, w) in want.iter().enumerate() {
        let last = part && i + 1 >= body.len();
        let Some(l) = body.get(i) else {
            if w.tail || part {
                return Ok(());
            }
            return Err(format!("{i} of its {} instructions are shown", want.len()));
        };
        if last {
            return Ok(());
        }
        if w.tail {
            at = i;
            break;
        }
        at = i + 1;
        let mut t = l.split(|c: char| c.is_whitespace() || c == ',').filter(|x| !x.is_empty());
        let e = t.next().unwrap_or("");
        let x = w.enc.iter().rev().map(|b| format!("{b:02x}")).collect::<String>();
        if e != x {
            return Err(format!("instruction {i} is shown as {e}, it is {x}"));
        }
        let Some((m, opds)) = &w.text else { continue };
        let g = t.next().unwrap_or("");
        if g.to_lowercase() != *m || l.contains(&format!("{g},")) {
            return Err(format!("instruction {i}, {x}, is named \"{g}\", it is {m}"));
        }
        let mut t = t;
        for o in opds {
            let ok = t.by_ref().any(|t| match o {
                Opd::Reg(r) => reg(t) == Some(*r),
                Opd::Imm(v) => imm(t) == Some(*v),
                Opd::Imm2(a, b) => imm(t) == Some(*a) || imm(t) == Some(*b),
            });
            if !ok {
                return Err(format!("instruction {i}, {x} ({m}), lacks its operand {o:?}: \"{}\"", l.trim()));
            }
        }
    }
    // what does not make an instruction can be shown or left out
    let n = want.iter().filter(|w| w.tail).map(|w| w.enc.len()).sum::<usize>();
    if body.len() > at + n {
        return Err(format!("{} lines are shown for {} instructions", body.len(), want.len()));
    }
    Ok(())
}

fn disasm(d: &[u8], rv64: bool) -> Vec<Line> {
    let mut v = vec![];
    let mut at = 0;
    while at < d.len() {
        let n = if d[at] & 3 == 3 { 4 } else { 2 };
        if at + n > d.len() {
            v.push(Line { enc: d[at..].to_vec(), tail: true, text: None });
            break;
        }
        let enc = d[at..at + n].to_vec();
        let mut w = [0u8; 4];
        w[..n].copy_from_slice(&enc);
        let w = u32::from_le_bytes(w);
        let text = if n == 4 { name32(w, rv64) } else { name16(w, rv64) };
        v.push(Line { enc, tail: false, text });
        at += n;
    }
    v
}

fn sx(v: u32, n: u32) -> i64 {
    ((v << (32 - n)) as i32 >> (32 - n)) as i64
}

fn name32(w: u32, rv64: bool) -> Option<(String, Vec<Opd>)> {
    use Opd::*;
    let (opc, rd, f3, rs1, rs2, f7) = (w & 0x7f, w >> 7 & 31, w >> 12 & 7, w >> 15 & 31, w >> 20 & 31, w >> 25);
    let i = sx(w >> 20, 12);
    let s = sx(w >> 25 << 5 | rd, 12);
    let b = sx((w >> 31) << 12 | (w >> 7 & 1) << 11 | (w >> 25 & 0x3f) << 5 | (w >> 8 & 15) << 1, 13);
    let j = sx((w >> 31) << 20 | (w >> 12 & 0xff) << 12 | (w >> 20 & 1) << 11 | (w >> 21 & 0x3ff) << 1, 21);
    let u = Imm2((w & 0xffff_f000) as i32 as i64, (w >> 12) as i64);
    let tab = |t: &[&'static str]| t.get(f3 as usize).copied().filter(|n| !n.is_empty());
    let only64 = |n: Option<&'static str>| n.filter(|_| rv64);
    let rrr = vec![Reg(rd), Reg(rs1), Reg(rs2)];
    let rri = vec![Reg(rd), Reg(rs1), Imm(i)];
    let (n, o) = match opc {
        0x37 => ("lui", vec![Reg(rd), u]),
        0x17 => ("auipc", vec![Reg(rd), u]),
        0x6f => ("jal", vec![Reg(rd), Imm(j)]),
        0x67 if f3 == 0 => ("jalr", rri),
        0x63 => (tab(&["beq", "bne", "", "", "blt", "bge", "bltu", "bgeu"])?, vec![Reg(rs1), Reg(rs2), Imm(b)]),
        0x03 => {
            let n = tab(&["lb", "lh", "lw", "ld", "lbu", "lhu", "lwu", ""])?;
            if !rv64 && (n == "ld" || n == "lwu") {
                return None;
            }
            (n, rri)
        }
        0x23 => {
            let n = tab(&["sb", "sh", "sw", "sd", "", "", "", ""])?;
            if !rv64 && n == "sd" {
                return None;
            }
            (n, vec![Reg(rs1), Reg(rs2), Imm(s)])
        }
        0x13 if f3 == 1 || f3 == 5 => {
            let sh = w >> 20 & 0x3f;
            let hi = w >> 26;
            if !rv64 && sh > 31 {
                return None;
            }
            let n = match (f3, hi) {
                (1, 0) => "slli",
                (5, 0) => "srli",
                (5, 0x10) => "srai",
                _ => return None,
            };
            (n, vec![Reg(rd), Reg(rs1), Imm(sh as i64)])
        }
        0x13 => (tab(&["addi", "", "slti", "sltiu", "xori", "", "ori", "andi"])?, rri),
        0x1b => match (f3, f7) {
            (0, _) => (only64(Some("addiw"))?, rri),
            (1, 0) => (only64(Some("slliw"))?, vec![Reg(rd), Reg(rs1), Imm(rs2 as i64)]),
            (5, 0) => (only64(Some("srliw"))?, vec![Reg(rd), Reg(rs1), Imm(rs2 as i64)]),
            (5, 0x20) => (only64(Some("sraiw"))?, vec![Reg(rd), Reg(rs1), Imm(rs2 as i64)]),
            _ => return None,
        },
        0x33 => {
            let n = match f7 {
                0 => tab(&["add", "sll", "slt", "sltu", "xor", "srl", "or", "and"])?,
                0x20 => tab(&["sub", "", "", "", "", "sra", "", ""])?,
                1 => tab(&["mul", "mulh", "mulhsu", "mulhu", "div", "divu", "rem", "remu"])?,
                _ => return None,
            };
            (n, rrr)
        }
        0x3b => {
            let n = match f7 {
                0 => tab(&["addw", "sllw", "", "", "", "srlw", "", ""])?,
                0x20 => tab(&["subw", "", "", "", "", "sraw", "", ""])?,
                1 => tab(&["mulw", "", "", "", "divw", "divuw", "remw", "remuw"])?,
                _ => return None,
            };
            (only64(Some(n))?, rrr)
        }
        0x0f if f3 == 0 => ("fence", vec![]),
        0x2f if f3 == 2 || f3 == 3 && rv64 => {
            let n = match w >> 27 {
                2 if rs2 == 0 => "lr",
                3 => "sc",
                1 => "amoswap",
                0 => "amoadd",
                4 => "amoxor",
                0xc => "amoand",
                8 => "amoor",
                0x10 => "amomin",
                0x14 => "amomax",
                0x18 => "amominu",
                0x1c => "amomaxu",
                _ => return None,
            };
            let o = if n == "lr" { vec![Reg(rd), Reg(rs1)] } else { rrr };
            return Some((format!("{n}.{}", if f3 == 2 { "w" } else { "d" }), o));
        }
        0x73 if f3 == 0 => match w {
            0x73 => ("ecall", vec![]),
            0x0010_0073 => ("ebreak", vec![]),
            0x1020_0073 => ("sret", vec![]),
            0x3020_0073 => ("mret", vec![]),
            0x1050_0073 => ("wfi", vec![]),
            _ if f7 == 9 && rd == 0 => ("sfence.vma", vec![Reg(rs1), Reg(rs2)]),
            _ => return None,
        },
        0x73 => (tab(&["", "csrrw", "csrrs", "csrrc", "", "csrrwi", "csrrsi", "csrrci"])?, vec![Reg(rd), Reg(rs1)]),
        _ => return None,
    };
    Some((n.into(), o))
}

fn name16(c: u32, rv64: bool) -> Option<(String, Vec<Opd>)> {
    use Opd::*;
    let bit = |h: u32, l: u32| c >> l & ((1 << (h - l + 1)) - 1);
    let rd = bit(11, 7);
    let rs2 = bit(6, 2);
    let (lo, hi) = (8 + bit(4, 2), 8 + bit(9, 7));
    let i6 = sx(bit(12, 12) << 5 | rs2, 6);
    let sh = bit(12, 12) << 5 | rs2;
    let j = sx(bit(12, 12) << 11 | bit(8, 8) << 10 | bit(10, 9) << 8 | bit(6, 6) << 7 | bit(7, 7) << 6 | bit(2, 2) << 5 | bit(11, 11) << 4 | bit(5, 3) << 1, 12);
    let b = sx(bit(12, 12) << 8 | bit(6, 5) << 6 | bit(2, 2) << 5 | bit(11, 10) << 3 | bit(4, 3) << 1, 9);
    let w4 = (bit(5, 5) << 6 | bit(12, 10) << 3 | bit(6, 6) << 2) as i64;
    let w8 = (bit(6, 5) << 6 | bit(12, 10) << 3) as i64;
    let (n, o) = match (c & 3, c >> 13 & 7) {
        (0, 0) => {
            let u = bit(10, 7) << 6 | bit(12, 11) << 4 | bit(5, 5) << 3 | bit(6, 6) << 2;
            if u == 0 {
                return None;
            }
            ("addi4spn", vec![Reg(lo), Imm(u as i64)])
        }
        (0, 2) => ("lw", vec![Reg(lo), Reg(hi), Imm(w4)]),
        (0, 3) if rv64 => ("ld", vec![Reg(lo), Reg(hi), Imm(w8)]),
        (0, 6) => ("sw", vec![Reg(hi), Reg(lo), Imm(w4)]),
        (0, 7) if rv64 => ("sd", vec![Reg(hi), Reg(lo), Imm(w8)]),
        (1, 0) if rd == 0 && i6 == 0 => ("nop", vec![]),
        (1, 0) if rd != 0 && i6 != 0 => ("addi", vec![Reg(rd), Imm(i6)]),
        (1, 1) if !rv64 => ("jal", vec![Imm(j)]),
        (1, 1) if rd != 0 => ("addiw", vec![Reg(rd), Imm(i6)]),
        (1, 2) if rd != 0 => ("li", vec![Reg(rd), Imm(i6)]),
        (1, 3) if rd == 2 => {
            let x = sx(bit(12, 12) << 9 | bit(4, 3) << 7 | bit(5, 5) << 6 | bit(2, 2) << 5 | bit(6, 6) << 4, 10);
            if x == 0 {
                return None;
            }
            ("addi16sp", vec![Imm(x)])
        }
        (1, 3) if rd != 0 && i6 != 0 => ("lui", vec![Reg(rd), Imm2(i6 << 12, i6)]),
        (1, 4) => match (bit(11, 10), bit(12, 12), bit(6, 5)) {
            (0, x, _) if (rv64 || x == 0) && sh != 0 => ("srli", vec![Reg(hi), Imm(sh as i64)]),
            (1, x, _) if (rv64 || x == 0) && sh != 0 => ("srai", vec![Reg(hi), Imm(sh as i64)]),
            (2, _, _) => ("andi", vec![Reg(hi), Imm(i6)]),
            (3, 0, k) => (["sub", "xor", "or", "and"][k as usize], vec![Reg(hi), Reg(lo)]),
            (3, 1, 0) if rv64 => ("subw", vec![Reg(hi), Reg(lo)]),
            (3, 1, 1) if rv64 => ("addw", vec![Reg(hi), Reg(lo)]),
            _ => return None,
        },
        (1, 5) => ("j", vec![Imm(j)]),
        (1, 6) => ("beqz", vec![Reg(hi), Imm(b)]),
        (1, 7) => ("bnez", vec![Reg(hi), Imm(b)]),
        (2, 0) if rd != 0 && sh != 0 && (rv64 || sh < 32) => ("slli", vec![Reg(rd), Imm(sh as i64)]),
        (2, 2) if rd != 0 => ("lwsp", vec![Reg(rd), Imm((bit(3, 2) << 6 | bit(12, 12) << 5 | bit(6, 4) << 2) as i64)]),
        (2, 3) if rd != 0 && rv64 => ("ldsp", vec![Reg(rd), Imm((bit(4, 2) << 6 | bit(12, 12) << 5 | bit(6, 5) << 3) as i64)]),
        (2, 4) => match (bit(12, 12), rd, rs2) {
            (0, 0, 0) => return None,
            (0, _, 0) => ("jr", vec![Reg(rd)]),
            (0, 0, _) => return None,
            (0, _, _) => ("mv", vec![Reg(rd), Reg(rs2)]),
            (_, 0, 0) => ("ebreak", vec![]),
            (_, _, 0) => ("jalr", vec![Reg(rd)]),
            (_, 0, _) => return None,
            _ => ("add", vec![Reg(rd), Reg(rs2)]),
        },
        (2, 6) => ("swsp", vec![Reg(rs2), Imm((bit(8, 7) << 6 | bit(12, 9) << 2) as i64)]),
        (2, 7) if rv64 => ("sdsp", vec![Reg(rs2), Imm((bit(9, 7) << 6 | bit(12, 10) << 3) as i64)]),
        _ => return None,
    };
    Some((format!("c.{n}"), o))
}
