//! Builds small guest ELF images.
#[derive(Clone, Default)]
pub struct Seg {
    pub paddr: u64,
    pub data: Vec<u8>,
    pub memsz: u64,
    pub ptype: u32,
    /// virtual address minus physical address
    pub vdelta: u64,
}

#[derive(Clone, Default)]
pub struct Image {
    pub rv64: bool,
    pub segs: Vec<Seg>,
    pub syms: Vec<(String, u64)>,
    /// no section table at all
    pub strip: bool,
    /// program headers behind everything else
    pub ph_end: bool,
    /// file alignment of segment contents
    pub align: usize,
    /// the first loadable segment's bytes start with the file header
    pub cover: bool,
    /// empty sections in front of the string and symbol tables
    pub extra_secs: usize,
    /// non-loadable program headers in front of the segments
    pub extra_ph: usize,
    /// which order the symbol table and the two string tables come in (0..6), and
    /// from 6 on, tables for dynamic linking with other contents in front of them
    pub sec_order: u64,
}

/// Where things ended up in the file.
pub struct Layout {
    pub bytes: Vec<u8>,
    /// file range of each segment
    pub segs: Vec<(usize, usize)>,
    /// the end of everything the loader must have
    pub need: usize,
}

/// The end of the last byte without which the loadable segments cannot be known:
/// their contents, and their program headers up to the file size.
fn need_of(img: &Image, segs: &[(usize, usize)], ph_off: usize) -> usize {
    let (ent, used, eh) = if img.rv64 { (56, 40, 64) } else { (32, 20, 52) };
    let mut need = eh;
    for (i, (s, r)) in img.segs.iter().zip(segs).enumerate() {
        if s.ptype == 1 {
            need = need.max(ph_off + ent * (img.extra_ph + i) + used);
            if r.1 > r.0 {
                need = need.max(r.1);
            }
        }
    }
    need
}
impl Layout {
    fn check(self, n: usize) -> Layout {
        assert!(self.need <= n && self.bytes.len() == n);
        self
    }
}

fn p16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_le_bytes())
}
fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes())
}
fn p64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes())
}

impl Image {
    pub fn build(&self) -> Vec<u8> {
        self.layout().bytes
    }
    pub fn layout(&self) -> Layout {
        let w = self.rv64;
        let nph = self.segs.len() + self.extra_ph;
        let align = self.align.max(1);
        let (eh, ph, sh, st) = if w { (64, 56, 64, 24) } else { (52, 32, 40, 16) };
        let mut body: Vec<u8> = vec![];
        let data_start = if self.ph_end { eh } else { eh + ph * nph };
        let mut seg_off = vec![];
        for s in &self.segs {
            while (data_start + body.len()) % align != 0 {
                body.push(0);
            }
            seg_off.push((data_start + body.len()) as u64);
            body.extend_from_slice(&s.data);
        }
        // string tables and symbols
        let mut strtab = vec![0u8];
        let mut symtab = vec![0u8; st];
        for (n, v) in &self.syms {
            let off = strtab.len() as u32;
            strtab.extend_from_slice(n.as_bytes());
            strtab.push(0);
            if w {
                p32(&mut symtab, off);
                symtab.push(0x10);
                symtab.push(0);
                p16(&mut symtab, 0xfff1);
                p64(&mut symtab, *v);
                p64(&mut symtab, 8);
            } else {
                p32(&mut symtab, off);
                p32(&mut symtab, *v as u32);
                p32(&mut symtab, 8);
                symtab.push(0x10);
                symtab.push(0);
                p16(&mut symtab, 0xfff1);
            }
        }
        let shstr = b"\0.symtab\0.strtab\0.shstrtab\0.dynsym\0.dynstr\0";
        let dynamic = self.sec_order >= 6;
        let mut dynstr = strtab.clone();
        dynstr.rotate_left(1);
        let mut dynsym = symtab.clone();
        for e in dynsym.chunks_mut(st) {
            e[if w { 8 } else { 4 }] ^= 0x18;
        }
        while (data_start + body.len()) % 8 != 0 {
            body.push(0);
        }
        let sym_off = data_start + body.len();
        body.extend_from_slice(&symtab);
        let str_off = data_start + body.len();
        body.extend_from_slice(&strtab);
        let shs_off = data_start + body.len();
        body.extend_from_slice(shstr);
        while (data_start + body.len()) % 8 != 0 {
            body.push(0);
        }
        let (dsym_off, dstr_off) = (data_start + body.len(), data_start + body.len() + dynsym.len());
        if dynamic {
            body.extend_from_slice(&dynsym);
            body.extend_from_slice(&dynstr);
        }
        while (data_start + body.len()) % 8 != 0 {
            body.push(0);
        }
        let nsec = if self.strip { 0 } else { 4 + 2 * dynamic as u16 + self.extra_secs as u16 };
        let ph_off = if self.ph_end { data_start + body.len() + if self.strip { 0 } else { 40.max(sh) * nsec as usize } } else { eh };
        let sh_off = if self.strip { 0 } else { data_start + body.len() };
        const ORDER: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let order = ORDER[self.sec_order as usize % 6];
        // the section number of table t (symbols, strings, section names)
        let number = |t: usize| 1 + self.extra_secs + 2 * dynamic as usize + order.iter().position(|x| *x == t).unwrap();
        let cover = self.cover.then(|| self.segs.iter().position(|s| s.ptype == 1)).flatten();
        let range: Vec<(usize, usize)> = self
            .segs
            .iter()
            .zip(&seg_off)
            .enumerate()
            .map(|(i, (s, o))| {
                let e = *o as usize + s.data.len();
                if cover == Some(i) { (0, e) } else { (*o as usize, e) }
            })
            .collect();
        let mut out = vec![0x7f, b'E', b'L', b'F', if w { 2 } else { 1 }, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        p16(&mut out, 2);
        p16(&mut out, 243);
        p32(&mut out, 1);
        let entry = self.segs.first().map(|s| s.paddr).unwrap_or(0);
        if w {
            p64(&mut out, entry);
            p64(&mut out, ph_off as u64);
            p64(&mut out, sh_off as u64);
        } else {
            p32(&mut out, entry as u32);
            p32(&mut out, ph_off as u32);
            p32(&mut out, sh_off as u32);
        }
        p32(&mut out, 0);
        p16(&mut out, eh as u16);
        p16(&mut out, ph as u16);
        p16(&mut out, nph as u16);
        p16(&mut out, sh as u16);
        p16(&mut out, nsec);
        p16(&mut out, if self.strip { 0 } else { number(2) as u16 });
        let mut head = std::mem::take(&mut out);
        let filler = (0..self.extra_ph).map(|i| (Seg { ptype: if i % 3 == 0 { 4 } else { 0 }, ..Default::default() }, (0, 0)));
        for (s, (off, end)) in filler.chain(self.segs.iter().cloned().zip(range.iter().copied())) {
            let fsz = end - off;
            let msz = s.memsz.max(fsz as u64);
            let va = s.paddr.wrapping_add(s.vdelta);
            if w {
                p32(&mut out, s.ptype);
                p32(&mut out, 7);
                p64(&mut out, off as u64);
                p64(&mut out, va);
                p64(&mut out, s.paddr);
                p64(&mut out, fsz as u64);
                p64(&mut out, msz);
                p64(&mut out, 0x1000);
            } else {
                p32(&mut out, s.ptype);
                p32(&mut out, off as u32);
                p32(&mut out, va as u32);
                p32(&mut out, s.paddr as u32);
                p32(&mut out, fsz as u32);
                p32(&mut out, msz as u32);
                p32(&mut out, 7);
                p32(&mut out, 0x1000);
            }
        }
        let phdrs = std::mem::replace(&mut out, std::mem::take(&mut head));
        if !self.ph_end {
            out.extend_from_slice(&phdrs);
        }
        assert_eq!(out.len(), data_start);
        out.extend_from_slice(&body);
        let mut sec = |name: u32, ty: u32, off: u64, size: u64, link: u32, ent: u64| {
            p32(&mut out, name);
            p32(&mut out, ty);
            if w {
                p64(&mut out, 0);
                p64(&mut out, 0);
                p64(&mut out, off);
                p64(&mut out, size);
                p32(&mut out, link);
                p32(&mut out, 0);
                p64(&mut out, 8);
                p64(&mut out, ent);
            } else {
                p32(&mut out, 0);
                p32(&mut out, 0);
                p32(&mut out, off as u32);
                p32(&mut out, size as u32);
                p32(&mut out, link);
                p32(&mut out, 0);
                p32(&mut out, 8);
                p32(&mut out, ent as u32);
            }
        };
        if self.strip {
            if self.ph_end {
                assert_eq!(out.len(), ph_off);
                out.extend_from_slice(&phdrs);
            }
            let need = out.len();
            return Layout { need: need_of(self, &range, ph_off), bytes: out, segs: range }.check(need);
        }
        sec(0, 0, 0, 0, 0, 0);
        for _ in 0..self.extra_secs {
            sec(0, 8, 0, 0, 0, 0);
        }
        if dynamic {
            sec(27, 11, dsym_off as u64, dynsym.len() as u64, 2 + self.extra_secs as u32, st as u64);
            sec(35, 3, dstr_off as u64, dynstr.len() as u64, 0, 0);
        }
        for t in order {
            match t {
                0 => sec(1, 2, sym_off as u64, symtab.len() as u64, number(1) as u32, st as u64),
                1 => sec(9, 3, str_off as u64, strtab.len() as u64, 0, 0),
                _ => sec(17, 3, shs_off as u64, shstr.len() as u64, 0, 0),
            }
        }
        while self.ph_end && out.len() < ph_off {
            out.push(0);
        }
        if self.ph_end {
            out.extend_from_slice(&phdrs);
        }
        let n = out.len();
        Layout { need: need_of(self, &range, ph_off), bytes: out, segs: range }.check(n)
    }
}
