//! The host-proxy mailbox as the guest sees it: which stores are requests,
//! what the host must be asked, and what must come back.
use crate::dev::{self, Reg};
use crate::host::Call;
use crate::lock::BASE;
use crate::model::Mem;
use std::collections::BTreeMap;

pub const STAT_BYTES: u64 = 128;

#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    None,
    /// outside what the property speaks about
    Bad(&'static str),
    Exit(u64),
    Call { blk: u64, cmd: u64, a: [u64; 8] },
}

#[derive(Clone, Default)]
pub struct Fx {
    pub bytes: BTreeMap<u64, u8>,
    /// ranges of guest memory to look at
    pub windows: Vec<(u64, u64)>,
    /// bytes that must have reached standard output
    pub out: Vec<u8>,
    pub table: Option<Vec<Option<i32>>>,
    pub note: String,
    /// the call named a descriptor that is not open
    pub stale: bool,
    /// address of a word of which only bit 0 is fixed
    pub odd: Option<u64>,
}

pub struct Htif {
    pub tohost: u64,
    pub fromhost: u64,
    /// both symbols are in the image
    pub on: bool,
    pub table: Vec<Option<i32>>,
    pub args: Vec<String>,
    pub pending: Option<crate::host::Fault>,
    pub requests: u64,
}

/// A wrong answer: violation class, properties, text
pub type Wrong = (&'static str, &'static [&'static str], String);

const DATA: &[&str] = &["C14"];
const FDS: &[&str] = &["C15", "C14"];

fn in_dram(a: u64, n: u64) -> bool {
    n <= dev::DRAM_SIZE && a >= BASE && a - BASE <= dev::DRAM_SIZE - n
}
fn overlap(a: u64, n: u64, b: u64, m: u64) -> bool {
    a < b + m && b < a + n
}

pub struct See<'a> {
    pub mem: &'a Mem,
    pub writes: &'a [(u64, u64, u64)],
}
impl See<'_> {
    pub fn byte(&self, a: u64) -> u8 {
        let mut w = self.mem.byte(a);
        for (p, n, v) in self.writes {
            if a >= *p && a < *p + *n {
                w = (v >> (8 * (a - p))) as u8;
            }
        }
        w
    }
    pub fn word(&self, a: u64) -> u64 {
        (0..8).fold(0, |v, i| v | (self.byte(a + i) as u64) << (8 * i))
    }
    fn bytes(&self, a: u64, n: u64) -> Vec<u8> {
        (0..n).map(|i| self.byte(a + i)).collect()
    }
}

impl Htif {
    pub fn fd(&self, g: u64) -> i32 {
        self.table.get(g.min(1 << 32) as usize).copied().flatten().unwrap_or(-1)
    }
    fn dirfd(&self, g: u64) -> i32 {
        if g as i32 == libc::AT_FDCWD {
            libc::AT_FDCWD
        } else {
            self.fd(g)
        }
    }

    /// What the mailbox asks for after the given stores.
    pub fn request(&self, mem: &Mem, writes: &[(u64, u64, u64)]) -> Req {
        if !self.on || !writes.iter().any(|w| overlap(w.0, w.1, self.tohost, 8)) {
            return Req::None;
        }
        let see = See { mem, writes };
        let cmd = see.word(self.tohost);
        if cmd == 0 {
            return Req::None;
        }
        if cmd as u32 == 0 {
            return Req::Bad("mailbox half written");
        }
        if cmd & 1 == 1 {
            return Req::Exit(cmd);
        }
        if cmd >> 48 != 0 {
            return Req::Bad("other mailbox device");
        }
        let blk = cmd;
        if blk & 7 != 0 || !in_dram(blk, 64) || overlap(blk, 64, self.tohost, 8) || overlap(blk, 64, self.fromhost, 8) {
            return Req::Bad("argument block");
        }
        let mut a = [0; 8];
        for (i, v) in a.iter_mut().enumerate() {
            *v = see.word(blk + 8 * i as u64);
        }
        let ok = |p: u64, n: u64| {
            n <= 1 << 16
                && in_dram(p, n)
                && (n == 0 || !overlap(p, n, blk, 64) && !overlap(p, n, self.tohost, 8) && !overlap(p, n, self.fromhost, 8))
        };
        let name = |p: u64, n: u64| n > 0 && n < 300 && in_dram(p, n) && !overlap(p, n, self.tohost, 8) && see.byte(p + n - 1) == 0;
        let good = match a[0] {
            56 => name(a[2], a[3]),
            57 | 62 => true,
            63 | 67 => ok(a[2], a[3]),
            64 | 68 => a[3] <= 1 << 16 && in_dram(a[2], a[3]) && !overlap(a[2], a[3], self.tohost, 8),
            79 => name(a[2], a[3]) && ok(a[4], STAT_BYTES),
            80 => ok(a[2], STAT_BYTES),
            93 => return Req::Exit(a[1]),
            2011 => a[2] < 1 << 20 && ok(a[1], 2048),
            _ => false,
        };
        if !good {
            return Req::Bad("proxy call outside the property");
        }
        Req::Call { blk, cmd, a }
    }

    /// Whether an injected host fault would be meaningful for this call.
    pub fn faultable(&self, r: &Req) -> bool {
        match r {
            Req::Call { a, .. } => match a[0] {
                56 | 79 => a[1] as i32 == libc::AT_FDCWD || self.fd(a[1]) >= 0,
                57 | 62 | 63 | 64 | 67 | 68 | 80 => self.fd(a[1]) >= 0,
                _ => false,
            },
            _ => false,
        }
    }

    /// What the given request must have done, given what the host was asked
    /// and answered.
    pub fn effects(&self, r: &Req, mem: &Mem, writes: &[(u64, u64, u64)], calls: &[Call]) -> Result<Fx, Wrong> {
        let Req::Call { blk, cmd, a } = r else {
            return Ok(Fx::default());
        };
        let see = See { mem, writes };
        let mut fx = Fx::default();
        let put = |fx: &mut Fx, p: u64, d: &[u8]| {
            for (i, b) in d.iter().enumerate() {
                fx.bytes.insert(p + i as u64, *b);
            }
        };
        fx.windows.push((blk.saturating_sub(64), blk + 128));
        fx.windows.push((self.tohost.saturating_sub(64), self.tohost + 72));
        fx.windows.push((self.fromhost.saturating_sub(64), self.fromhost + 72));
        let nr = a[0];
        let name = match nr {
            56 => "openat",
            57 => "close",
            62 => "lseek",
            63 => "read",
            64 => "write",
            67 => "pread",
            68 => "pwrite",
            79 => "fstatat",
            80 => "fstat",
            _ => "getmainvars",
        };
        let log = || -> String {
            calls
                .iter()
                .map(|c| format!("{}({}, {:?}, {}) = {} errno {}", c.name, c.fd, &c.a, String::from_utf8_lossy(&c.path), c.ret, c.errno))
                .collect::<Vec<_>>()
                .join(", ")
        };
        let head = |fx: &Fx| -> String {
            let _ = fx;
            format!("request {nr} ({name}) with {:x?}", &a[1..6])
        };
        let ret: i64;
        if nr == 2011 {
            if !calls.is_empty() {
                return Err(("proxy-call", DATA, format!("{}: host was asked {}", head(&fx), log())));
            }
            let n = self.args.len();
            let mut sz = (n as u64 + 3) * 8;
            let mut words = vec![n as u64];
            let mut strs = vec![];
            for s in &self.args {
                words.push(a[1] + sz);
                sz += s.len() as u64 + 1;
                strs.extend_from_slice(s.as_bytes());
                strs.push(0);
            }
            words.extend([0, 0]);
            fx.windows.push((a[1].saturating_sub(64), a[1] + sz + 64));
            if sz > a[2] {
                ret = -12;
            } else {
                ret = 0;
                let mut d: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
                d.extend(strs);
                put(&mut fx, a[1], &d);
            }
        } else {
            let host = if matches!(nr, 56 | 79) { self.dirfd(a[1]) } else { self.fd(a[1]) };
            if host == -1 {
                fx.stale = true;
                // nothing that is open may be touched
                if let Some(c) = calls.iter().find(|c| c.fd != -1 || c.ret != -1) {
                    return Err((
                        "proxy-stale-descriptor",
                        FDS,
                        format!("{}: the descriptor is not open, but the host was asked {}", head(&fx), log()).replace("{c}", c.name),
                    ));
                }
                ret = -(calls.first().map_or(libc::EBADF, |c| c.errno) as i64);
            } else {
                if calls.len() != 1 {
                    return Err((
                        "proxy-call-count",
                        if nr == 57 || nr == 56 { FDS } else { DATA },
                        format!("{}: the host was asked {} times instead of once: {}", head(&fx), calls.len(), log()),
                    ));
                }
                let c = &calls[0];
                // the two ways to ask about an open descriptor
                let same = name == "fstat" && c.name == "fstatat" && c.path.is_empty() && c.a[0] as i32 & libc::AT_EMPTY_PATH != 0;
                if c.name != name && !same {
                    return Err(("proxy-call", DATA, format!("{}: the host was asked {}", head(&fx), log())));
                }
                if c.fd != host {
                    return Err((
                        "proxy-descriptor",
                        FDS,
                        format!("{}: host descriptor {} used instead of {host}", head(&fx), c.fd),
                    ));
                }
                let args_ok = match nr {
                    56 => c.a[0] as i32 == a[4] as i32 && c.a[1] as i32 == a[5] as i32,
                    62 => c.a[0] == a[2] as i64 && c.a[1] as i32 == a[3] as i32,
                    63 | 64 => c.a[0] == a[3] as i64,
                    67 | 68 => c.a[0] == a[3] as i64 && c.a[1] == a[4] as i64,
                    79 => c.a[0] as i32 == a[5] as i32,
                    _ => true,
                };
                if !args_ok {
                    return Err(("proxy-arguments", DATA, format!("{}: the host was asked {}", head(&fx), log())));
                }
                if matches!(nr, 56 | 79) {
                    let mut want = see.bytes(a[2], a[3]);
                    want.truncate(want.iter().position(|b| *b == 0).unwrap_or(want.len()));
                    if want != c.path {
                        return Err((
                            "proxy-name",
                            DATA,
                            format!("{}: the host saw the name {:02x?}, the guest gave {want:02x?}", head(&fx), c.path),
                        ));
                    }
                }
                if matches!(nr, 64 | 68) && c.data != see.bytes(a[2], a[3]) {
                    return Err(("proxy-written-data", DATA, format!("{}: the host was handed other bytes", head(&fx))));
                }
                let mut v = if c.ret == -1 { -(c.errno as i64) } else { c.ret };
                match nr {
                    56 if c.ret >= 0 => {
                        let mut t = self.table.clone();
                        let g = match t.iter().position(|x| x.is_none()) {
                            Some(g) => g,
                            None => {
                                t.push(None);
                                t.len() - 1
                            }
                        };
                        t[g] = Some(c.ret as i32);
                        fx.table = Some(t);
                        v = g as i64;
                    }
                    57 if c.ret == 0 => {
                        let mut t = self.table.clone();
                        t[a[1] as usize] = None;
                        fx.table = Some(t);
                    }
                    63 | 67 => {
                        fx.windows.push((a[2].saturating_sub(64), a[2] + a[3] + 64));
                        if c.ret > 0 {
                            put(&mut fx, a[2], &c.data[..c.ret as usize]);
                        }
                    }
                    64 if c.ret > 0 && host == crate::host::STREAM + 1 => fx.out = c.data[..c.ret as usize].to_vec(),
                    79 | 80 => {
                        let dst = if nr == 79 { a[4] } else { a[2] };
                        fx.windows.push((dst.saturating_sub(64), dst + STAT_BYTES + 64));
                        if c.ret == 0 {
                            let s = c.stat.unwrap_or_default();
                            let w = [
                                s[0],
                                s[1],
                                s[3] | s[2] << 32,
                                s[4] | s[5] << 32,
                                s[6],
                                0,
                                s[7],
                                s[8] & 0xffff_ffff,
                                s[9],
                                s[10],
                                0,
                                s[11],
                                0,
                                s[12],
                                0,
                                0,
                            ];
                            let d: Vec<u8> = w.iter().flat_map(|w| w.to_le_bytes()).collect();
                            put(&mut fx, dst, &d);
                        }
                    }
                    _ => (),
                }
                ret = v;
            }
        }
        put(&mut fx, *blk, &ret.to_le_bytes());
        put(&mut fx, self.tohost, &[0; 8]);
        if see.word(self.fromhost) == 0 {
            let w = (cmd & 0xffff) | 1;
            put(&mut fx, self.fromhost, &w.to_le_bytes());
            fx.odd = Some(self.fromhost);
        }
        fx.note = format!("{name}={}", if ret < 0 { ret.to_string() } else { "ok".into() });
        Ok(fx)
    }
}

/// Compare guest memory with the expected effects. `real` reads the emulator's
/// memory. The value of an answered mailbox word is taken over when odd.
pub fn compare(fx: &mut Fx, see: &See, real: &dyn Fn(u64) -> u8) -> Vec<(u64, u8, u8)> {
    let mut bad = vec![];
    if let Some(f) = fx.odd {
        let w = (0..8).fold(0u64, |v, i| v | (real(f + i) as u64) << (8 * i));
        if w & 1 == 1 {
            for i in 0..8 {
                fx.bytes.insert(f + i, (w >> (8 * i)) as u8);
            }
        }
    }
    for (s, e) in &fx.windows {
        for q in *s..*e {
            if dev::region(BASE, q) != Reg::Dram {
                continue;
            }
            let want = match fx.bytes.get(&q) {
                Some(b) => *b,
                None => see.byte(q),
            };
            let got = real(q);
            if got != want {
                bad.push((q, got, want));
                if bad.len() > 4 {
                    return bad;
                }
            }
        }
    }
    bad
}
