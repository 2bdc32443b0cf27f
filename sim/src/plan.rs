//! A run is a list of parameters and operations in a line-based text form;
//! that text is the replay file.
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: String,
    pub a: Vec<u64>,
    pub b: Vec<u8>,
}

pub fn op(k: &str, a: &[u64]) -> Op {
    Op { k: k.to_string(), a: a.to_vec(), b: vec![] }
}
pub fn opb(k: &str, a: &[u64], b: &[u8]) -> Op {
    Op { k: k.to_string(), a: a.to_vec(), b: b.to_vec() }
}

impl Op {
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn text(&self) -> String {
        let mut s = self.k.clone();
        for v in &self.a {
            s.push_str(&format!(" {v:x}"));
        }
        if !self.b.is_empty() {
            s.push_str(" =");
            for v in &self.b {
                s.push_str(&format!("{v:02x}"));
            }
        }
        s
    }
    pub fn parse(l: &str) -> Option<Op> {
        let mut it = l.split_whitespace();
        let k = it.next()?.to_string();
        let mut a = vec![];
        let mut b = vec![];
        for t in it {
            if let Some(h) = t.strip_prefix('=') {
                for i in (0..h.len()).step_by(2) {
                    b.push(u8::from_str_radix(h.get(i..i + 2)?, 16).ok()?);
                }
            } else {
                a.push(u64::from_str_radix(t, 16).ok()?);
            }
        }
        Some(Op { k, a, b })
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub scenario: String,
    pub property: String,
    pub seed: u64,
    pub params: BTreeMap<String, u64>,
    pub ops: Vec<Op>,
}

impl Plan {
    pub fn text(&self) -> String {
        let mut s = format!(
            "carron-sim-replay 1\nproperty {}\nscenario {}\nseed {:x}\n",
            self.property, self.scenario, self.seed
        );
        for (k, v) in &self.params {
            s.push_str(&format!("param {k} {v:x}\n"));
        }
        for o in &self.ops {
            s.push_str(&format!("op {}\n", o.text()));
        }
        s
    }
    pub fn parse(t: &str) -> Option<Plan> {
        let mut p = Plan::default();
        let mut lines = t.lines();
        if !lines.next()?.starts_with("carron-sim-replay 1") {
            return None;
        }
        for l in lines {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (k, rest) = l.split_once(' ')?;
            match k {
                "property" => p.property = rest.to_string(),
                "scenario" => p.scenario = rest.to_string(),
                "seed" => p.seed = u64::from_str_radix(rest, 16).ok()?,
                "param" => {
                    let (n, v) = rest.split_once(' ')?;
                    p.params.insert(n.to_string(), u64::from_str_radix(v, 16).ok()?);
                }
                "op" => p.ops.push(Op::parse(rest)?),
                _ => return None,
            }
        }
        Some(p)
    }
}

/// Shared-memory journal: the parent can read the plan of a run that died.
pub struct Journal {
    pub ptr: *mut u8,
    pub cap: usize,
}
static mut JOURNAL: Journal = Journal { ptr: std::ptr::null_mut(), cap: 0 };

pub fn journal_init(cap: usize) {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            cap,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            panic!("journal mmap failed");
        }
        JOURNAL = Journal { ptr: p as *mut u8, cap };
    }
    journal_reset();
}
pub fn journal_reset() {
    unsafe {
        if !JOURNAL.ptr.is_null() {
            *(JOURNAL.ptr as *mut u64) = 0;
        }
    }
}
fn journal(line: &str) {
    unsafe {
        if JOURNAL.ptr.is_null() {
            return;
        }
        let n = *(JOURNAL.ptr as *mut u64) as usize;
        if 8 + n + line.len() + 1 > JOURNAL.cap {
            return;
        }
        std::ptr::copy_nonoverlapping(line.as_ptr(), JOURNAL.ptr.add(8 + n), line.len());
        *JOURNAL.ptr.add(8 + n + line.len()) = b'\n';
        *(JOURNAL.ptr as *mut u64) = (n + line.len() + 1) as u64;
    }
}
pub fn journal_text() -> String {
    unsafe {
        if JOURNAL.ptr.is_null() {
            return String::new();
        }
        let n = *(JOURNAL.ptr as *mut u64) as usize;
        String::from_utf8_lossy(std::slice::from_raw_parts(JOURNAL.ptr.add(8), n.min(JOURNAL.cap - 8))).into_owned()
    }
}

/// Where a run takes its choices from: the generator (recorded as it goes) or
/// a recorded plan.
pub struct Source {
    pub replay: bool,
    pub rng: Rng,
    pub plan: Plan,
    idx: usize,
    pub limit: usize,
}

impl Source {
    pub fn gen(scenario: &str, property: &str, seed: u64) -> Source {
        Source {
            replay: false,
            rng: Rng::new(seed),
            plan: Plan {
                scenario: scenario.into(),
                property: property.into(),
                seed,
                ..Default::default()
            },
            idx: 0,
            limit: usize::MAX,
        }
    }
    pub fn replay(plan: Plan) -> Source {
        Source { replay: true, rng: Rng::new(plan.seed), plan, idx: 0, limit: usize::MAX }
    }
    pub fn param(&mut self, name: &str, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        if self.replay {
            *self.plan.params.get(name).unwrap_or(&0)
        } else {
            let v = f(&mut self.rng);
            self.plan.params.insert(name.to_string(), v);
            journal(&format!("param {name} {v:x}"));
            v
        }
    }
    /// Next operation, or None when the plan (or the generator's budget) ends.
    pub fn next(&mut self, f: impl FnOnce(&mut Rng) -> Option<Op>) -> Option<Op> {
        if self.replay {
            let o = self.plan.ops.get(self.idx).cloned();
            self.idx += 1;
            o
        } else {
            if self.plan.ops.len() >= self.limit {
                return None;
            }
            let o = f(&mut self.rng)?;
            journal(&format!("op {}", o.text()));
            self.plan.ops.push(o.clone());
            Some(o)
        }
    }
}
