//! What one simulated run produced, and how it travels from the run's process
//! to the worker.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub props: Vec<String>,
    pub msg: String,
}

pub fn viol<T: Into<String>>(class: &str, props: &[&str], msg: T) -> Viol {
    Viol { class: class.into(), props: props.iter().map(|s| s.to_string()).collect(), msg: msg.into() }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub viol: Option<Viol>,
    pub cnt: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub hash: u64,
    /// free-form lines compared by the determinism scenario
    pub notes: Vec<String>,
}

impl Report {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.cnt.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sig(&mut self, s: u64) {
        if self.sigs.len() < 4096 {
            self.sigs.insert(s);
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        if let Some(v) = &self.viol {
            s.push_str(&format!("V {}\t{}\t{}\n", v.class, v.props.join(","), v.msg.replace(['\n', '\t'], " ")));
        }
        for (k, v) in &self.cnt {
            s.push_str(&format!("C {v} {k}\n"));
        }
        for g in &self.sigs {
            s.push_str(&format!("S {g:x}\n"));
        }
        for n in &self.notes {
            s.push_str(&format!("N {}\n", n.replace('\n', " ")));
        }
        s.push_str(&format!("H {:x}\nEND\n", self.hash));
        s
    }
    /// None when the text is incomplete (the run died before finishing)
    pub fn parse(t: &str) -> Option<Report> {
        let mut r = Report::default();
        let mut end = false;
        for l in t.lines() {
            if l == "END" {
                end = true;
                continue;
            }
            let (k, rest) = l.split_once(' ')?;
            match k {
                "V" => {
                    let mut it = rest.splitn(3, '\t');
                    r.viol = Some(Viol {
                        class: it.next()?.to_string(),
                        props: it.next()?.split(',').map(|s| s.to_string()).collect(),
                        msg: it.next().unwrap_or("").to_string(),
                    });
                }
                "C" => {
                    let (n, name) = rest.split_once(' ')?;
                    r.cnt.insert(name.to_string(), n.parse().ok()?);
                }
                "S" => {
                    r.sigs.insert(u64::from_str_radix(rest, 16).ok()?);
                }
                "N" => r.notes.push(rest.to_string()),
                "H" => r.hash = u64::from_str_radix(rest, 16).ok()?,
                _ => return None,
            }
        }
        end.then_some(r)
    }
}
