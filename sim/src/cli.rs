//! The command line of the simulated process, and the real `main` that reads it.
use crate::rng::Rng;
use std::ffi::CString;
use std::os::raw::{c_char, c_int};

/// The program's own entry point, compiled from the emulator's main.rs.
#[cfg(not(carron_no_main))]
mod real {
    #![allow(unused_imports)]
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src/main.rs"));
    pub fn go() {
        let _ = main();
    }
}
#[cfg(carron_no_main)]
mod real {
    pub fn go() {
        // same steps, for a tree whose main.rs cannot be included
        let a = carron::cmdline::Arguments::new();
        match crate::mach::boot(a) {
            Some(mut e) => e.emulation(),
            None => (),
        }
    }
}
pub use real::go;

extern "C" {
    static __init_array_start: u8;
    static __init_array_end: u8;
}

/// Give the process another command line: what the C runtime does at start-up.
pub fn set_argv(v: &[String]) {
    let mut p: Vec<*const c_char> = v.iter().map(|s| CString::new(s.as_bytes()).unwrap().into_raw() as *const c_char).collect();
    p.push(std::ptr::null());
    let p = Box::leak(p.into_boxed_slice());
    unsafe {
        let a = std::ptr::addr_of!(__init_array_start) as usize;
        let b = std::ptr::addr_of!(__init_array_end) as usize;
        extern "C" {
            static environ: *const *const c_char;
        }
        let mut q = a;
        while q < b {
            let f: extern "C" fn(c_int, *const *const c_char, *const *const c_char) = std::mem::transmute(*(q as *const usize));
            f(v.len() as c_int, p.as_ptr(), environ);
            q += 8;
        }
    }
    let got: Vec<String> = std::env::args().collect();
    if got != v {
        panic!("HARNESS the command line could not be set");
    }
}

#[derive(Clone, Default, Debug)]
pub struct Cmd {
    pub image: String,
    pub pk: Option<String>,
    pub kernel: Option<String>,
    pub initrd: Option<String>,
    pub pc: Option<String>,
    /// one of the options that show the image instead of running it
    pub show: Option<&'static str>,
    /// what the emulator is asked to log (to its standard output)
    pub loglv: Option<&'static str>,
    pub args: Vec<String>,
}

pub const SHOW: &[&str] = &["-e", "--elfhead", "-p", "--program", "-s", "--section", "-d", "--disasem", "-a", "--all"];

impl Cmd {
    /// One of the spellings of this command line.
    pub fn argv(&self, style: u64) -> Vec<String> {
        let mut r = Rng::new(style ^ 0x61_7267_76);
        let mut opts: Vec<Vec<String>> = vec![];
        for (n, x) in [("pk", &self.pk), ("kernel", &self.kernel), ("initrd", &self.initrd), ("pc", &self.pc)] {
            if let Some(x) = x {
                if r.chance(1, 2) {
                    opts.push(vec![format!("--{n}={x}")]);
                } else {
                    opts.push(vec![format!("--{n}"), x.clone()]);
                }
            }
        }
        if let Some(s) = self.show {
            opts.push(vec![s.to_string()]);
        }
        if let Some(l) = self.loglv {
            opts.push(if style & 1 == 0 { vec!["--loglv".into(), l.into()] } else { vec![format!("--loglv={l}")] });
        } else if r.chance(1, 5) {
            opts.push(vec!["--loglv".into(), r.pick(&["nolog", "nothing", "NoLog"]).to_string()]);
        }
        for i in (1..opts.len()).rev() {
            opts.swap(i, r.below(i as u64 + 1) as usize);
        }
        let dash = self.args.iter().any(|a| a.starts_with('-')) || r.chance(1, 6);
        let at = r.below(opts.len() as u64 + 1) as usize;
        let rest_after_args = !dash && r.chance(1, 2);
        let mut v = vec!["carron".to_string()];
        for o in &opts[..at] {
            v.extend(o.iter().cloned());
        }
        if !rest_after_args && dash && r.chance(1, 3) {
            for o in &opts[at..] {
                v.extend(o.iter().cloned());
            }
            v.push("--".into());
            v.push(self.image.clone());
            v.extend(self.args.iter().cloned());
            return v;
        }
        v.push(self.image.clone());
        if rest_after_args {
            v.extend(self.args.iter().cloned());
        }
        for o in &opts[at..] {
            v.extend(o.iter().cloned());
        }
        if !rest_after_args {
            if dash {
                v.push("--".into());
            }
            v.extend(self.args.iter().cloned());
        }
        v
    }
    /// What a program under the proxy gets to see.
    pub fn main_args(&self) -> Vec<String> {
        self.pk.iter().chain(Some(&self.image)).chain(&self.args).cloned().collect()
    }
    /// The file that is loaded.
    pub fn loaded(&self) -> &str {
        self.pk.as_ref().unwrap_or(&self.image)
    }
}
