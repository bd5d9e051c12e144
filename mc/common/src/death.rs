//! A check whose process dies (abort, stack overflow, out of memory) has found a violation, too.
//!
//! The check runs in a child process.  When the child ends with neither 0 nor 1, it is run again,
//! noting the case each thread is in; the cases it dies in are then tried one by one.

use crate::util;
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitStatus, Stdio};

/// No single allocation of a check comes near this; code that needs it is in an endless loop.
const HUGE: usize = 768 << 20;

struct Alloc;
#[global_allocator]
static ALLOC: Alloc = Alloc;

#[cold]
fn huge() -> ! {
    eprintln!("a single allocation of over {HUGE} bytes");
    std::process::abort()
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE {
            huge()
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE {
            huge()
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HUGE {
            huge()
        }
        System.realloc(p, l, n)
    }
}

const SLOT: usize = 128;

/// Where each thread notes the case it is in, when asked to.
pub struct Trace(Option<std::fs::File>);
impl Trace {
    pub fn new() -> Trace {
        Trace(std::env::var_os("MC_TRACE").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()))
    }
    #[inline]
    pub fn case(&self, thread: usize, family: &str, index: u64) {
        if let Some(f) = &self.0 {
            let s = format!("{:<w$}", format!("{family}:{index}"), w = SLOT - 1) + "\n";
            let _ = f.write_all_at(s.as_bytes(), (thread * SLOT) as u64);
        }
    }
}

fn how(s: &ExitStatus) -> String {
    match (s.signal(), s.code()) {
        (Some(n), _) => format!("killed by signal {n}"),
        (_, Some(c)) => format!("ended with exit code {c}"),
        _ => "ended".into(),
    }
}

fn died(s: &ExitStatus) -> bool {
    !matches!(s.code(), Some(0) | Some(1))
}

/// In the first process: run the check in a child, report its death, and exit.  In the child: return.
pub fn supervise(property: &str) {
    if std::env::var_os("MC_CHILD").is_some() {
        return;
    }
    let exe = std::env::current_exe().expect("current_exe");
    let args: Vec<_> = std::env::args_os().skip(1).collect();
    let child = |a: &[std::ffi::OsString], trace: Option<&std::path::Path>, quiet: bool| {
        let mut c = Command::new(&exe);
        c.args(a).env("MC_CHILD", "1");
        if let Some(t) = trace {
            c.env("MC_TRACE", t);
        }
        if quiet {
            c.stdout(Stdio::null()).stderr(Stdio::null());
        }
        c.status().expect("run the check in a child process")
    };
    let mut status = child(&args, None, false);
    if !died(&status) {
        std::process::exit(status.code().unwrap());
    }
    let single = args.iter().any(|a| a == "--case");
    if single {
        println!("replayed: the process was {}", how(&status));
        std::process::exit(1);
    }
    println!("the check was {}; running it again to find the case", how(&status));
    let dir = util::verif_root().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let tr = dir.join(format!("{property}.trace"));
    let mut culprit = None;
    if std::fs::write(&tr, "").is_ok() {
        let again = child(&args, Some(&tr), true);
        if !died(&again) {
            // What killed it came from outside, or does not come back: the second run decides.
            let _ = std::fs::remove_file(&tr);
            std::process::exit(child(&args, None, false).code().unwrap_or(2));
        }
        status = again;
        let prop: std::ffi::OsString = args.first().cloned().unwrap_or_default();
        for case in std::fs::read_to_string(&tr).unwrap_or_default().lines() {
            let case = case.trim_matches(|c: char| c == '\0' || c.is_whitespace());
            if case.is_empty() || culprit.is_some() {
                continue;
            }
            let s = child(&[prop.clone(), "--case".into(), case.into()], None, true);
            if died(&s) {
                status = s;
                culprit = Some(case.to_string());
            }
        }
        let _ = std::fs::remove_file(&tr);
    }
    let case = culprit.unwrap_or_else(|| "unknown:0".into());
    let rp = dir.join(format!("{property}-1.txt"));
    let _ = std::fs::write(
        &rp,
        format!(
            "property: {property}\ncase: {case}\nthe process running this case is {}\n\nreplay: {} {property} --case {case}\n",
            how(&status),
            crate::command()
        ),
    );
    println!("VIOLATION property={property} replay={}", rp.display());
    println!("  case {case}\n  the process running this case is {}", how(&status));
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let _ = std::fs::write(
        util::verif_root().join("evidence").join(format!("{property}.json")),
        format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": 0,\n  \"transitions\": 0,\n  \"traces_validated_against_impl\": 0,\n  \"exhaustive\": false,\n  \"died_in\": {}\n }},\n \"assumptions\": [],\n \"wall_s\": 0,\n \"violations\": 1\n}}\n",
            crate::js(property),
            crate::js(&tier),
            crate::js(&case)
        ),
    );
    std::process::exit(1)
}
