//! Bounded exhaustive exploration engine shared by every check.
//!
//! A check is a list of *families*.  A family is a finite, indexed space of cases; running the
//! check visits every index of every family exactly once, on the real code, and compares what the
//! code does with a reference model.  A violation is replayed from its `family:index` pair.

use std::cell::Cell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod data;
mod death;
pub mod laws;
pub mod nf;
pub mod util;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Counters and reporting for one worker thread.
pub struct W<'a> {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    family: &'a str,
    index: u64,
    shared: &'a Shared,
}

struct Violation {
    family: String,
    index: u64,
    key: String,
    detail: String,
}

struct Shared {
    property: String,
    known: Vec<(String, String)>,
    seen_known: Mutex<Vec<usize>>,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicU64,
}

/// How many violations are collected before a run stops.
const MAX_VIOL: u64 = 40;
/// A single case that computes for this long, in processor time, is reported as a hang ...
const HANG_S: u64 = 40;
/// ... and so is one that waits for this long.
const WAIT_S: u64 = 200;
const OUTCOME_CAP: usize = 1 << 17;

impl<'a> W<'a> {
    /// One more distinct case (model state) explored.
    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
    }
    /// `n` more steps (input symbols / operations) executed.
    #[inline]
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// One complete model execution compared with the implementation.
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// Record an observed outcome, to count how many different ones were seen.
    #[inline]
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    /// Report a violation. `key` names the input, and is what a known finding is matched on.
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into();
        if let Some(k) = self.shared.known.iter().position(|k| k.0 == key) {
            let mut seen = self.shared.seen_known.lock().unwrap();
            if !seen.contains(&k) {
                seen.push(k);
            }
            return;
        }
        let n = self.shared.nviol.fetch_add(1, Relaxed);
        let short = |s: String| match s.char_indices().nth(4000) {
            Some((cut, _)) => format!("{}... ({} bytes)", &s[..cut], s.len()),
            None => s,
        };
        if n < 4096 {
            let key = short(key);
            let detail: String = detail.into();
            self.shared.violations.lock().unwrap().push(Violation {
                family: self.family.to_string(),
                index: self.index,
                key,
                detail: short(detail),
            });
        }
    }
    /// Compare, and report when different.
    #[inline]
    pub fn eq<T: PartialEq + std::fmt::Debug>(
        &mut self,
        got: &T,
        want: &T,
        key: impl FnOnce() -> String,
        what: &str,
    ) -> bool {
        self.traces += 1;
        if got != want {
            self.fail(key(), format!("{what}: implementation {got:?}, model {want:?}"));
            false
        } else {
            true
        }
    }
    #[inline]
    pub fn check(&mut self, ok: bool, key: impl FnOnce() -> String, what: &str) -> bool {
        self.traces += 1;
        if !ok {
            self.fail(key(), what.to_string());
        }
        ok
    }
}

pub struct Family<'f> {
    pub name: String,
    pub size: u64,
    pub about: String,
    pub run: Box<dyn Fn(u64, &mut W) + Sync + 'f>,
}

pub struct Check<'f> {
    pub property: String,
    pub tier: Tier,
    families: Vec<Family<'f>>,
    pub assumptions: Vec<String>,
    pub bounds: Vec<String>,
    start: Instant,
}

thread_local! {
    static GUARDED: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

/// Run code under test; a panic becomes an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| {
        LAST_PANIC
            .with(|c| c.take())
            .unwrap_or_else(|| "panic".to_string())
    })
}

impl<'f> Check<'f> {
    pub fn new(property: &str) -> Self {
        death::supervise(property);
        std::panic::set_hook(Box::new(|info| {
            if GUARDED.with(|g| g.get()) == 0 {
                eprintln!("{info}");
            }
            LAST_PANIC.with(|c| c.set(Some(format!("panicked: {info}").replace('\n', " "))));
        }));
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        Check {
            property: property.to_string(),
            tier,
            families: vec![],
            assumptions: vec![],
            bounds: vec![],
            start: Instant::now(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Pick a bound by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn family(
        &mut self,
        name: &str,
        about: &str,
        size: u64,
        run: impl Fn(u64, &mut W) + Sync + 'f,
    ) {
        self.families.push(Family {
            name: name.to_string(),
            about: about.to_string(),
            size,
            run: Box::new(run),
        });
    }

    /// The last family added is too long to be run again without debug assertions.
    pub fn heavy(&mut self) {
        if release() {
            self.families.pop();
        }
    }

    /// Visit every case of every family; write the evidence file; return the exit code.
    pub fn finish(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        let replay = args
            .iter()
            .position(|a| a == "--case")
            .map(|p| args[p + 1].clone());
        let only = args
            .iter()
            .position(|a| a == "--family")
            .map(|p| args[p + 1].clone());
        let shared = Shared {
            property: self.property.clone(),
            known: util::known_findings(&self.property),
            seen_known: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
        };
        if let Some(case) = replay {
            let (fam, idx) = case.rsplit_once(':').expect("--case family:index");
            let idx: u64 = idx.parse().expect("index");
            let f = self
                .families
                .iter()
                .find(|f| f.name == fam)
                .expect("no such family");
            let mut w = worker(&shared, &f.name);
            w.index = idx;
            run_case(f, idx, &mut w);
            drop(w);
            let v = shared.violations.lock().unwrap();
            for x in v.iter() {
                println!("{}: {}", x.key, x.detail);
            }
            println!("replayed {case}: {} violation(s)", v.len());
            std::process::exit(if v.is_empty() { 0 } else { 1 });
        }
        let nthreads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
                    .min(8)
            });
        let mut states = 0u64;
        let mut transitions = 0u64;
        let mut traces = 0u64;
        let mut outcomes: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut per_family: Vec<String> = vec![];
        let mut complete = true;
        let budget = std::env::var("MC_BUDGET_S")
            .ok()
            .and_then(|s| s.parse::<u64>().ok())
            .unwrap_or(if self.tier == Tier::Quick { 600 } else { 40 * 3600 });
        let trace = death::Trace::new();
        for f in &self.families {
            if let Some(o) = &only {
                if &f.name != o {
                    continue;
                }
            }
            if shared.nviol.load(Relaxed) >= MAX_VIOL {
                complete = false;
                break;
            }
            let t0 = Instant::now();
            let chunk = (f.size / (nthreads as u64 * 64)).clamp(1, 4096);
            let next = AtomicU64::new(0);
            let done = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let slots: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(u64::MAX)).collect();
            let tasks: Vec<Mutex<String>> = slots.iter().map(|_| Mutex::default()).collect();
            let active = AtomicUsize::new(nthreads);
            let acc = Mutex::new((0u64, 0u64, 0u64, HashSet::new(), vec![]));
            std::thread::scope(|s| {
                for (k, slot) in slots.iter().enumerate() {
                    let trace = &trace;
                    let task = &tasks[k];
                    let (next, done, acc, stop, active, shared) =
                        (&next, &done, &acc, &stop, &active, &shared);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut w = worker(shared, &f.name);
                            *task.lock().unwrap() = this_task();
                            'out: loop {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= f.size {
                                    break;
                                }
                                let b = (a + chunk).min(f.size);
                                for i in a..b {
                                    if stop.load(Relaxed) {
                                        break 'out;
                                    }
                                    slot.store(i, Relaxed);
                                    trace.case(k, &f.name, i);
                                    w.index = i;
                                    run_case(f, i, &mut w);
                                }
                                done.fetch_add(b - a, Relaxed);
                                if shared.nviol.load(Relaxed) >= MAX_VIOL {
                                    break;
                                }
                            }
                            slot.store(u64::MAX, Relaxed);
                            let mut g = acc.lock().unwrap();
                            g.0 += w.states;
                            g.1 += w.transitions;
                            g.2 += w.traces;
                            for o in &w.outcomes {
                                if g.3.len() < OUTCOME_CAP {
                                    g.3.insert(*o);
                                }
                            }
                            g.4.append(&mut w.samples);
                            active.fetch_sub(1, SeqCst);
                        })
                        .unwrap();
                }
                // Watchdog: a case that never ends is a violation, not a timeout of the check.
                let mut last: Vec<(u64, Instant, Option<f64>)> =
                    slots.iter().map(|_| (u64::MAX, Instant::now(), None)).collect();
                let mut tick = 0u64;
                while active.load(SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(if tick < 50 { 1 } else { 20 }));
                    tick += 1;
                    if tick % 16 != 0 {
                        continue;
                    }
                    for (k, slot) in slots.iter().enumerate() {
                        let v = slot.load(Relaxed);
                        if v != last[k].0 {
                            last[k] = (v, Instant::now(), None);
                            continue;
                        }
                        let waited = last[k].1.elapsed().as_secs();
                        if v == u64::MAX || waited < 2 {
                            continue;
                        }
                        // The machine may be slow or busy with something else: what counts is the
                        // time for which the case itself ran.
                        let spent = processor_time(&tasks[k].lock().unwrap());
                        let since = *last[k].2.get_or_insert(spent);
                        let times = if f.size > 1 { 1 } else { 10 };
                        if spent - since > (HANG_S * times) as f64 || waited > WAIT_S * times {
                            shared.violations.lock().unwrap().push(Violation {
                                family: f.name.clone(),
                                index: v,
                                key: format!("hang in {}:{}", f.name, v),
                                detail: format!("case did not finish within {HANG_S} s of computing or {WAIT_S} s of waiting"),
                            });
                            shared.nviol.fetch_add(1, Relaxed);
                            let code = self.report(&shared, 0, 0, 0, 0, &[], &[], false);
                            std::process::exit(code);
                        }
                    }
                    if self.start.elapsed().as_secs() > budget {
                        stop.store(true, Relaxed);
                    }
                }
            });
            let (s, t, tr, o, mut sm) = acc.into_inner().unwrap();
            states += s;
            transitions += t;
            traces += tr;
            for x in o {
                if outcomes.len() < OUTCOME_CAP {
                    outcomes.insert(x);
                }
            }
            if samples.len() < 12 {
                sm.truncate(2);
                samples.append(&mut sm);
            }
            let full = done.load(Relaxed) == f.size;
            if !full {
                complete = false;
            }
            per_family.push(format!(
                "{{\"family\":{},\"about\":{},\"cases\":{},\"cases_total\":{},\"states\":{},\"transitions\":{},\"wall_s\":{:.2}}}",
                js(&f.name),
                js(&f.about),
                done.load(Relaxed),
                f.size,
                s,
                t,
                t0.elapsed().as_secs_f64()
            ));
            eprintln!(
                "  {:<28} cases={:<12} states={:<12} steps={:<13} {:.1}s{}",
                f.name,
                done.load(Relaxed),
                s,
                t,
                t0.elapsed().as_secs_f64(),
                if full { "" } else { "  (INCOMPLETE)" }
            );
        }
        let code = self.report(
            &shared,
            states,
            transitions,
            traces,
            outcomes.len(),
            &samples,
            &per_family,
            complete && only.is_none(),
        );
        std::process::exit(code)
    }

    #[allow(clippy::too_many_arguments)]
    fn report(
        &self,
        shared: &Shared,
        states: u64,
        transitions: u64,
        traces: u64,
        outcomes: usize,
        samples: &[String],
        per_family: &[String],
        exhaustive: bool,
    ) -> i32 {
        let root = util::verif_root();
        let mut v = shared.violations.lock().unwrap();
        // Shortest first: the first counterexample printed is the simplest one.
        v.sort_by_key(|x| (x.key.chars().count(), x.key.clone(), x.index));
        let mut real = 0;
        let mut seen_known = shared.seen_known.lock().unwrap().clone();
        seen_known.sort();
        for k in seen_known.iter().filter(|_| !release()) {
            let k = &shared.known[*k];
            println!("KNOWN-FINDING: property={} {} ({})", self.property, k.1, k.0);
        }
        let dir = root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let mut printed = HashSet::new();
        for x in v.iter() {
            real += 1;
            if real <= 5 && printed.insert(x.key.clone()) {
                let p = dir.join(format!("{}-{}.txt", self.property, real));
                let body = format!(
                    "property: {}\ncase: {}:{}\ninput: {}\n{}\n\nreplay: {} {} --case {}:{}\n",
                    self.property, x.family, x.index, x.key, x.detail, command(), self.property, x.family, x.index
                );
                let _ = std::fs::write(&p, body);
                println!(
                    "VIOLATION property={} replay={}",
                    self.property,
                    p.display()
                );
                println!("  case {}:{}  input {}\n  {}", x.family, x.index, x.key, x.detail);
            }
        }
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let seed: i64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(0);
        let mut out = String::new();
        let _ = write!(
            out,
            "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {traces},\n  \"distinct_outcomes\": {outcomes},\n  \"exhaustive\": {exhaustive},\n  {NO_RELEASE},\n  \"known_findings_seen\": {},\n  \"samples\": [{}],\n  \"families\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {real}\n}}\n",
            js(&shared.property),
            seen_known.len(),
            samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            per_family.join(",\n   "),
            self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
        );
        let ev = root.join("evidence").join(format!("{}.json", self.property));
        if release() {
            // The first pass has written the file: add what this one did.
            out = std::fs::read_to_string(&ev).unwrap_or(out).replace(
                NO_RELEASE,
                &format!(
                    "\"second_pass\": {{\"about\": \"the same families without debug assertions and overflow checks, as users ship it\", \"families\": {}, \"states\": {states}, \"transitions\": {transitions}, \"exhaustive\": {exhaustive}, \"violations\": {real}, \"wall_s\": {:.2}}}",
                    per_family.len(),
                    self.start.elapsed().as_secs_f64()
                ),
            );
            if real > 0 {
                out = out.replace("\n \"violations\": 0\n", &format!("\n \"violations\": {real}\n"));
            }
        }
        std::fs::write(&ev, out).expect("write evidence");
        println!(
            "{}{}: states={states} transitions={transitions} traces={traces} outcomes={outcomes} exhaustive={exhaustive} violations={real} known={} wall={:.1}s",
            self.property,
            if release() { " (release)" } else { "" },
            seen_known.len(),
            self.start.elapsed().as_secs_f64()
        );
        if real > 0 {
            1
        } else {
            0
        }
    }
}

fn worker<'a>(shared: &'a Shared, family: &'a str) -> W<'a> {
    W {
        states: 0,
        transitions: 0,
        traces: 0,
        outcomes: HashSet::new(),
        samples: vec![],
        family,
        index: 0,
        shared,
    }
}

fn run_case(f: &Family, i: u64, w: &mut W) {
    if let Err(e) = guard(|| (f.run)(i, w)) {
        w.fail(format!("{}:{}", f.name, i), e);
    }
}

/// JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const NO_RELEASE: &str = "\"second_pass\": null";

/// Whether this is the second pass, over the code without debug assertions and overflow checks.
pub fn release() -> bool {
    std::env::var("MC_PASS").as_deref() == Ok("release")
}

/// How to run this pass again.
pub(crate) fn command() -> &'static str {
    if release() {
        "MC_PASS=release /verif/run.sh"
    } else {
        "/verif/run.sh"
    }
}

/// Pick a bound by tier.
pub fn by<T>(quick: T, thorough: T) -> T {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => thorough,
        _ => quick,
    }
}

/// The calling thread's folder in /proc.
fn this_task() -> String {
    std::fs::read_link("/proc/thread-self").map_or(String::new(), |p| format!("/proc/{}/schedstat", p.display()))
}
/// Seconds for which the thread with this folder has run.
fn processor_time(file: &str) -> f64 {
    let s = std::fs::read_to_string(file).unwrap_or_default();
    s.split(' ').next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}
