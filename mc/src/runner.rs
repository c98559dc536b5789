//! Exhaustive exploration runner: every check is a list of *families*, each family a finite indexed
//! space of executions. A worker process explores all indices of all families on several threads;
//! a supervisor process turns its results (or its death: abort, signal, hang) into a verdict.
#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseFn = Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Sync + Send>;
pub struct Family { pub name: String, pub n: u64, pub f: CaseFn, pub bound: String }
pub fn fam<F: Fn(u64, &mut Ctx) -> Result<(), String> + Sync + Send + 'static>(name: &str, bound: &str, n: u64, f: F) -> Family {
    Family { name: name.to_string(), n, f: Box::new(f), bound: bound.to_string() }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier { pub fn name(self) -> &'static str { match self { Tier::Quick => "quick", Tier::Thorough => "thorough" } } pub fn thorough(self) -> bool { self == Tier::Thorough } }

pub struct Ctx {
    pub dir: PathBuf,
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    slot: *mut Slot,
}
unsafe impl Send for Ctx {}
impl Ctx {
    pub fn path(&self, n: &str) -> PathBuf { self.dir.join(n) }
    pub fn op(&mut self, n: u64) { self.transitions += n; if !self.slot.is_null() { unsafe { (*self.slot).beat = (*self.slot).beat.wrapping_add(1); } } }
    pub fn trace(&mut self) { self.traces += 1; }
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); self.states.insert(h.finish()); }
    pub fn count(&mut self, k: &str) { self.countn(k, 1) }
    pub fn countn(&mut self, k: &str, n: u64) { if let Some(c) = self.counts.get_mut(k) { *c += n } else { self.counts.insert(k.to_string(), n); } }
    /// A violation identified as one of the findings of known_findings.txt.
    pub fn known(&mut self, id: &str, what: impl FnOnce() -> String) { self.known.entry(id.to_string()).or_insert_with(|| (0, what())).0 += 1; }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.want_sample && self.samples.len() < 40 { self.samples.push(s()); self.want_sample = false; } }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Slot { active: u32, family: u32, index: u64, beat: u64, huge: u64 }

// ---------------------------------------------------------------- allocator with a per-thread cap
pub struct CapAlloc;
thread_local! { static CAP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; static SLOT: std::cell::Cell<*mut Slot> = const { std::cell::Cell::new(std::ptr::null_mut()) };
    static LIVE: std::cell::Cell<(isize, isize)> = const { std::cell::Cell::new((0, 0)) }; }
fn check_cap(size: usize) {
    let cap = CAP.try_with(|c| c.get()).unwrap_or(0);
    if cap != 0 && size > cap {
        let s = SLOT.with(|s| s.get());
        if !s.is_null() { unsafe { (*s).huge = size as u64; } }
        unsafe { libc::abort(); }
    }
}
/// Bytes allocated (and not freed) by this thread.
pub fn live_bytes() -> isize { LIVE.with(|l| l.get().0) }
fn live(d: isize) { let _ = LIVE.try_with(|l| { let (c, m) = l.get(); let c = c + d; l.set((c, m.max(c))); }); }
unsafe impl std::alloc::GlobalAlloc for CapAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { check_cap(l.size()); live(l.size() as isize); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { live(-(l.size() as isize)); std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { check_cap(l.size()); live(l.size() as isize); std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { check_cap(n); live(n as isize - l.size() as isize); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: CapAlloc = CapAlloc;
/// Runs `f` with every single allocation limited to `cap` bytes (a larger one aborts the worker,
/// which the supervisor reports); returns the result and the peak of live bytes during `f`.
pub fn with_alloc_cap<T>(cap: usize, f: impl FnOnce() -> T) -> (T, isize) {
    let base = LIVE.with(|l| { let (c, _) = l.get(); l.set((c, c)); c });
    struct Reset; impl Drop for Reset { fn drop(&mut self) { CAP.with(|c| c.set(0)); } }
    CAP.with(|c| c.set(cap));
    let _g = Reset;
    let r = f();
    let peak = LIVE.with(|l| l.get().1) - base;
    (r, peak)
}

// ---------------------------------------------------------------- worker
const NSLOTS: usize = 64;
fn map_slots(path: &Path) -> *mut Slot {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    let len = NSLOTS * std::mem::size_of::<Slot>();
    f.set_len(len as u64).unwrap();
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    p as *mut Slot
}
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ") }
fn unesc(s: &str) -> String { s.replace("\\n", "\n").replace("\\\\", "\\") }

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn run_case(f: &CaseFn, i: u64, ctx: &mut Ctx) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, ctx))) {
        Ok(r) => r,
        Err(_) => { crate::ioshim::reset(); CAP.with(|c| c.set(0)); Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))) }
    }
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

pub fn worker(families: Vec<Family>, scratch: &Path, only: Option<(String, u64)>, threads: usize) {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
    let slots = map_slots(&scratch.join("slots")) as usize;
    let out = Mutex::new(std::fs::OpenOptions::new().create(true).append(true).open(scratch.join("result")).unwrap());
    let emit = |s: String| { let mut o = out.lock().unwrap(); o.write_all(s.as_bytes()).unwrap(); o.write_all(b"\n").unwrap(); };
    let (transitions, traces) = (AtomicU64::new(0), AtomicU64::new(0));
    let states: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let counts: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let known: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
    let nfail = AtomicUsize::new(0);
    for (fi, fam) in families.iter().enumerate() {
        let mut range = (0, fam.n);
        if let Some((name, i)) = &only { if *name != fam.name { continue; } if *i != u64::MAX { range = (*i, *i + 1); } }
        if nfail.load(Ordering::SeqCst) >= 3 { emit(format!("SKIP\t{}\t0\t-", fam.name)); continue; }
        let t0 = Instant::now();
        let next = AtomicU64::new(range.0);
        let stop = AtomicBool::new(false);
        let fails: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
        let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
        let span = range.1 - range.0;
        let chunk = (span / (threads as u64 * 64)).clamp(1, 256);
        let executed = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..threads.min(span.max(1) as usize) {
                let (next, stop, fails, samples, transitions, traces, states, counts, known, executed) = (&next, &stop, &fails, &samples, &transitions, &traces, &states, &counts, &known, &executed);
                let dir = scratch.join(format!("t{}", t));
                sc.spawn(move || {
                    let slot = unsafe { (slots as *mut Slot).add(t) };
                    SLOT.with(|s| s.set(slot));
                    let _ = std::fs::create_dir_all(&dir);
                    let mut ctx = Ctx { dir: dir.clone(), transitions: 0, traces: 0, states: HashSet::new(), counts: BTreeMap::new(), known: BTreeMap::new(), samples: vec![], want_sample: false, slot };
                    'o: loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= range.1 || stop.load(Ordering::Relaxed) { break; }
                        for i in a..(a + chunk).min(range.1) {
                            if stop.load(Ordering::Relaxed) { break 'o; }
                            unsafe { std::ptr::write_volatile(slot, Slot { active: 1, family: fi as u32, index: i, beat: (*slot).beat.wrapping_add(1), huge: 0 }); }
                            ctx.want_sample = i == range.0 || i == range.0 + span / 2 || i + 1 == range.1;
                            let r = run_case(&fam.f, i, &mut ctx);
                            executed.fetch_add(1, Ordering::Relaxed);
                            if ctx.want_sample && r.is_ok() { ctx.samples.push(format!("#{}", i)); ctx.want_sample = false; }
                            if let Err(m) = r {
                                let mut f = fails.lock().unwrap();
                                f.insert(i, m);
                                if f.len() >= 20 { stop.store(true, Ordering::Relaxed); }
                                // smaller indices being explored by other threads are still finished
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    unsafe { std::ptr::write_volatile(slot, Slot { active: 0, family: 0, index: 0, beat: 0, huge: 0 }); }
                    transitions.fetch_add(ctx.transitions, Ordering::Relaxed);
                    traces.fetch_add(ctx.traces, Ordering::Relaxed);
                    states.lock().unwrap().extend(ctx.states);
                    for (k, v) in ctx.counts { *counts.lock().unwrap().entry(k).or_insert(0) += v; }
                    for (k, v) in ctx.known { let mut kn = known.lock().unwrap(); let e = kn.entry(k).or_insert((0, v.1)); e.0 += v.0; }
                    samples.lock().unwrap().extend(ctx.samples);
                    let _ = std::fs::remove_dir_all(&dir);
                });
            }
        });
        emit(format!("FAM\t{}\t{}\t{}\t{}\t{:.2}", fam.name, executed.load(Ordering::SeqCst), fam.n, esc(&fam.bound), t0.elapsed().as_secs_f64()));
        for s in samples.into_inner().unwrap().into_iter().take(3) { emit(format!("SAMPLE\t{}\t{}", fam.name, esc(&s))); }
        for (i, m) in fails.into_inner().unwrap().into_iter().take(1) { nfail.fetch_add(1, Ordering::SeqCst); emit(format!("FAIL\t{}\t{}\t{}", fam.name, i, esc(&m))); }
    }
    emit(format!("STAT\ttransitions\t{}", transitions.load(Ordering::SeqCst)));
    emit(format!("STAT\ttraces\t{}", traces.load(Ordering::SeqCst)));
    emit(format!("STAT\tstates\t{}", states.lock().unwrap().len()));
    for (k, v) in counts.into_inner().unwrap() { emit(format!("COUNT\t{}\t{}", esc(&k), v)); }
    for (k, v) in known.into_inner().unwrap() { emit(format!("KNOWN\t{}\t{}\t{}", k, v.0, esc(&v.1))); }
    emit("DONE".to_string());
}

// ---------------------------------------------------------------- supervisor
pub struct Outcome { pub fails: Vec<(String, u64, String)>, pub fams: Vec<(String, u64, u64, String, f64)>, pub samples: Vec<(String, String)>, pub stats: BTreeMap<String, u64>, pub counts: BTreeMap<String, u64>, pub known: BTreeMap<String, (u64, String)>, pub done: bool }

fn parse_result(p: &Path) -> Outcome {
    let mut o = Outcome { fails: vec![], fams: vec![], samples: vec![], stats: BTreeMap::new(), counts: BTreeMap::new(), known: BTreeMap::new(), done: false };
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "FAIL" => o.fails.push((f[1].into(), f[2].parse().unwrap(), unesc(f[3]))),
            "FAM" => o.fams.push((f[1].into(), f[2].parse().unwrap(), f[3].parse().unwrap(), unesc(f[4]), f[5].parse().unwrap())),
            "SAMPLE" => o.samples.push((f[1].into(), unesc(f[2]))),
            "STAT" => { o.stats.insert(f[1].into(), f[2].parse().unwrap()); }
            "COUNT" => { o.counts.insert(unesc(f[1]), f[2].parse().unwrap()); }
            "KNOWN" => { o.known.insert(f[1].into(), (f[2].parse().unwrap(), unesc(f[3]))); }
            "DONE" => o.done = true,
            _ => {}
        }
    }
    o
}
enum End { Exit(i32), Signal(i32), Hang }
fn spawn_worker(id: &str, tier: Tier, scratch: &Path, only: Option<(&str, u64)>, hang: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(id).arg("--worker").arg(scratch).arg("--tier").arg(tier.name());
    if let Some((f, i)) = only { c.arg("--only").arg(f).arg(i.to_string()); }
    let slots = map_slots(&scratch.join("slots"));
    let mut child = c.spawn().expect("spawn worker");
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); NSLOTS];
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            return match (st.code(), st.signal()) { (Some(c), _) => End::Exit(c), (_, Some(s)) => End::Signal(s), _ => End::Exit(99) };
        }
        std::thread::sleep(Duration::from_millis(20));
        for t in 0..NSLOTS {
            let s = unsafe { std::ptr::read_volatile(slots.add(t)) };
            if s.active == 0 || s.beat != last[t].0 { last[t] = (s.beat, Instant::now()); }
            else if last[t].1.elapsed() > hang { let _ = child.kill(); let _ = child.wait(); return End::Hang; }
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

pub fn scratch_root() -> PathBuf {
    for c in ["/dev/shm", "/tmp"] {
        let p = Path::new(c).join(format!("netcdf3-mc-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("probe"), b"x").is_ok() { return p; }
    }
    let p = std::env::temp_dir().join(format!("netcdf3-mc-{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}

pub struct Known { pub id: String, pub property: String }
/// known_findings.txt: the lines `open: property=<id> id=<finding> ..` (the fixed ones suppress nothing).
pub fn load_known(verif: &Path) -> Vec<Known> {
    let text = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    text.lines().filter_map(|l| {
        let mut w = l.strip_prefix("open: ")?.split_whitespace();
        Some(Known { property: w.next()?.strip_prefix("property=")?.to_string(), id: w.next()?.strip_prefix("id=")?.to_string() })
    }).collect()
}

pub struct CheckInfo { pub id: &'static str, pub assumptions: Vec<String>, pub note: String }

pub fn supervise(info: &CheckInfo, tier: Tier, verif: &Path, only: Option<(String, u64)>) -> i32 {
    let t0 = Instant::now();
    let id = info.id;
    let scratch = scratch_root();
    let hang = Duration::from_secs(if tier.thorough() { 240 } else { 90 });
    let mut extra: Vec<(String, u64, String)> = vec![];
    let end = spawn_worker(id, tier, &scratch, only.as_ref().map(|(f, i)| (f.as_str(), *i)), hang);
    let mut engine_error = None;
    match &end {
        End::Exit(0) => {}
        End::Exit(c) => engine_error = Some(format!("the worker exited with code {}", c)),
        End::Signal(_) | End::Hang => {
            // which executions were running? replay each one alone
            let names = family_names(id, tier);
            let slots = map_slots(&scratch.join("slots"));
            let cand: Vec<(String, u64)> = (0..NSLOTS).map(|t| unsafe { *slots.add(t) }).filter(|s| s.active == 1).map(|s| (names[s.family as usize].clone(), s.index)).collect();
            let what = |e: &End, huge: u64| match e { End::Signal(s) if huge > 0 => format!("an allocation of {} bytes is requested (signal {})", huge, s), End::Signal(s) => format!("the process is killed by signal {} (abort, stack overflow or memory error)", s), End::Hang => "no answer: endless loop".to_string(), End::Exit(c) => format!("exit code {}", c) };
            for (f, i) in cand {
                let sub = scratch.join("single"); let _ = std::fs::create_dir_all(&sub);
                let e = spawn_worker(id, tier, &sub, Some((&f, i)), hang);
                let huge = (0..NSLOTS).map(|t| unsafe { (*map_slots(&sub.join("slots")).add(t)).huge }).max().unwrap_or(0);
                let o = parse_result(&sub.join("result"));
                if let End::Signal(_) | End::Hang = e { extra.push((f.clone(), i, what(&e, huge))); }
                extra.extend(o.fails);
                let _ = std::fs::remove_dir_all(&sub);
                if !extra.is_empty() { break; }
            }
            if extra.is_empty() { engine_error = Some(match end { End::Signal(s) => format!("the worker was killed by signal {} and no single execution reproduces it", s), _ => "the worker stopped answering and no single execution reproduces it".into() }); }
        }
    }
    let mut o = parse_result(&scratch.join("result"));
    o.fails.extend(extra);
    // known findings: only those listed for this property
    let listed = load_known(verif);
    for (k, (n, what)) in &o.known {
        if listed.iter().any(|x| x.id == *k && x.property == id) { println!("KNOWN-FINDING: property={} {} ({} executions), e.g. {}", id, k, n, what); }
        else { o.fails.push(("known:".to_string() + k, 0, format!("(not listed in known_findings.txt) {}", what))); }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let (executed, total): (u64, u64) = o.fams.iter().fold((0, 0), |a, f| (a.0 + f.1, a.1 + f.2));
    let exhaustive = only.is_none() && o.done && executed == total && o.fails.is_empty();
    for f in &o.fams { eprintln!("{} {:<28} {:>9}/{:<9} {:>7.2}s  {}", id, f.0, f.1, f.2, f.4, f.3); }
    // evidence
    let mut ev = String::new();
    ev.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", json_str(id), json_str(tier.name()), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1)));
    let g = |k: &str| o.stats.get(k).copied().unwrap_or(0);
    ev.push_str(&format!(" \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n", g("states"), g("transitions"), g("traces"), executed, exhaustive, json_str(&info.note)));
    ev.push_str("  \"families\": {\n");
    ev.push_str(&o.fams.iter().map(|f| format!("   {}: {{\"executed\": {}, \"space\": {}, \"bound\": {}, \"wall_s\": {:.2}}}", json_str(&f.0), f.1, f.2, json_str(&f.3), f.4)).collect::<Vec<_>>().join(",\n"));
    ev.push_str("\n  },\n  \"outcomes\": {");
    ev.push_str(&o.counts.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"known_findings\": {");
    ev.push_str(&o.known.iter().map(|(k, v)| format!("{}: {{\"executions\": {}, \"example\": {}}}", json_str(k), v.0, json_str(&v.1))).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"samples\": [\n");
    ev.push_str(&o.samples.iter().map(|(f, s)| format!("   {}", json_str(&format!("{}: {}", f, s)))).collect::<Vec<_>>().join(",\n"));
    ev.push_str("\n  ]\n },\n \"assumptions\": [\n");
    ev.push_str(&info.assumptions.iter().map(|s| format!("  {}", json_str(s))).collect::<Vec<_>>().join(",\n"));
    ev.push_str(&format!("\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), o.fails.len()));
    if only.is_none() {
        let _ = std::fs::create_dir_all(verif.join("evidence"));
        std::fs::write(verif.join("evidence").join(format!("{}.json", id)), ev).expect("evidence");
    }
    if !o.fails.is_empty() {
        let dir = verif.join("replay"); let _ = std::fs::create_dir_all(&dir);
        for (f, i, m) in &o.fails {
            let p = dir.join(format!("{}-{}-{}.txt", id, f.replace(|c: char| !c.is_alphanumeric() && c != '_' && c != '-', "_"), i));
            let _ = std::fs::write(&p, format!("property: {}\nfamily: {}\nindex: {}\ntier: {}\nreplay: bash /verif/check.sh {} --tier {} --only {} {}\n\n{}\n", id, f, i, tier.name(), id, tier.name(), f, i, m));
            println!("{} [{} #{}]: {}", id, f, i, m.lines().take(40).collect::<Vec<_>>().join("\n  "));
            println!("VIOLATION property={} replay={}", id, p.display());
        }
        return 1;
    }
    if let Some(e) = engine_error { eprintln!("{}: engine error: {}", id, e); return 2; }
    if !o.done { eprintln!("{}: engine error: incomplete run", id); return 2; }
    if total == 0 { eprintln!("{}: engine error: nothing explored", id); return 2; }
    println!("{} {}: held on {} executions ({} states, {} transitions, {} traces against the library) in {:.1}s", id, tier.name(), executed, g("states"), g("transitions"), g("traces"), t0.elapsed().as_secs_f64());
    0
}
fn family_names(id: &str, tier: Tier) -> Vec<String> { crate::families(id, tier).iter().map(|f| f.name.clone()).collect() }

/// Mixed radix decoding of an index.
pub struct Digits(pub u64);
impl Digits { pub fn next(&mut self, n: usize) -> usize { let r = self.0 % n as u64; self.0 /= n as u64; r as usize } }
/// Number of sequences of length 0..=d over an alphabet of k letters.
pub fn nseqs(k: usize, d: usize) -> u64 { (0..=d as u32).map(|i| (k as u64).pow(i)).sum() }
/// The i-th sequence (shortest first).
pub fn seq(mut i: u64, k: usize) -> Vec<usize> {
    let mut len = 0;
    while i >= (k as u64).pow(len) { i -= (k as u64).pow(len); len += 1; }
    let mut r = vec![0; len as usize];
    for x in r.iter_mut().rev() { *x = (i % k as u64) as usize; i /= k as u64; }
    r
}
