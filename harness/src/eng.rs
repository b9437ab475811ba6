//! Execution engine: runs the cases of a property on worker threads, watches them (panics, hangs,
//! memory) and accumulates what was observed.
use crate::rng::{fnv, mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation monitor
pub struct Alloc;
thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
/// No workload needs a gigabyte: such a request fails, which aborts the process.
const CAP: usize = 1 << 30;
fn note(d: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + d;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > CAP {
            return std::ptr::null_mut();
        }
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
/// Number of bytes this thread has allocated and not freed.
pub fn live() -> isize {
    CUR.with(|c| c.get())
}
/// Peak number of bytes `f` had allocated on this thread beyond what was live before it.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let pk = PEAK.with(|p| p.get());
    (r, (pk - base).max(0) as usize)
}

// ---------------------------------------------------------------- cases
pub struct Ctx {
    pub rng: Rng,
    pub build: String,
    pub thorough: bool,
    /// running in the interpreter: smaller sizes, the same operations
    pub small: bool,
    pub group: &'static str,
    pub idx: usize,
    pub cov: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: Vec<u64>,
    pub digest: u64,
    samples: Vec<String>,
    /// judge the kind of the errors, too
    pub causes: bool,
}
pub type R = Result<(), String>;
pub struct Group {
    pub name: &'static str,
    pub n: usize,
    /// factor on the number of cases in the thorough tier
    pub deep: usize,
    pub f: fn(&mut Ctx) -> R,
}
pub const fn g(name: &'static str, n: usize, f: fn(&mut Ctx) -> R) -> Group {
    Group { name, n, deep: 12, f }
}
impl Ctx {
    pub fn new(o: &Opts, group: &'static str, idx: usize) -> Ctx {
        Ctx {
            rng: Rng::new(case_seed(o, group, idx)),
            build: o.build.clone(),
            thorough: o.thorough,
            small: o.build == "miri",
            group,
            idx,
            cov: BTreeMap::new(),
            evals: 0,
            nontrivial: 0,
            distinct: vec![],
            digest: 0,
            samples: vec![],
            causes: false,
        }
    }
    /// the same case again, nothing observed yet
    pub fn twin(&self, group: &'static str, idx: usize) -> Ctx {
        Ctx {
            rng: self.rng.clone(),
            build: self.build.clone(),
            group,
            idx,
            cov: BTreeMap::new(),
            distinct: vec![],
            samples: vec![],
            evals: 0,
            nontrivial: 0,
            digest: 0,
            ..*self
        }
    }
    /// Does the error name the check that failed, according to the model?
    pub fn cause(&mut self, lib: &str, model: &'static str, at: impl Fn() -> String) -> R {
        if !self.causes {
            return Ok(());
        }
        let want: &[&str] = match model {
            "eof" => &["Eof"],
            "size head" | "size not minimal" | "size range" => &["BadValue"],
            // malformed, or the end of the input within the signature
            "mssig" => &["BadValue", "Eof"],
            "mac" => &["MacVerifyFailed"],
            "sig" | "linked sig" => &["MssVerifyFailed"],
            "ntru" => &["NtruDecrFailed"],
            "ntru pk" => &["NtruBadPublicKey"],
            "version" => &["VersionUnsupported"],
            "oneof" => &["BadOneOf"],
            "link" => &["LinkNotFound"],
            "no key" => &["KeyNotFound"],
            e => return Err(format!("model refuses for an unknown cause {}", e)),
        };
        self.ev("causes compared");
        self.ev(model);
        if !want.contains(&lib) {
            return Err(format!("{}: refused with {}, but what fails first is: {} ({})", at(), lib, model, want.join(" or ")));
        }
        Ok(())
    }
    /// one observation judged by an oracle
    pub fn ev(&mut self, what: &'static str) {
        self.evals += 1;
        *self.cov.entry(what).or_insert(0) += 1;
    }
    pub fn evn(&mut self, what: &'static str, n: usize) {
        self.evals += n as u64;
        *self.cov.entry(what).or_insert(0) += n as u64;
    }
    /// remember the identity of a non-trivial case (input that exercised the oracle)
    pub fn seen(&mut self, h: u64) {
        self.nontrivial += 1;
        if self.distinct.len() < 4096 {
            self.distinct.push(h);
        }
    }
    pub fn seen_b(&mut self, b: &[u8]) {
        self.dig(b);
        self.seen(fnv(b))
    }
    pub fn dig(&mut self, b: &[u8]) {
        self.digest = mix(self.digest ^ fnv(b));
    }
    pub fn sample(&mut self, s: String) {
        if self.idx < 2 && self.samples.len() < 2 {
            self.samples.push(s);
        }
    }
    pub fn sub(&mut self, n: u64) -> Rng {
        Rng::new(self.rng.u64() ^ n)
    }
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)+) => {
        if !$c { return Err(format!($($a)+)); }
    };
}

// ---------------------------------------------------------------- panics
thread_local! { static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
thread_local! { static STUBBED: Cell<bool> = const { Cell::new(false) }; }
/// Stands where `check.py` had to take out code that no longer compiles (see "Repaired harness" in DESIGN.md):
/// the case is not counted.
pub fn stub() -> ! {
    STUBBED.with(|s| s.set(true));
    panic!("HARNESS STUB")
}
/// did the case that ends here need such code?
pub fn stubbed(r: &R) -> bool {
    STUBBED.with(|s| s.replace(false)) || matches!(r, Err(e) if e.contains("HARNESS STUB"))
}
/// Run `f`; a panic raised by the code under test becomes Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if from_harness(&loc) {
                Err(format!("HARNESS panic at {}: {}", loc, msg))
            } else {
                Err(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}
fn from_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("harness/src")
}

// ---------------------------------------------------------------- runner
pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub salt: String,
    pub build: String,
    pub thorough: bool,
    pub scale: f64,
    pub threads: usize,
    pub out: Option<String>,
    pub progress: Option<String>,
    pub only: Option<(String, usize)>,
    pub deadline: f64,
    /// file for the digest of every case
    pub digests: Option<String>,
    pub hang_cpu: f64,
}
fn tid_cpu(tid: usize) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}
fn my_tid() -> usize {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn case_seed(o: &Opts, group: &str, idx: usize) -> u64 {
    mix(o.seed ^ fnv(o.prop.as_bytes())) ^ mix(fnv(group.as_bytes()) ^ fnv(o.salt.as_bytes()).rotate_left(17)) ^ mix(idx as u64).rotate_left(9)
}

struct Total {
    cov: BTreeMap<&'static str, u64>,
    cases: BTreeMap<&'static str, u64>,
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    digests: BTreeMap<&'static str, u64>,
    case_digests: Vec<(&'static str, usize, u64)>,
    samples: Vec<String>,
    viol: Vec<(String, usize, String)>,
    harness: Vec<String>,
}

pub fn run(groups: &[Group], o: &Opts) -> i32 {
    install_hook();
    // Interleave the groups so that a truncated run still covers all of them.
    let mut list: Vec<(usize, usize)> = Vec::new();
    if let Some((gn, i)) = &o.only {
        match groups.iter().position(|x| x.name == gn) {
            Some(k) => list.push((k, *i)),
            None => {
                eprintln!("no such group {}", gn);
                return 2;
            }
        }
    } else {
        let mut all: Vec<(f64, usize, usize)> = Vec::new();
        for (k, gr) in groups.iter().enumerate() {
            let n = ((gr.n * if o.thorough { gr.deep } else { 1 }) as f64 * o.scale).ceil() as usize;
            let n = n.max(1);
            for i in 0..n {
                all.push(((i as f64 + 0.5) / n as f64, k, i));
            }
        }
        all.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        list = all.into_iter().map(|x| (x.1, x.2)).collect();
    }
    let prog = o.progress.as_ref().and_then(|p| std::fs::File::create(p).ok());
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let trunc = AtomicBool::new(false);
    let live = AtomicUsize::new(o.threads);
    let tids: Vec<AtomicUsize> = (0..o.threads).map(|_| AtomicUsize::new(0)).collect();
    let case_no: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(0)).collect();
    let start = Instant::now();
    let total = Mutex::new(Total {
        cov: BTreeMap::new(),
        cases: BTreeMap::new(),
        evals: 0,
        nontrivial: 0,
        distinct: HashSet::new(),
        digests: BTreeMap::new(),
        case_digests: vec![],
        samples: vec![],
        viol: vec![],
        harness: vec![],
    });
    let hang = Mutex::new(None::<String>);
    std::thread::scope(|sc| {
        for th in 0..o.threads {
            let (list, next, stop, trunc, tids, case_no, total, prog, live) =
                (&list, &next, &stop, &trunc, &tids, &case_no, &total, &prog, &live);
            let b = std::thread::Builder::new().stack_size(16 << 20);
            let r = b.spawn_scoped(sc, move || {
                tids[th].store(my_tid(), SeqCst);
                loop {
                    if stop.load(SeqCst) {
                        break;
                    }
                    if start.elapsed().as_secs_f64() > o.deadline {
                        trunc.store(true, SeqCst);
                        break;
                    }
                    let k = next.fetch_add(1, SeqCst);
                    if k >= list.len() {
                        break;
                    }
                    let (gi, idx) = list[k];
                    let gr = &groups[gi];
                    if let Some(f) = prog {
                        let s = format!("{:<63}\n", format!("{}:{}", gr.name, idx));
                        let _ = f.write_at(s.as_bytes(), 64 * th as u64);
                    }
                    case_no[th].fetch_add(1, SeqCst);
                    let mut c = Ctx::new(o, gr.name, idx);
                    let mut r = guarded(|| (gr.f)(&mut c)).and_then(|x| x);
                    if stubbed(&r) {
                        r = Ok(());
                        c = Ctx::new(o, gr.name, idx);
                        c.cov.insert("cases left out: interface gone", 1);
                    }
                    let mut t = total.lock().unwrap_or_else(|e| e.into_inner());
                    let (cov, o_) = (c.cov.clone(), o);
                    for (k, v) in c.cov {
                        *t.cov.entry(k).or_insert(0) += v;
                    }
                    *t.cases.entry(gr.name).or_insert(0) += 1;
                    t.evals += c.evals;
                    t.nontrivial += c.nontrivial;
                    if t.distinct.len() < 2_000_000 {
                        t.distinct.extend(c.distinct);
                    }
                    if o.digests.is_some() {
                        t.case_digests.push((gr.name, idx, c.digest));
                    }
                    let d = t.digests.entry(gr.name).or_insert(0);
                    *d = d.wrapping_add(mix(c.digest ^ mix(idx as u64)));
                    if t.samples.len() < 24 {
                        let s = c.samples.iter().map(|s| format!("{}:{} {}", gr.name, idx, s));
                        t.samples.extend(s);
                        if idx == 0 && c.samples.is_empty() {
                            let o: Vec<String> = cov.iter().map(|(k, v)| format!("{} {}", v, k)).collect();
                            t.samples.push(format!(
                                "{}:0 case seed {:016x}: {}; digest of inputs and results {:016x}",
                                gr.name,
                                case_seed(o_, gr.name, idx),
                                o.join(", "),
                                c.digest
                            ));
                        }
                    }
                    if let Err(e) = r {
                        if e.starts_with("HARNESS") {
                            t.harness.push(format!("{}:{} {}", gr.name, idx, e));
                        } else {
                            t.viol.push((gr.name.to_string(), idx, e));
                        }
                        if t.viol.len() >= 3 || t.harness.len() >= 3 {
                            stop.store(true, SeqCst);
                        }
                    }
                }
                case_no[th].store(u64::MAX, SeqCst);
                live.fetch_sub(1, SeqCst);
            });
            if r.is_err() {
                live.fetch_sub(1, SeqCst);
            }
        }
        // watchdog: CPU time spent by a thread within one case
        let mut base: Vec<(u64, f64)> = vec![(0, 0.0); o.threads];
        let mut tick = 0u32;
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(10));
            tick += 1;
            if tick % 100 != 0 {
                continue;
            }
            for th in 0..o.threads {
                let cn = case_no[th].load(SeqCst);
                let tid = tids[th].load(SeqCst);
                if cn == u64::MAX || tid == 0 {
                    continue;
                }
                if let Some(cpu) = tid_cpu(tid) {
                    if base[th].0 != cn {
                        base[th] = (cn, cpu);
                    } else if cpu - base[th].1 > o.hang_cpu {
                        let h = format!("thread {} used more than {} s of CPU in one case", th, o.hang_cpu);
                        *hang.lock().unwrap_or_else(|e| e.into_inner()) = Some(h.clone());
                        eprintln!("HANG {}", h);
                        std::process::exit(97);
                    }
                }
            }
        }
    });
    let t = total.into_inner().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = &o.digests {
        let mut v = t.case_digests.clone();
        v.sort();
        let s: String = v.iter().map(|(g, i, d)| format!("{}:{} {:016x}\n", g, i, d)).collect();
        if std::fs::write(p, s).is_err() {
            return 2;
        }
    }
    let mut j = String::from("{");
    j += &format!("\"truncated\":{},", trunc.load(SeqCst));
    j += &format!("\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},", t.evals, t.nontrivial, t.distinct.len());
    let m = |b: &BTreeMap<&'static str, u64>| {
        b.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    };
    j += &format!("\"observed\":{{{}}},\"cases\":{{{}}},", m(&t.cov), m(&t.cases));
    j += &format!(
        "\"digests\":{{{}}},",
        t.digests.iter().map(|(k, v)| format!("{}:\"{:016x}\"", js(k), v)).collect::<Vec<_>>().join(",")
    );
    j += &format!("\"samples\":[{}],", t.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    j += &format!("\"harness\":[{}],", t.harness.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    j += &format!(
        "\"violations\":[{}],",
        t.viol
            .iter()
            .map(|(g, i, e)| format!("{{\"group\":{},\"idx\":{},\"what\":{}}}", js(g), i, js(e)))
            .collect::<Vec<_>>()
            .join(",")
    );
    j += &format!("\"wall_s\":{:.2}}}\n", start.elapsed().as_secs_f64());
    match &o.out {
        Some(p) => {
            if std::fs::write(p, &j).is_err() {
                return 2;
            }
        }
        None => print!("{}", j),
    }
    if !t.viol.is_empty() {
        1
    } else if !t.harness.is_empty() {
        2
    } else {
        0
    }
}
