//! Result reporting: counters, samples, and violations (one JSON object on the last line).
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub struct Rep {
    pub evals: u64,
    pub distinct: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub nviol: u64,
}
#[derive(Clone)]
pub struct Violation {
    pub clause: String,
    pub ty: String,
    pub input: String,
    pub detail: String,
}
impl Default for Rep {
    fn default() -> Self {
        Self::new()
    }
}
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
impl Rep {
    pub fn new() -> Self {
        Rep {
            evals: 0,
            distinct: Default::default(),
            samples: vec![],
            counts: Default::default(),
            violations: vec![],
            nviol: 0,
        }
    }
    /// one evaluated case; `key` identifies the case, `nontrivial` whether it counts
    pub fn case(&mut self, clause: &str, ty: &str, key: &[u8], nontrivial: bool) {
        self.evals += 1;
        trace(clause, ty, key);
        *self.counts.entry(clause.to_string()).or_insert(0) += 1;
        if nontrivial {
            self.distinct.insert(hash(key) ^ hash(clause.as_bytes()).rotate_left(7) ^ hash(ty.as_bytes()).rotate_left(23));
        }
        if self.samples.len() < 6 && nontrivial && (self.evals % 977 == 1) {
            self.samples.push(format!("{clause} {ty} {}", hex(key)));
        }
    }
    pub fn bad(&mut self, clause: &str, ty: &str, input: &[u8], detail: String) {
        self.nviol += 1;
        if self.violations.len() < 40 && self.violations.iter().filter(|v| v.clause == clause && v.ty == ty).count() < 2 {
            self.violations.push(Violation {
                clause: clause.into(),
                ty: ty.into(),
                input: hex(input),
                detail,
            });
        }
    }
    pub fn expect(&mut self, ok: bool, clause: &str, ty: &str, input: &[u8], detail: impl FnOnce() -> String) {
        if !ok {
            self.bad(clause, ty, input, detail());
        }
    }
    pub fn finish(self) -> ! {
        let mut s = String::from("{");
        s.push_str(&format!("\"mode\":{},\"evaluations\":{},\"distinct\":{},", esc(crate::mode()), self.evals, self.distinct.len()));
        s.push_str("\"counts\":{");
        s.push_str(&self.counts.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
        s.push_str("},\"samples\":[");
        s.push_str(&self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"violation_count\":");
        s.push_str(&self.nviol.to_string());
        s.push_str(",\"violations\":[");
        s.push_str(
            &self
                .violations
                .iter()
                .map(|v| format!("{{\"clause\":{},\"type\":{},\"input\":{},\"detail\":{}}}", esc(&v.clause), esc(&v.ty), esc(&v.input), esc(&v.detail)))
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("]}");
        println!("RESULT {s}");
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
    }
}
static LAST: Mutex<String> = Mutex::new(String::new());
/// run `f`, turning a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let loc = LAST.lock().map(|l| l.clone()).unwrap_or_default();
            Err(format!("{m} [{loc}]"))
        }
    }
}
pub fn quiet_panics() {
    let verbose = std::env::var_os("REPLAY_BACKTRACE").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if verbose {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut l) = LAST.lock() {
            *l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        }
    }));
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// Record the case about to run in the file named by REPLAY_TRACE, so that the driver can
/// name the failing input when the code under test takes the process down with it.
fn trace(clause: &str, ty: &str, key: &[u8]) {
    use std::os::unix::fs::FileExt;
    static F: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    let f = F.get_or_init(|| std::env::var_os("REPLAY_TRACE").and_then(|p| std::fs::File::create(p).ok()));
    let mut s = format!("{clause}\t{ty}\t{}", hex(key));
    unsafe {
        CUR_LEN = s.len().min(512);
        (&raw mut CUR).cast::<u8>().copy_from_nonoverlapping(s.as_ptr(), CUR_LEN);
    }
    if let Some(f) = f {
        while s.len() < 512 {
            s.push(' ');
        }
        let _ = f.write_all_at(s.as_bytes(), 0);
    }
}
static mut CUR: [u8; 512] = [0; 512];
static mut CUR_LEN: usize = 0;

/// Refuses absurd allocations: a request above the cap ends the run with a violation naming
/// the current case instead of aborting without an answer.
pub struct Capped;
const CAP: usize = 1 << 30;
pub const HUGE_ALLOC: &str = "huge allocation";
thread_local! {
    static TOLERANT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// did the code under test only act on an absurd claimed length?
pub fn claimed(panic: &str) -> bool {
    panic.starts_with(HUGE_ALLOC) || panic.starts_with("capacity overflow")
}
/// like `guard`, but an absurd allocation unwinds instead of ending the run: for corrupt bytes,
/// whose claimed lengths are outside the format's trust model
pub fn guard_huge<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    TOLERANT.with(|t| t.set(true));
    let r = guard(f);
    TOLERANT.with(|t| t.set(false));
    r
}
unsafe impl std::alloc::GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        too_big(l.size());
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        // untouched zero pages cost nothing: a u32 length prefix may claim 4 GiB
        if l.size() >> 32 != 0 {
            too_big(l.size());
        }
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        too_big(n);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[inline]
fn too_big(n: usize) {
    if n > CAP {
        if TOLERANT.with(|t| t.get()) {
            std::panic::panic_any(HUGE_ALLOC);
        }
        let cur = unsafe { String::from_utf8_lossy(std::slice::from_raw_parts((&raw const CUR).cast::<u8>(), CUR_LEN)).into_owned() };
        let mut it = cur.split('\t');
        let mut r = Rep::new();
        r.violations.push(Violation {
            clause: it.next().unwrap_or("").into(),
            ty: it.next().unwrap_or("").into(),
            input: it.next().unwrap_or("").into(),
            detail: format!("attempted to allocate {n} bytes for this input"),
        });
        r.nviol = 1;
        r.finish()
    }
}
#[global_allocator]
static A: Capped = Capped;
