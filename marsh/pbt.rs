//! A small property-based testing core: every random choice of a case is drawn from a recorded tape, so a failing
//! case is its tape, shrinking edits the tape, and replaying reads it back. The run is a function of (code, seed).
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15, seed.wrapping_mul(0xD1342543DE82EF95) | 1); for _ in 0..8 { r.next(); } r }
    pub fn next(&mut self) -> u64 { // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(self.1 & 0);
        let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31)
    }
}

pub struct Src { rng: Option<Rng>, tape: Vec<u64>, pos: usize, pub labels: Vec<&'static str>, pub note: String }
impl Src {
    pub fn random(seed: u64) -> Src { Src { rng: Some(Rng::new(seed)), tape: vec![], pos: 0, labels: vec![], note: String::new() } }
    pub fn replay(tape: Vec<u64>) -> Src { Src { rng: None, tape, pos: 0, labels: vec![], note: String::new() } }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        let v = if let Some(r) = &mut self.rng { let v = r.next() % n; self.tape.push(v); v }
                else { let v = self.tape.get(self.pos).copied().unwrap_or(0); v % n };
        self.pos += 1; v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { if hi <= lo { lo } else { lo + self.below(hi - lo + 1) } }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    pub fn full(&mut self) -> u64 {
        if let Some(r) = &mut self.rng { let v = r.next(); self.tape.push(v); self.pos += 1; v }
        else { let v = self.tape.get(self.pos).copied().unwrap_or(0); self.pos += 1; v }
    }
    pub fn byte(&mut self) -> u8 { self.below(256) as u8 }
    /// A stream of choices of its own, determined by one draw of this one (for large values).
    pub fn sub(&mut self) -> Src { let x = self.full(); Src::random(x) }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n > 400 { let mut r = Rng::new(self.full()); return (0..n).map(|_| r.next() as u8).collect(); } (0..n).map(|_| self.byte()).collect() }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
}

pub struct Outcome { pub err: Option<String>, pub labels: Vec<&'static str>, pub note: String, pub tape: Vec<u64> }
pub type Case = fn(&mut Src) -> Result<(), String>;

/// Turns an absurd allocation request (over 1 GiB for inputs of at most a few KB) into a failed case instead of an
/// aborted process: the request is answered by reporting the case being run.
pub struct Guard;
static mut CUR: *const Src = std::ptr::null();
static mut ON_HUGE: Option<fn(&Src, usize)> = None;
unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 1 << 30 { unsafe { if let (false, Some(h)) = (CUR.is_null(), ON_HUGE) { let c = &*CUR; CUR = std::ptr::null(); h(c, l.size()); } } }
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { unsafe { std::alloc::System.realloc(p, l, n) } }
}
pub fn on_huge(h: fn(&Src, usize)) { unsafe { ON_HUGE = Some(h) } }

pub fn run_case(f: Case, mut s: Src) -> Outcome {
    unsafe { CUR = &s; }
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut s)));
    unsafe { CUR = std::ptr::null(); }
    let err = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())),
    };
    Outcome { err, labels: s.labels, note: s.note, tape: s.tape }
}

pub fn shrink(f: Case, mut tape: Vec<u64>, mut err: String) -> (Vec<u64>, String) {
    let mut budget = 4000;
    let mut try_ = |t: &Vec<u64>, budget: &mut i32| -> Option<String> { *budget -= 1; run_case(f, Src::replay(t.clone())).err };
    loop {
        let before = tape.clone();
        let mut blk = (tape.len() / 2).max(1);
        while blk >= 1 {
            let mut i = 0;
            while i < tape.len() && budget > 0 {
                let mut t = tape.clone(); t.drain(i..(i + blk).min(t.len()));
                if let Some(e) = try_(&t, &mut budget) { tape = t; err = e; } else { i += blk; }
            }
            if blk == 1 { break; } blk /= 2;
        }
        for i in 0..tape.len() {
            for c in [0, tape.get(i).copied().unwrap_or(0) / 2, tape.get(i).copied().unwrap_or(1).wrapping_sub(1)] {
                if budget <= 0 || i >= tape.len() || c >= tape[i] { continue; }
                let mut t = tape.clone(); t[i] = c;
                if let Some(e) = try_(&t, &mut budget) { tape = t; err = e; }
            }
        }
        if tape == before || budget <= 0 { return (tape, err); }
    }
}

static mut INFO: Option<(String, String, Case)> = None;
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

/// Exit code of the check.
pub fn main_check(prop: &str, tier: &str, seed: u64, cases: u64, f: Case, rule: &str, trivial: fn(&[&'static str]) -> bool, assumptions: &[&str], evidence: &str, replay_dir: &str) -> i32 {
    let t0 = std::time::Instant::now();
    unsafe { INFO = Some((prop.to_string(), replay_dir.to_string(), f)); }
    on_huge(|src, size| { // cannot unwind out of an allocation: report and end here
        let (prop, dir, _) = unsafe { (*std::ptr::addr_of!(INFO)).clone().unwrap() };
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-replay.json", dir, prop);
        let tv: Vec<String> = src.tape.iter().map(|x| x.to_string()).collect();
        let msg = format!("tried to allocate {} bytes for a small input", size);
        let _ = std::fs::write(&path, format!("{{\"property\": {}, \"error\": {}, \"case\": {}, \"tape\": [{}]}}\n", js(&prop), js(&msg), js(&src.note), tv.join(",")));
        println!("{}\n  case: {}\nVIOLATION property={} replay={}", msg, src.note, prop, path);
        std::process::exit(1);
    });
    let (mut n, mut nontriv) = (0u64, HashSet::new());
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut seen_sample: HashSet<String> = HashSet::new();
    let mut viol: Option<(String, String, Vec<u64>)> = None;
    for i in 0..cases {
        let o = run_case(f, Src::random(seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_mul(0x9E3779B97F4A7C15)));
        n += 1;
        let mut ls = o.labels.clone(); ls.sort(); ls.dedup();
        for l in &ls { *labels.entry(l).or_default() += 1; }
        if let Some(e) = o.err {
            let (tape, err) = shrink(f, o.tape, e);
            let fin = run_case(f, Src::replay(tape.clone()));
            viol = Some((fin.err.unwrap_or(err), fin.note, tape)); break;
        }
        if !trivial(&ls) {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new(); o.tape.hash(&mut h); nontriv.insert(h.finish());
            let key = ls.join("+");
            if samples.len() < 12 && seen_sample.insert(key) { samples.push(o.note.chars().take(300).collect()); }
        }
    }
    let lab: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let smp: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let asm: Vec<String> = assumptions.iter().map(|s| js(s)).collect();
    let mut rc = 0;
    let mut vs = 0;
    if let Some((e, note, tape)) = &viol {
        let path = format!("{}/{}-replay.json", replay_dir, prop);
        let _ = std::fs::create_dir_all(replay_dir);
        let tv: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
        std::fs::write(&path, format!("{{\"property\": {}, \"error\": {}, \"case\": {}, \"tape\": [{}]}}\n", js(prop), js(e), js(note), tv.join(","))).unwrap();
        println!("{}\n  case: {}", e, note);
        println!("VIOLATION property={} replay={}", prop, path);
        vs = 1;
        rc = 1;
    }
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"classes\": {{{}}}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        js(prop), js(tier), seed, n, nontriv.len(), js(rule), smp.join(", "), lab.join(", "), asm.join(", "), t0.elapsed().as_secs_f64(), vs);
    std::fs::write(evidence, ev).unwrap();
    println!("{} {} seed={} cases={} nontrivial={} {:?}", prop, tier, seed, n, nontriv.len(), labels);
    rc
}
