//! Case bookkeeping: every case is recorded before it runs, so a panic, a hang or a wrong answer
//! is reported with the input that causes it.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 { r.0 = 1; }
        for _ in 0..8 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 11) as usize % n } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn byte(&mut self) -> u8 { (self.next() >> 24) as u8 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Shared {
    pub current: String,
    pub started: Option<Instant>,
    pub finished: bool,
}

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub thorough: bool,
    pub deadline: Instant,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub rule: String,
    pub exhaustive: bool,
    pub out: String,
    pub shared: Arc<Mutex<Shared>>,
    pub trace: bool,
    pub known: Vec<String>,
    /// second, longer search after a failed obligation
    pub deep: bool,
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

pub fn report(prop: &str, out: &str, evals: u64, distinct: usize, rule: &str, samples: &[String], exhaustive: bool, violation: Option<(&str, &str)>) {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":{},\"samples\":[{}],\"violation\":",
        esc(prop), evals, distinct, esc(rule), exhaustive,
        samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
    ));
    match violation {
        None => s.push_str("null"),
        Some((input, what)) => s.push_str(&format!("{{\"input\":{},\"what\":{}}}", esc(input), esc(what))),
    }
    s.push_str("}\n");
    std::fs::write(out, s).unwrap();
}

impl Ctx {
    pub fn time_left(&self) -> bool { Instant::now() < self.deadline }
    /// Run one case. `input` must describe it completely; `nontrivial` says whether it counts as such.
    pub fn case(&mut self, input: String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        {
            let mut s = self.shared.lock().unwrap();
            s.current = input.clone();
            s.started = Some(Instant::now());
        }
        if self.trace { let _ = std::fs::write(format!("{}.current", self.out), &input); }
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            input.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 997 == 0)) {
                let mut s = input.clone();
                if s.len() > 400 { let mut k = 400; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str("..."); }
                self.samples.push(s);
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        self.shared.lock().unwrap().started = None;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(what)) => self.violation(&input, &what),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.violation(&input, &format!("panic: {}", m));
            }
        }
    }
    pub fn violation(&mut self, input: &str, what: &str) {
        report(&self.prop, &self.out, self.evals, self.distinct.len(), &self.rule, &self.samples, false, Some((input, what)));
        println!("VIOLATION {} {}", self.prop, what);
        std::process::exit(1);
    }
    pub fn finish(&mut self) {
        self.shared.lock().unwrap().finished = true;
        report(&self.prop, &self.out, self.evals, self.distinct.len(), &self.rule, &self.samples, self.exhaustive, None);
        std::process::exit(0);
    }
}

pub fn watchdog(shared: Arc<Mutex<Shared>>, prop: String, out: String, limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = shared.lock().unwrap();
        if s.finished { return; }
        if let Some(t) = s.started {
            if t.elapsed() > limit {
                report(&prop, &out, 0, 0, "", &[], false, Some((&s.current, &format!("no result after {:?}", limit))));
                println!("VIOLATION {} hang", prop);
                std::process::exit(1);
            }
        }
    });
}
