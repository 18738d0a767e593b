//! Bounded search for a failing input: shared machinery.
use crate::drive::Rng;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Finder {
    pub quick: bool,
    pub rng: Rng,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violation: Option<(String, String, String)>,
    pub known: Vec<(String, String)>,
    pub bound: String,
    pub rule: String,
    pub trace: bool,
    pub start: Instant,
    pub limit: Duration,
    cur: Arc<Mutex<String>>,
    tick: Arc<AtomicU64>,
}
impl Finder {
    pub fn new(prop: &str, quick: bool, seed: u64, trace: bool, out: String) -> Self {
        let cur = Arc::new(Mutex::new(String::new()));
        let tick = Arc::new(AtomicU64::new(0));
        let (c2, t2) = (cur.clone(), tick.clone());
        let prop = prop.to_string();
        std::thread::spawn(move || {
            // one case that makes no progress for 40 s is reported as non-termination
            let mut last = u64::MAX; let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let t = t2.load(Ordering::Relaxed);
                if t != last { last = t; since = Instant::now(); }
                else if t != 0 && since.elapsed() > Duration::from_secs(40) {
                    let case = c2.lock().map(|x| x.clone()).unwrap_or_default();
                    let js = format!("{{\"evaluations\":{t},\"distinct\":0,\"violation\":{{\"property\":{},\"case\":{},\"expected\":\"evaluation ends\",\"actual\":\"no result after 40 s\"}}}}", json(&prop), json(&case));
                    let _ = std::fs::write(&out, js);
                    std::process::exit(0);
                }
            }
        });
        Finder { quick, rng: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def1), evaluations: 0, distinct: HashSet::new(), samples: vec![],
            violation: None, known: vec![], bound: String::new(), rule: String::new(), trace, start: Instant::now(),
            limit: Duration::from_secs(if quick { 14 } else { 500 }), cur, tick }
    }
    /// announce a case; false when the search is over
    pub fn case(&mut self, nontrivial: bool, c: impl FnOnce() -> String) -> bool {
        if self.violation.is_some() || self.start.elapsed() > self.limit { return false; }
        self.evaluations += 1;
        let s = c();
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        let e = self.evaluations;
        if self.samples.len() < 6 && (e & (e - 1)) == 0 && nontrivial { self.samples.push(s.chars().take(400).collect()); }
        if self.trace { let _ = std::fs::write("current_case", &s); }
        if let Ok(mut c) = self.cur.lock() { *c = s; }
        self.tick.store(e, Ordering::Relaxed);
        true
    }
    pub fn done(&self) -> bool { self.violation.is_some() || self.start.elapsed() > self.limit }
    pub fn fail(&mut self, expected: impl ToString, actual: impl ToString) {
        if self.violation.is_none() {
            let c = self.cur.lock().map(|x| x.clone()).unwrap_or_default();
            self.violation = Some((c, expected.to_string(), actual.to_string()));
        }
    }
    pub fn check<T: PartialEq + std::fmt::Debug>(&mut self, expected: T, actual: T) -> bool {
        if expected != actual { self.fail(format!("{expected:?}"), format!("{actual:?}")); false } else { true }
    }
    /// a deviation of the known class `id`: reported as a finding when KNOWN_FINDINGS.jsonl lists that id, as a violation otherwise
    pub fn known(&mut self, id: &str, expected: impl ToString, actual: impl ToString) {
        if self.known.iter().any(|k| k.0 == id) { return; }
        let c = self.cur.lock().map(|x| x.clone()).unwrap_or_default();
        self.known.push((id.into(), format!("{c}: expected {}, got {}", expected.to_string(), actual.to_string())));
    }
    pub fn report(&self, prop: &str) -> String {
        let v = match &self.violation {
            None => "null".to_string(),
            Some((c, e, a)) => format!("{{\"property\":{},\"case\":{},\"expected\":{},\"actual\":{}}}", json(prop), json(c), json(e), json(a)),
        };
        format!("{{\"evaluations\":{},\"distinct\":{},\"bound\":{},\"rule\":{},\"samples\":[{}],\"known\":[{}],\"violation\":{}}}",
            self.evaluations, self.distinct.len(), json(&self.bound), json(&self.rule),
            self.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
            self.known.iter().map(|s| format!("{{\"id\":{},\"what\":{}}}", json(&s.0), json(&s.1))).collect::<Vec<_>>().join(","), v)
    }
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// all strings over an alphabet with length in lo..=hi, in order
pub fn strings(alpha: &[char], lo: usize, hi: usize) -> Vec<String> {
    let mut out = vec![];
    let mut layer = vec![String::new()];
    for n in 0..=hi {
        if n >= lo { out.extend(layer.iter().cloned()); }
        if n < hi {
            let mut next = Vec::with_capacity(layer.len() * alpha.len());
            for s in &layer { for c in alpha { let mut t = s.clone(); t.push(*c); next.push(t); } }
            layer = next;
        }
    }
    out
}
pub fn rand_string(r: &mut Rng, alpha: &[char], max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(alpha)).collect()
}
