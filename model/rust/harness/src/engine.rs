//! The engine of engine/pbt.hpp in Rust: choice sequences, shrinking, replay.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Fail {
    pub message: String,
}
impl Fail {
    pub fn new(message: String) -> Fail {
        Fail { message }
    }
}

pub struct Sub {
    pub property: &'static str,
    pub name: &'static str,
    pub run: fn(&mut Src) -> Result<(), Fail>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub struct Src {
    state: u64,
    input: Option<Vec<u64>>,
    pos: usize,
    pub choices: Vec<u64>,
    nontrivial: bool,
    labels: BTreeSet<&'static str>,
    verbose: bool,
    text: String,
}
impl Src {
    fn random(seed: u64) -> Src {
        Src { state: seed, input: None, pos: 0, choices: vec![], nontrivial: false, labels: BTreeSet::new(), verbose: false, text: String::new() }
    }
    fn replay(input: Vec<u64>) -> Src {
        Src { input: Some(input), ..Src::random(0) }
    }
    /// Uniform in 0..n; 0 is the simplest.
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.input {
            Some(i) => i.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => {
                self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
                let mut z = self.state;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                (z ^ (z >> 31)) % n
            }
        };
        self.pos += 1;
        self.choices.push(v);
        v
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut v = self.choose(w.iter().sum());
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.choose(v.len() as u64) as usize]
    }
    pub fn coord(&mut self, m: f64) -> f64 {
        match self.weighted(&[1, 2, 5]) {
            0 => 0.0,
            1 => {
                let v = self.choose(17) as f64 / 16.0 * m;
                if self.choose(2) == 1 { -v } else { v }
            }
            _ => {
                let v = self.choose(1 << 40) as f64 / (1u64 << 40) as f64 * m;
                if self.choose(2) == 1 { -v } else { v }
            }
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.insert(l);
    }
    pub fn note(&mut self, t: &str) {
        if self.verbose {
            self.text += t;
        }
    }
    fn hash(&self) -> u64 {
        let mut h: u64 = 1469598103934665603;
        for v in &self.choices {
            h = (h ^ v).wrapping_mul(1099511628211);
            h ^= h >> 29;
        }
        h
    }
}

/// The failure, if any; panics are failures.
fn attempt(sub: &Sub, s: &mut Src) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| (sub.run)(s))) {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f.message),
        Err(p) => Some(format!(
            "panic: {}",
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

fn shrink(sub: &Sub, mut best: Vec<u64>, seconds: f64) -> Vec<u64> {
    let start = Instant::now();
    let mut improve = |best: &mut Vec<u64>, cand: Vec<u64>| -> bool {
        let mut s = Src::replay(cand);
        if attempt(sub, &mut s).is_some() && (s.choices.len() < best.len() || (s.choices.len() == best.len() && s.choices < *best)) {
            *best = s.choices;
            return true;
        }
        false
    };
    let mut progress = true;
    while progress && start.elapsed().as_secs_f64() < seconds {
        progress = false;
        let mut len = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + len <= best.len() && start.elapsed().as_secs_f64() < seconds {
                let mut c = best.clone();
                c.drain(i..i + len);
                if improve(&mut best, c) {
                    progress = true;
                    continue;
                }
                let mut c = best.clone();
                c[i..i + len].fill(0);
                progress |= improve(&mut best, c);
                i += len;
            }
            if len == 1 {
                break;
            }
            len /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                let before = best.len();
                if improve(&mut best, c) {
                    progress = true;
                    if best.len() != before || i >= best.len() {
                        break;
                    }
                    hi = best[i];
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
    }
    best
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
}

fn text_of(sub: &Sub, choices: &[u64]) -> (Option<String>, String) {
    let mut s = Src::replay(choices.to_vec());
    s.verbose = true;
    let m = attempt(sub, &mut s);
    (m, s.text)
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_add(0x7f4a7c159e3779b9);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn main(subs: &[Sub]) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut o: BTreeMap<&str, &str> = BTreeMap::new();
    for c in args.chunks(2) {
        if c.len() == 2 {
            o.insert(&c[0], &c[1]);
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(path) = o.get("--replay") {
        let text = std::fs::read_to_string(path).unwrap_or_default();
        let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|v| v.trim().to_string())).unwrap_or_default();
        let choices: Vec<u64> = field("choices").split_whitespace().filter_map(|v| v.parse().ok()).collect();
        let Some(sub) = subs.iter().find(|s| s.property == field("property ") && s.name == field("sub ")) else {
            eprintln!("no such sub-property");
            return 2;
        };
        let (m, text) = text_of(sub, &choices);
        println!("{text}\n{}", m.as_ref().map(|m| format!("FAIL: {m}")).unwrap_or("pass".into()));
        return m.is_some() as i32;
    }
    let get = |k: &str, d: &str| o.get(k).copied().unwrap_or(d).to_string();
    let prop = get("--prop", "");
    let thorough = get("--tier", "quick") == "thorough";
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let jobs: u64 = get("--jobs", "8").parse().unwrap_or(8);
    let cap: f64 = get("--cap", "600").parse().unwrap_or(600.0);
    let scale: f64 = get("--scale", "1").parse().unwrap_or(1.0);
    let dir = get("--replay-dir", ".");
    let mine: Vec<&Sub> = subs.iter().filter(|s| s.property == prop).collect();
    if mine.is_empty() {
        eprintln!("no sub-property for {prop}");
        return 2;
    }
    let start = Instant::now();
    let mut totals = Vec::new();
    let mut samples: Vec<String> = Vec::new();
    let mut violation = serde_json::Value::Null;
    let mut capped = false;
    for sub in &mine {
        let cases = (((if thorough { sub.thorough } else { sub.quick }) as f64 * scale) as u64).max(1);
        let base = mix(seed, sub.name.bytes().fold(1469598103934665603u64, |h, c| (h ^ c as u64).wrapping_mul(1099511628211)));
        let total = Mutex::new(Stats::default());
        let found: Mutex<Option<(u64, Vec<u64>)>> = Mutex::new(None);
        let stop = AtomicBool::new(!violation.is_null());
        let late = AtomicBool::new(false);
        std::thread::scope(|scope| {
            for w in 0..jobs {
                let (total, found, stop, late, start) = (&total, &found, &stop, &late, &start);
                scope.spawn(move || {
                    let mut st = Stats::default();
                    let mut i = w;
                    while i < cases && !stop.load(Ordering::Relaxed) {
                        if i % 1024 == w && start.elapsed().as_secs_f64() > cap {
                            late.store(true, Ordering::Relaxed);
                            break;
                        }
                        let mut s = Src::random(mix(base, i));
                        if attempt(sub, &mut s).is_some() {
                            stop.store(true, Ordering::Relaxed);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                *f = Some((i, s.choices));
                            }
                            break;
                        }
                        st.evaluations += 1;
                        for l in &s.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        if s.nontrivial {
                            st.hashes.insert(s.hash());
                        }
                        i += jobs;
                    }
                    let mut t = total.lock().unwrap();
                    t.evaluations += st.evaluations;
                    t.hashes.extend(st.hashes);
                    for (l, n) in st.labels {
                        *t.labels.entry(l).or_default() += n;
                    }
                });
            }
        });
        capped |= late.into_inner();
        if let Some((_, choices)) = found.into_inner().unwrap() {
            let best = shrink(sub, choices.clone(), 20.0);
            let (m, text) = text_of(sub, &best);
            let message = m.unwrap_or("did not reproduce".into());
            let path = format!("{dir}/{}-{}.replay", sub.property, sub.name);
            let _ = std::fs::create_dir_all(&dir);
            let body = format!(
                "property {}\nsub {}\nseed {}\nchoices {}\nmessage {}\n--- case ---\n{}\n",
                sub.property,
                sub.name,
                seed,
                best.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "),
                message,
                text
            );
            let _ = std::fs::write(&path, body);
            violation = serde_json::json!({"sub": sub.name, "replay": path, "message": message});
        } else {
            let mut got = 0;
            for i in 0..cases.min(40) {
                let mut s = Src::random(mix(base, i));
                s.verbose = true;
                if got < 3 && attempt(sub, &mut s).is_none() && s.text.len() > 3 {
                    let t: String = s.text.chars().take(1200).collect();
                    samples.push(format!("{}: {}", sub.name, t));
                    got += 1;
                }
            }
        }
        totals.push((sub, cases, total.into_inner().unwrap()));
    }
    let json = serde_json::json!({
        "evaluations": totals.iter().map(|t| t.2.evaluations).sum::<u64>(),
        "distinct_nontrivial": totals.iter().map(|t| t.2.hashes.len()).sum::<usize>(),
        "discarded": 0,
        "subs": totals.iter().map(|(s, planned, t)| serde_json::json!({
            "name": s.name, "rule": s.rule, "planned": planned, "evaluations": t.evaluations, "discarded": 0,
            "distinct_nontrivial": t.hashes.len(), "labels": t.labels})).collect::<Vec<_>>(),
        "findings": [],
        "samples": samples,
        "unstable": false,
        "capped": capped,
        "wall_s": start.elapsed().as_secs_f64(),
        "violation": violation,
    });
    let text = serde_json::to_string_pretty(&json).unwrap();
    match o.get("--out") {
        Some(p) => std::fs::write(p, text).unwrap(),
        None => println!("{text}"),
    }
    (!violation.is_null()) as i32
}
