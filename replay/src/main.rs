//! Concrete oracles for the properties, run against the real crate and the real command line tool.
//! They look for a failing input when a proof obligation fails, audit the data axioms, and are the
//! bounded stand-in for functions the verifier cannot reach after a change.
mod audit;
mod calc;
mod cli;
mod enc;
mod oracle;
mod text;
mod wire;

use std::cell::RefCell;
use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

pub struct Cx {
    pub prop: String,
    pub bin: PathBuf,
    pub styles: PathBuf,
    pub dir: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub out: PathBuf,
    pub failures: Mutex<Vec<Value>>,
    pub known: Mutex<Vec<Value>>,
    pub samples: Mutex<Vec<String>>,
    pub evals: AtomicU64,
    pub keys: Mutex<HashSet<u64>>,
    pub stop: AtomicBool,
    pub ticks: AtomicU64,
    pub busy: Mutex<Vec<Option<(Instant, String)>>>,
    pub o: oracle::Oracle,
    pub audit: Mutex<Value>,
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// numbers and texts that the program under test mentions and that it did not mention before: they
/// are mixed into the generated inputs
#[derive(Default)]
pub struct Words {
    pub ints: Vec<u64>,
    pub texts: Vec<String>,
}
static WORDS: OnceLock<Words> = OnceLock::new();
pub fn words() -> &'static Words {
    WORDS.get_or_init(Words::default)
}
/// the numbers, and those next to them, up to `max`
pub fn near(max: u64) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for n in &words().ints {
        for m in [Some(*n), n.checked_add(1), n.checked_sub(1)].into_iter().flatten() {
            if m <= max && !v.contains(&(m as usize)) {
                v.push(m as usize);
            }
        }
    }
    v
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn raw(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// one of the numbers of the program, or one next to it
    pub fn word(&mut self) -> Option<u64> {
        let w = words();
        if w.ints.is_empty() || self.raw(5) > 0 {
            return None;
        }
        let x = w.ints[self.raw(w.ints.len())];
        Some(match self.raw(6) {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            2 => x.wrapping_sub(65),
            3 => x.wrapping_sub(97),
            _ => x,
        })
    }
    /// one of the texts of the program
    pub fn text(&mut self) -> Option<&'static str> {
        let w = words();
        if w.texts.is_empty() || self.raw(4) > 0 {
            return None;
        }
        Some(&w.texts[self.raw(w.texts.len())])
    }
    pub fn below(&mut self, n: usize) -> usize {
        match self.word() {
            Some(x) if x < n as u64 => x as usize,
            _ => self.raw(n),
        }
    }
    pub fn byte(&mut self) -> u8 {
        match self.word() {
            Some(x) => x as u8,
            None => self.next() as u8,
        }
    }
    pub fn short(&mut self) -> u16 {
        match self.word() {
            Some(x) => x as u16,
            None => self.next() as u16,
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.raw(v.len())]
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.raw(n) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); pub static SLOT: RefCell<usize> = RefCell::new(0); }

/// Runs code of the tool; a panic becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02X}", x)).collect()
}

impl Cx {
    pub fn left(&self) -> bool {
        !self.stop.load(Ordering::Relaxed) && Instant::now() < self.deadline
    }
    /// one evaluated case; `key` tells distinct cases apart
    pub fn case(&self, key: &[u8]) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        let h = hash(key);
        let mut k = self.keys.lock().unwrap();
        if k.len() < 2_000_000 {
            k.insert(h);
        }
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            v.push(s.chars().take(400).collect());
        }
    }
    pub fn fail(&self, what: String, detail: Value) {
        let mut f = self.failures.lock().unwrap();
        if f.len() < 8 {
            f.push(json!({"what": what, "detail": detail}));
        }
        if f.len() >= 4 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn known(&self, id: &str, detail: Value) {
        let mut f = self.known.lock().unwrap();
        if f.len() < 3 {
            f.push(json!({"id": id, "detail": detail}));
        }
    }
    pub fn failed(&self) -> bool {
        !self.failures.lock().unwrap().is_empty()
    }
    pub fn busy(&self, what: String) {
        let s = SLOT.with(|s| *s.borrow());
        self.busy.lock().unwrap()[s] = Some((Instant::now(), what));
    }
    pub fn idle(&self) {
        let s = SLOT.with(|s| *s.borrow());
        self.busy.lock().unwrap()[s] = None;
    }
    /// a scratch directory of the running thread
    pub fn tdir(&self) -> PathBuf {
        let s = SLOT.with(|s| *s.borrow());
        let d = self.dir.join(format!("t{}", s));
        let _ = std::fs::create_dir_all(&d);
        d
    }
    /// f(0), f(1), .. f(n-1) on all cores
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for t in 0..8 {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        SLOT.with(|s| *s.borrow_mut() = t);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || !self.left() {
                                break;
                            }
                            // a panic here is one of the harness itself
                            if let Err(p) = guard(|| f(i)) {
                                self.harness_error(p);
                            }
                            self.idle();
                        }
                    })
                    .unwrap();
            }
        });
    }
    pub fn harness_error(&self, p: String) {
        let mut s = self.samples.lock().unwrap();
        s.push(format!("HARNESS ERROR {}", p));
    }
    pub fn write_report(&self, finished: bool) {
        let r = json!({
            "property": self.prop,
            "finished": finished,
            "failures": *self.failures.lock().unwrap(),
            "known": *self.known.lock().unwrap(),
            "evaluations": self.evals.load(Ordering::Relaxed),
            "distinct": self.keys.lock().unwrap().len(),
            "audit": *self.audit.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "out_of_time": Instant::now() >= self.deadline,
        });
        std::fs::write(&self.out, serde_json::to_vec(&r).unwrap()).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| -> String {
        let i = a.iter().position(|x| x == n).unwrap_or_else(|| panic!("missing {}", n));
        a[i + 1].clone()
    };
    let secs: u64 = get("--secs").parse().unwrap();
    if a.iter().any(|x| x == "--words") {
        let v: Value = serde_json::from_slice(&std::fs::read(get("--words")).unwrap()).unwrap();
        let _ = WORDS.set(Words {
            ints: v["ints"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect(),
            texts: v["texts"].as_array().unwrap().iter().filter_map(|x| x.as_str()).map(String::from).collect(),
        });
    }
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    let cx = Cx {
        prop: get("--prop"),
        bin: get("--bin").into(),
        styles: get("--styles").into(),
        dir: get("--dir").into(),
        seed: get("--seed").parse().unwrap(),
        thorough: get("--tier") == "thorough",
        deadline: Instant::now() + Duration::from_secs(secs),
        out: get("--out").into(),
        failures: Mutex::new(vec![]),
        known: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        evals: AtomicU64::new(0),
        keys: Mutex::new(HashSet::new()),
        stop: AtomicBool::new(false),
        ticks: AtomicU64::new(0),
        busy: Mutex::new(vec![None; 9]),
        o: oracle::Oracle::load(&get("--sheet"), &get("--defs")),
        audit: Mutex::new(Value::Null),
    };
    let cx: &'static Cx = Box::leak(Box::new(cx));
    std::fs::create_dir_all(&cx.dir).unwrap();
    // code that does not come back is reported
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for b in cx.busy.lock().unwrap().iter().flatten() {
            if b.0.elapsed() > Duration::from_secs(30) {
                cx.fail(format!("no answer within 30 s: {}", b.1), Value::Null);
                cx.write_report(false);
                std::process::exit(3);
            }
        }
    });
    SLOT.with(|s| *s.borrow_mut() = 8);
    match guard(|| audit::run(cx)) {
        Ok(v) => *cx.audit.lock().unwrap() = v,
        Err(e) => *cx.audit.lock().unwrap() = json!({"failures": [format!("the audit ended with {}", e)]}),
    }
    let r = guard(|| match cx.prop.as_str() {
        "C01" => calc::c01(cx),
        "C02" => enc::c02(cx),
        "C03" => enc::c03(cx),
        "C05" => enc::c05(cx),
        "C06" => calc::c06(cx),
        "C07" => calc::c07(cx),
        "C08" => calc::c08(cx),
        "C09" => calc::c09(cx),
        "C10" => calc::c10(cx),
        "C11" => cli::c11(cx),
        "C12" => cli::c12(cx),
        "C13" => calc::c13(cx),
        "C14" => calc::c14(cx),
        "C15" => calc::c15(cx),
        "C16" => calc::c16(cx),
        "C17" => calc::c17(cx),
        "C18" => calc::c18(cx),
        "C19" => cli::c19(cx),
        "C20" => text::c20(cx),
        "C21" => text::c21(cx),
        "C22" => cli::c22(cx),
        _ => panic!("unknown property"),
    });
    if let Err(p) = r {
        cx.harness_error(p);
    }
    cx.write_report(true);
}
