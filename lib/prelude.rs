// Shared replay prelude: deterministic generator, case accounting, hang watchdog, FAIL reporting.
#[allow(dead_code)]
mod vx {
    use std::collections::{HashMap, HashSet};
    use std::io::Write;
    use std::sync::atomic::{AtomicU64, Ordering};
    static CASE: AtomicU64 = AtomicU64::new(0);
    static START_MS: AtomicU64 = AtomicU64::new(u64::MAX);
    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
        pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize].clone() }
        pub fn chance(&mut self, a: u64, b: u64) -> bool { self.below(b) < a }
        /// a 64-bit word with boundary bias
        pub fn word(&mut self) -> u64 {
            match self.below(9) {
                0 => self.below(4),
                1 => u64::MAX - self.below(4),
                2 => (1u64 << self.below(64)).wrapping_add(self.below(3)).wrapping_sub(1),
                3 => (i64::MAX as u64).wrapping_add(self.below(5)).wrapping_sub(2),
                4 => self.below(1000),
                5 => (self.below(1000) as i64).wrapping_neg() as u64,
                6 => self.next() >> self.below(64),
                _ => self.next(),
            }
        }
        pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    }
    pub struct H { seed: u64, pub thorough: bool, n: u64, distinct: HashSet<u64>, per_key: HashMap<String, u32>, samples: u32, log: Option<std::fs::File>, show: Option<u64>, fails: u32 }
    fn now_ms() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }
    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars().take(3000) {
            match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
        }
        o
    }
    impl H {
        pub fn new() -> H {
            std::panic::set_hook(Box::new(|_| {}));
            let g = |k: &str| std::env::var(k).ok();
            std::thread::spawn(|| loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let s = START_MS.load(Ordering::Relaxed);
                if s != u64::MAX && now_ms() > s + 20_000 {
                    println!("FAIL {{\"key\":\"hang\",\"input\":\"case {}\",\"msg\":\"no result after 20 s\"}}", CASE.load(Ordering::Relaxed));
                    let _ = std::io::stdout().flush();
                    std::process::exit(3);
                }
            });
            H { seed: g("VERIF_SEED").and_then(|x| x.parse().ok()).unwrap_or(1), thorough: g("VERIF_TIER").as_deref() == Some("thorough"), n: 0, distinct: HashSet::new(),
                per_key: HashMap::new(), samples: 0, log: g("VX_LOG").map(|p| std::fs::File::create(p).unwrap()), show: g("VX_SHOW").and_then(|x| x.parse().ok()), fails: 0 }
        }
        pub fn rng(&self, stream: u64) -> Rng { Rng(self.seed.wrapping_mul(0xD1342543DE82EF95).wrapping_add(stream.wrapping_mul(0x2545F4914F6CDD1D))) }
        pub fn scale(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
        /// run one case; `desc` writes the input out, `f` says what went wrong
        pub fn case(&mut self, key: &str, hash: u64, desc: &dyn Fn() -> String, f: &mut dyn FnMut() -> Result<(), String>) {
            self.n += 1;
            self.distinct.insert(hash ^ (key.len() as u64).wrapping_mul(0x9E3779B97F4A7C15));
            if let Some(l) = &mut self.log { use std::io::Seek; let _ = l.seek(std::io::SeekFrom::Start(0)); let _ = l.write_all(format!("{:020}", self.n).as_bytes()); }
            if self.show == Some(self.n) { println!("SHOW {} {}", key, desc()); let _ = std::io::stdout().flush(); }
            CASE.store(self.n, Ordering::Relaxed);
            if self.n & 63 == 1 || self.log.is_some() { START_MS.store(now_ms(), Ordering::Relaxed); }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            let msg = match r {
                Ok(Ok(())) => None,
                Ok(Err(m)) => Some(m),
                Err(p) => Some(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())),
            };
            if let Some(m) = msg {
                let c = self.per_key.entry(key.to_string()).or_insert(0);
                *c += 1; self.fails += 1;
                if *c <= 40 { println!("FAIL {{\"key\":\"{}\",\"input\":\"{}\",\"msg\":\"{}\"}}", esc(key), esc(&desc()), esc(&m)); }
            } else if self.samples < 6 && (self.n == 1 || self.n % 997 == 0) {
                self.samples += 1; let d: String = desc().chars().take(300).collect(); println!("SAMPLE {} {}", key, d.replace('\n', " "));
            }
        }
        pub fn exhaustive(&self, what: &str) { println!("EXHAUSTIVE {}", what); }
        pub fn done(self) { println!("CASES {} {}", self.n, self.distinct.len()); let _ = std::io::stdout().flush(); std::process::exit(0); }
    }
    pub fn hash<T: std::hash::Hash>(t: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
}
use vx::*;
