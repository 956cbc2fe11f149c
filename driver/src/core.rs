//! Case runner of the replay/search driver: deterministic, seeded, panic-catching.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::fs::File;
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Failure {
    pub rule: String,
    pub input: String,
    pub detail: String,
}

pub struct Cx {
    pub effort: u64,
    rng: u64,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub samples: BTreeMap<String, (u64, Vec<String>)>,
    pub failures: Vec<Failure>,
    only: Option<String>,
    pub current: Arc<Mutex<(u64, String, String)>>,
    pub trace: Option<File>,
}

pub type R = Result<(), String>;

impl Cx {
    pub fn new(seed: u64, effort: u64, only: Option<String>) -> Self {
        Cx {
            effort,
            rng: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03,
            evals: 0,
            distinct: HashSet::new(),
            samples: BTreeMap::new(),
            failures: Vec::new(),
            only,
            current: Arc::default(),
            trace: None,
        }
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
    pub fn distinct(&self) -> u64 {
        self.distinct.len() as u64
    }
    /// Runs one case of `rule` on `input`; a panic is a failure.
    pub fn case(&mut self, rule: &str, input: &str, f: impl FnOnce() -> R) {
        if let Some(o) = &self.only {
            if o != rule {
                return;
            }
        }
        self.evals += 1;
        let mut h = DefaultHasher::new();
        (rule, input).hash(&mut h);
        if self.distinct.len() < 20_000_000 {
            self.distinct.insert(h.finish());
        }
        let e = self.samples.entry(rule.to_owned()).or_default();
        e.0 += 1;
        // keep cases 1, 10, 100, ... as samples
        if e.1.len() < 6 && e.0 == 10u64.pow(e.1.len() as u32) {
            e.1.push(input.chars().take(200).collect());
        }
        {
            let mut c = self.current.lock().unwrap();
            c.0 = self.evals;
            c.1.clear();
            c.1.push_str(rule);
            c.2.clear();
            c.2.push_str(input);
        }
        if let Some(t) = &mut self.trace {
            let _ = t.write_all(format!("{}\n", serde_json::json!([rule, input])).as_bytes());
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.current.lock().unwrap().0 = 0;
        let detail = match r {
            Ok(Ok(())) => return,
            Ok(Err(d)) => d,
            Err(p) => format!(
                "panicked: {}",
                p.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default()
            ),
        };
        if self.failures.iter().filter(|f| f.rule == rule).count() < 40 {
            self.failures.push(Failure { rule: rule.into(), input: input.into(), detail });
        }
    }

    // ------------------------------------------------------------ generators
    /// every string over `alphabet` tokens with at most `max` tokens
    pub fn all(&mut self, tokens: &[&str], max: usize, mut f: impl FnMut(&mut Cx, &str)) {
        let mut idx: Vec<usize> = Vec::new();
        loop {
            let s: String = idx.iter().map(|&i| tokens[i]).collect();
            f(self, &s);
            // increment
            let mut k = idx.len();
            loop {
                if k == 0 {
                    idx = vec![0; idx.len() + 1];
                    break;
                }
                k -= 1;
                if idx[k] + 1 < tokens.len() {
                    idx[k] += 1;
                    for j in idx.iter_mut().skip(k + 1) {
                        *j = 0;
                    }
                    break;
                }
            }
            if idx.len() > max {
                break;
            }
        }
    }
    /// `n` random token strings with up to `max` tokens
    pub fn random(&mut self, tokens: &[&str], max: usize, n: u64, mut f: impl FnMut(&mut Cx, &str)) {
        for _ in 0..n {
            let len = self.below(max + 1);
            let mut s = String::new();
            for _ in 0..len {
                let t = self.pick(tokens);
                s.push_str(t);
            }
            f(self, &s);
        }
    }
    /// random edits of valid texts
    pub fn mutate(&mut self, base: &[&str], tokens: &[&str], n: u64, mut f: impl FnMut(&mut Cx, &str)) {
        for b in base {
            f(self, b);
            neighbours(b, |s| f(self, s));
        }
        for _ in 0..n {
            let mut v: Vec<char> = self.pick(base).chars().collect();
            for _ in 0..=self.below(3) {
                let p = self.below(v.len() + 1);
                match self.below(6) {
                    0 if p < v.len() => {
                        v.remove(p);
                    }
                    4 if p < v.len() => v[p] = flip(v[p]),
                    5 => {
                        let c = ODD[self.below(ODD.len())];
                        v.insert(p, c);
                    }
                    1 if p < v.len() => {
                        let q = self.below(v.len());
                        v.swap(p, q);
                    }
                    2 if p < v.len() => {
                        let t: Vec<char> = self.pick(tokens).chars().collect();
                        v.splice(p..p + 1, t);
                    }
                    _ => {
                        let t: Vec<char> = self.pick(tokens).chars().collect();
                        v.splice(p..p, t);
                    }
                }
            }
            let s: String = v.into_iter().collect();
            f(self, &s);
        }
    }
    /// a `u64` biased towards the edges
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.next() % 8,
            1 => self.next() % 70_000,
            2 => u64::MAX - self.next() % 8,
            3 => {
                let k = self.next() % 64;
                (1u64 << k).wrapping_add(self.next() % 3).wrapping_sub(1)
            }
            4 => {
                let k = (self.next() % 20) as u32;
                10u64.pow(k).wrapping_add(self.next() % 3).wrapping_sub(1)
            }
            _ => self.next(),
        }
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}
pub fn ensure(ok: bool, msg: impl FnOnce() -> String) -> R {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

// ---------------------------------------------------------------- shared oracles
/// what an unsigned decimal field of the text formats accepts (std integer syntax)
pub fn uint(s: &str, max: u128) -> Option<u128> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u128 = 0;
    for b in d.bytes() {
        v = v.checked_mul(10)?.checked_add(u128::from(b - b'0'))?;
    }
    (v <= max).then_some(v)
}

/// characters texts are seldom tried with
pub const ODD: [char; 22] = [
    ' ', '\t', '\n', '\0', '.', '-', '_', '/', ':', '@', '=', ',', '+', '~', '$', '\u{7f}', '\u{e9}', '\u{df}', '\u{660}', '\u{ff11}',
    '\u{212a}', '\u{1f600}',
];
fn flip(c: char) -> char {
    if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
}
/// every text one small edit away: letter case, a character left out or doubled, an odd character in each place
fn neighbours(b: &str, mut f: impl FnMut(&str)) {
    let v: Vec<char> = b.chars().collect();
    if v.len() > 100 {
        return;
    }
    f(&b.to_uppercase());
    f(&b.to_lowercase());
    for i in 0..=v.len() {
        let mut put = |mid: &[char], rest: usize| {
            let s: String = v[..i].iter().chain(mid).chain(&v[rest.min(v.len())..]).collect();
            f(&s);
        };
        if i < v.len() {
            put(&[], i + 1);
            put(&[flip(v[i])], i + 1);
            put(&[v[i], v[i]], i + 1);
        }
        for c in ODD {
            put(&[c], i);
        }
    }
}
