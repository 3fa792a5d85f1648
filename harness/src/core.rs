//! Case runner shared by all suites: every case is a concrete input (named by its key) run against
//! the compiled crate; a case that fails is re-run and reported only when it fails again.
use std::collections::BTreeSet;
use std::future::Future;
use std::time::{Duration, Instant};

pub struct Violation {
    pub clause: String,
    pub key: String,
    pub message: String,
}

pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub evals: u64,
    pub distinct: BTreeSet<String>,
    pub clauses: BTreeSet<String>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub flaky: Vec<String>,
    pub deadline: Instant,
    pub truncated: bool,
    pub case_timeout: Duration,
}

pub type CaseResult = Result<(), String>;

impl Cx {
    pub fn new(seed: u64, thorough: bool, only: Option<String>, budget: Duration) -> Cx {
        Cx {
            seed,
            thorough,
            only,
            evals: 0,
            distinct: BTreeSet::new(),
            clauses: BTreeSet::new(),
            samples: vec![],
            violations: vec![],
            flaky: vec![],
            deadline: Instant::now() + budget,
            truncated: false,
            case_timeout: Duration::from_secs(20),
        }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567)
    }
    pub async fn case<F, Fut>(&mut self, clause: &str, key: String, f: F)
    where
        F: Fn() -> Fut,
        Fut: Future<Output = CaseResult> + Send + 'static,
    {
        if let Some(o) = &self.only {
            if *o != key {
                return;
            }
        }
        if self.violations.len() >= 3 {
            return;
        }
        if Instant::now() > self.deadline {
            self.truncated = true;
            return;
        }
        self.evals += 1;
        self.clauses.insert(clause.to_string());
        if self.distinct.insert(key.clone()) && self.samples.len() < 8 && (self.evals % 97 == 1 || self.evals < 4) {
            self.samples.push(format!("{clause}: {key}"));
        }
        if let Err(m) = self.once(f()).await {
            // confirm: the same input has to fail again, twice
            let mut again = 0;
            let mut last = m.clone();
            for _ in 0..2 {
                if let Err(m2) = self.once(f()).await {
                    again += 1;
                    last = m2;
                }
            }
            if again == 2 {
                self.violations.push(Violation { clause: clause.into(), key, message: last });
            } else {
                self.flaky.push(format!("{clause}: {key}: {m}"));
            }
        }
    }
    /// A synchronous case.
    pub async fn check<F>(&mut self, clause: &str, key: String, f: F)
    where
        F: Fn() -> CaseResult + Send + Sync + Clone + 'static,
    {
        self.case(clause, key, move || {
            let f = f.clone();
            async move { f() }
        })
        .await
    }
    async fn once<Fut>(&self, fut: Fut) -> CaseResult
    where
        Fut: Future<Output = CaseResult> + Send + 'static,
    {
        let h = tokio::spawn(fut);
        let abort = h.abort_handle();
        match tokio::time::timeout(self.case_timeout, h).await {
            Ok(Ok(r)) => r,
            Ok(Err(e)) if e.is_panic() => {
                let p = e.into_panic();
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                Err(format!("panic: {m}"))
            }
            Ok(Err(e)) => Err(format!("task: {e}")),
            Err(_) => {
                abort.abort();
                Err(format!("no answer within {:?}", self.case_timeout))
            }
        }
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

/// All words over `alphabet` of length 1..=max.
pub fn words<T: Clone>(alphabet: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![];
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for w in &cur {
            for a in alphabet {
                let mut w2 = w.clone();
                w2.push(a.clone());
                next.push(w2);
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> CaseResult {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, contract requires {want:?}"))
    }
}
pub fn ensure(c: bool, m: impl Into<String>) -> CaseResult {
    if c {
        Ok(())
    } else {
        Err(m.into())
    }
}
