//! Shared machinery of the monitors: random source, case bookkeeping, verdicts and coverage.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::{Duration, Instant};

#[cfg(not(feature = "sync"))]
pub use std::rc::Rc as RefCount;
#[cfg(feature = "sync")]
pub use std::sync::Arc as RefCount;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, low: usize, high: usize) -> usize {
        low + self.below(high - low + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T {
        &list[self.below(list.len())]
    }
    pub fn shuffle<T>(&mut self, list: &mut [T]) {
        for i in (1..list.len()).rev() {
            let j = self.below(i + 1);
            list.swap(i, j);
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(value: &T) -> u64 {
    // FNV-1a based hasher: stable between runs and builds.
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01B3);
            }
        }
    }
    let mut hasher = Fnv(0xcbf2_9ce4_8422_2325);
    value.hash(&mut hasher);
    hasher.finish()
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.get_or_insert_with(|| format!("panic at {location}: {message}"));
            }
        });
    }));
}

pub fn take_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Runs `f`, turning a panic into `Err(description)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let _ = take_panic();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(value) => Ok(value),
        Err(_) => Err(take_panic().unwrap_or_else(|| "panic".to_string())),
    }
}

pub struct Violation {
    pub phase: String,
    pub index: u64,
    pub detail: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<(String, u64)>,
    pub verbose: bool,
    pub scratch: PathBuf,
    pub out: PathBuf,
    journal: Option<std::fs::File>,
    deadline: Instant,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub transcript: Vec<String>,
    /// Set while the workload of another property is only recorded, not judged: its name and the share of cases.
    pub recorded: Option<(String, u64)>,
    current: (String, u64),
    broken: Option<String>,
    pub truncated: bool,
}

const MAX_VIOLATIONS: usize = 5;

impl Ctx {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        prop: &str,
        thorough: bool,
        seed: u64,
        shard: u64,
        shards: u64,
        only: Option<(String, u64)>,
        out: PathBuf,
        budget: Duration,
    ) -> Self {
        let scratch = match std::env::var_os("MONITOR_SCRATCH") {
            Some(path) => PathBuf::from(path).join("scratch"),
            None => out.join("scratch"),
        };
        std::fs::create_dir_all(&scratch).expect("scratch directory");
        let journal = std::fs::File::create(out.join("journal")).ok();
        Ctx {
            prop: prop.to_string(),
            thorough,
            seed,
            shard,
            shards,
            verbose: only.is_some(),
            only,
            scratch,
            out,
            journal,
            deadline: Instant::now() + budget,
            evaluations: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            transcript: Vec::new(),
            recorded: None,
            current: (String::new(), 0),
            broken: None,
            truncated: false,
        }
    }

    /// Runs the cases `0..quick` (or `0..thorough`) of the phase that belong to this shard. Each case has its own
    /// random source, which depends only on the seed, the property, the phase and the index of the case.
    pub fn phase(
        &mut self,
        name: &str,
        quick: u64,
        thorough: u64,
        mut f: impl FnMut(&mut Ctx, &mut Rng, u64),
    ) {
        let n = match (self.thorough, &self.recorded) {
            (true, _) => thorough,
            // Threads are slow to watch, and a recording is compared between several builds.
            (false, None) if self.prop != "C17" => (quick * 5).min(thorough.max(quick)),
            (false, _) => quick,
        };
        let (name, step) = match &self.recorded {
            Some((prop, step)) => (format!("{prop}.{name}"), *step),
            None => (name.to_string(), 1),
        };
        let name = name.as_str();
        for index in (0..n).step_by(step as usize) {
            match &self.only {
                Some((phase, case)) => {
                    if phase != name || *case != index {
                        continue;
                    }
                }
                None => {
                    if (index / step) % self.shards != self.shard {
                        continue;
                    }
                    if self.violations.len() >= MAX_VIOLATIONS {
                        return;
                    }
                    if Instant::now() > self.deadline {
                        self.truncated = true;
                        return;
                    }
                }
            }
            self.enter(name, index);
            let seed = hash_of(&(self.prop.as_str(), name, self.seed, index));
            let mut rng = Rng::new(seed);
            let outcome = guarded(|| f(self, &mut rng, index));
            if let Err(message) = outcome {
                self.fail(message);
            }
        }
    }

    pub fn phase_is(&self, names: &[&str]) -> bool {
        let name = self.current.0.rsplit('.').next().unwrap_or_default();
        names.contains(&name)
    }

    pub fn enter(&mut self, phase: &str, index: u64) {
        self.current = (phase.to_string(), index);
        self.journal();
    }

    fn journal(&mut self) {
        if let Some(file) = &self.journal {
            let line = format!("{:<40} {:>20}\n", self.current.0, self.current.1);
            let _ = file.write_at(line.as_bytes(), 0);
        }
    }

    pub fn fail(&mut self, detail: impl Into<String>) {
        let detail = detail.into();
        if detail.starts_with("panic at src/") && (detail.contains(": scratch") || detail.contains(": harness:")) {
            // The monitor itself could not work: nothing is decided.
            self.broken = Some(detail);
            return;
        }
        if self.recorded.is_some() {
            // Whether the answer is right is the business of the other property.
            let panicked = detail.contains("panic at ");
            self.record(|| if panicked { "panic".to_string() } else { "unexpected".to_string() });
            return;
        }
        if self.verbose {
            println!("FAIL {} {}: {}", self.current.0, self.current.1, detail);
        }
        if self.violations.len() < MAX_VIOLATIONS {
            self.violations.push(Violation {
                phase: self.current.0.clone(),
                index: self.current.1,
                detail,
            });
        }
    }

    pub fn check(&mut self, ok: bool, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(detail());
        }
        ok
    }

    pub fn eval(&mut self) {
        self.evaluations += 1;
    }

    pub fn hit(&mut self, counter: &str) {
        self.add(counter, 1);
    }

    pub fn add(&mut self, counter: &str, n: u64) {
        if let Some(value) = self.counters.get_mut(counter) {
            *value += n;
        } else {
            self.counters.insert(counter.to_string(), n);
        }
    }

    pub fn distinct<T: Hash + ?Sized>(&mut self, value: &T) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(hash_of(value));
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let mut s = f();
            if s.len() > 600 {
                let mut end = 600;
                while !s.is_char_boundary(end) {
                    end -= 1;
                }
                s.truncate(end);
            }
            self.samples.push(s);
        } 
    }

    /// One observation of the transcript that builds with other features have to reproduce.
    pub fn record(&mut self, line: impl FnOnce() -> String) {
        if self.recorded.is_none() {
            return;
        }
        let line = line().replace(&*self.scratch.to_string_lossy(), "<scratch>");
        let hash = hash_of(line.as_str());
        let short: String = line.escape_debug().take(400).collect();
        self.transcript.push(format!("{} {} {hash:016x} {short}", self.current.0, self.current.1));
        self.add("recorded", 1);
    }

    /// A context for one thread of a case.
    #[cfg(feature = "sync")]
    pub fn fork(&self) -> Ctx {
        Ctx {
            prop: self.prop.clone(),
            thorough: self.thorough,
            seed: self.seed,
            shard: self.shard,
            shards: self.shards,
            only: self.only.clone(),
            verbose: false,
            scratch: self.scratch.clone(),
            out: self.out.clone(),
            journal: None,
            deadline: self.deadline,
            evaluations: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            transcript: Vec::new(),
            recorded: None,
            current: self.current.clone(),
            broken: None,
            truncated: false,
        }
    }

    #[cfg(feature = "sync")]
    pub fn absorb(&mut self, part: Ctx) {
        if part.broken.is_some() {
            self.broken = part.broken;
        }
        self.evaluations += part.evaluations;
        for (k, v) in part.counters {
            self.add(&k, v);
        }
        for s in part.samples {
            self.sample(|| s);
        }
        self.distinct.extend(part.distinct);
        for v in part.violations {
            self.fail(v.detail);
        }
    }

    pub fn write_result(&self) {
        let mut out = String::new();
        out.push_str("{\"evaluations\":");
        let _ = write!(out, "{}", self.evaluations);
        out.push_str(",\"truncated\":");
        out.push_str(if self.truncated { "true" } else { "false" });
        out.push_str(",\"broken\":");
        out.push_str(&json(self.broken.as_deref().unwrap_or("")));
        out.push_str(",\"counters\":{");
        let mut first = true;
        for (k, v) in &self.counters {
            if !first {
                out.push(',');
            }
            first = false;
            let _ = write!(out, "{}:{}", json(k), v);
        }
        out.push_str("},\"samples\":[");
        for (i, s) in self.samples.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            out.push_str(&json(s));
        }
        out.push_str("],\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let mut detail = v.detail.clone();
            if detail.len() > 4000 {
                let mut end = 4000;
                while !detail.is_char_boundary(end) {
                    end -= 1;
                }
                detail.truncate(end);
            }
            let _ = write!(
                out,
                "{{\"phase\":{},\"index\":{},\"detail\":{}}}",
                json(&v.phase),
                v.index,
                json(&detail)
            );
        }
        out.push_str("]}");
        if !self.transcript.is_empty() {
            let mut text = String::new();
            for line in &self.transcript {
                text.push_str(&line.replace('\n', "\\n"));
                text.push('\n');
            }
            std::fs::write(self.out.join("transcript"), text).expect("transcript");
        }
        let mut bytes = Vec::with_capacity(self.distinct.len() * 8);
        for h in &self.distinct {
            bytes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(self.out.join("distinct.bin"), bytes).expect("distinct");
        std::fs::write(self.out.join("result.json"), out).expect("result");
    }
}

pub fn json(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}
