//! Monitoring runtime: seeded workloads, violation recording, panic and hang
//! watchers, coverage accounting.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Mutex,
    },
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- randomness

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9e37_79b9_7f4a_7c15), mix(seed.wrapping_add(0x1234_5678_9abc_def1)) | 1)
    }

    pub fn u64(&mut self) -> u64 {
        // PCG-ish: LCG state, mixed output
        self.0 = self.0.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(self.1);
        mix(self.0)
    }

    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }

    /// Inclusive.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// Up to `max`, small values and values near powers of two preferred.
    pub fn size(&mut self, max: usize) -> usize {
        let bits = (usize::BITS - max.leading_zeros()) as usize;
        let top = 1_usize << self.below(bits + 1);
        match self.below(4) {
            0 => top,
            1 => (top + self.below(5)).saturating_sub(2),
            _ => self.below(top) + top / 2,
        }
        .min(max)
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }

    /// A limb that likes carry chains and boundaries.
    pub fn limb(&mut self) -> u64 {
        match self.below(12) {
            0 | 1 => 0,
            2 => 1,
            3 | 4 => u64::MAX,
            5 => u64::MAX - self.u64() % 4,
            6 => 1 << self.below(64),
            7 => (1_u64 << self.below(64)).wrapping_sub(1),
            8 => self.u64() >> self.below(64),
            9 => !(self.u64() >> self.below(64)),
            _ => self.u64(),
        }
    }

    /// 256 bits, mixing uniform and adversarial shapes.
    pub fn limbs(&mut self) -> [u64; 4] {
        match self.below(10) {
            0..=2 => [self.u64(), self.u64(), self.u64(), self.u64()],
            3..=6 => [self.limb(), self.limb(), self.limb(), self.limb()],
            7 => {
                // 2^k + small delta
                let k = self.below(256);
                let mut l = [0; 4];
                l[k / 64] = 1 << (k % 64);
                let d = self.below(8) as i64 - 4;
                addi(&l, d)
            }
            8 => {
                // run of ones
                let (a, b) = (self.below(257), self.below(257));
                let mut l = [0_u64; 4];
                for i in a.min(b)..a.max(b) {
                    l[i / 64] |= 1 << (i % 64);
                }
                l
            }
            _ => {
                // fewer limbs
                let n = self.range(0, 4);
                let mut l = [0; 4];
                for x in l.iter_mut().take(n) {
                    *x = self.limb();
                }
                l
            }
        }
    }
}

pub fn addi(l: &[u64; 4], d: i64) -> [u64; 4] {
    let mut r = *l;
    if d >= 0 {
        let mut c = d as u64;
        for x in &mut r {
            let (t, o) = x.overflowing_add(c);
            *x = t;
            c = u64::from(o);
        }
    } else {
        let mut c = d.unsigned_abs();
        for x in &mut r {
            let (t, o) = x.overflowing_sub(c);
            *x = t;
            c = u64::from(o);
        }
    }
    r
}

// ------------------------------------------------------------------- results

#[derive(Default, Clone)]
pub struct Record {
    pub evaluations: u64,
    pub distinct:    HashSet<u64>,
    pub events:      BTreeMap<String, u64>,
    pub samples:     BTreeMap<String, Vec<String>>,
    pub violations:  Vec<Violation>,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    /// Stable short identification of what failed (known findings match on it).
    pub key:    String,
    pub detail: String,
    pub at:     String,
}

impl Record {
    pub fn merge(&mut self, o: Record) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for (k, v) in o.samples {
            let e = self.samples.entry(k).or_default();
            for s in v {
                if e.len() < 2 {
                    e.push(s);
                }
            }
        }
        for v in o.violations {
            // Keep a few of each kind, so that one kind cannot hide another.
            if self.violations.iter().filter(|w| w.key == v.key).count() < 3 {
                self.violations.push(v);
            }
        }
    }

    /// One judged observation; `shape` identifies the case for distinctness.
    pub fn eval<T: Hash>(&mut self, shape: &T) {
        self.evaluations += 1;
        self.distinct.insert(hash_of(shape));
    }

    pub fn event(&mut self, name: &str) {
        self.events_n(name, 1);
    }

    pub fn events_n(&mut self, name: &str, n: u64) {
        match self.events.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.events.insert(name.to_owned(), n);
            }
        }
    }

    pub fn sample(&mut self, group: &str, f: impl FnOnce() -> String) {
        let want = self.samples.get(group).map_or(true, |v| v.len() < 2);
        if want {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s += "...";
            }
            self.samples.entry(group.to_owned()).or_default().push(s);
        }
    }

    pub fn violation(&mut self, key: &str, detail: impl Into<String>) {
        if self.violations.iter().filter(|w| w.key == key).count() < 3 {
            let mut detail = detail.into();
            if detail.len() > 4000 {
                let mut n = 4000;
                while !detail.is_char_boundary(n) {
                    n -= 1;
                }
                detail.truncate(n);
            }
            self.violations.push(Violation {
                key: key.to_owned(),
                detail,
                at: CASE.with(|c| c.borrow().clone()),
            });
        }
    }

    /// Monitor: `ok` must hold.
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(key, detail());
        }
        ok
    }
}

thread_local! {
    static CASE: RefCell<String> = RefCell::new(String::new());
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = Some(msg.clone()));
        LAST_PANIC.lock().unwrap().replace(msg.clone());
        if std::env::var("OZMON_TRACE").is_ok() {
            eprintln!("{}\n{}", msg, std::backtrace::Backtrace::force_capture());
        }
    }));
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    LAST_PANIC.lock().unwrap().take();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .or_else(|| LAST_PANIC.lock().unwrap().take())
            .unwrap_or_else(|| "panic (no message)".into())
    })
}

// ------------------------------------------------------------------- context

pub struct Ctx {
    pub id:       String,
    pub thorough: bool,
    pub seed:     u64,
    pub profile:  String,
    pub deadline: Instant,
    pub only:     Option<(String, u64)>,
    pub total:    Mutex<Record>,
    slots:        Mutex<Vec<Option<(String, Instant)>>>,
    pub hang_s:   u64,
    /// Percentage of the case counts to run.
    pub scale:    u64,
}

pub static HUNG: AtomicBool = AtomicBool::new(false);

impl Ctx {
    pub fn new(
        id: &str,
        thorough: bool,
        seed: u64,
        profile: &str,
        budget: Duration,
        only: Option<(String, u64)>,
    ) -> Self {
        Ctx {
            id: id.to_owned(),
            thorough,
            seed,
            profile: profile.to_owned(),
            deadline: Instant::now() + budget,
            only,
            total: Mutex::new(Record::default()),
            slots: Mutex::new(vec![None; 64]),
            hang_s: 300,
            scale: 100,
        }
    }

    /// Scale a case count by tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        (n * self.scale / 100).max(1)
    }

    fn case_seed(&self, section: &str, ix: u64) -> u64 {
        mix(self.seed
            ^ mix(hash_of(&(self.id.as_str(), section)))
            ^ mix(ix.wrapping_add(0x51ed_270b))
            ^ hash_of(&self.profile))
    }

    /// The cases running for longer than the hang limit, if any.
    pub fn stuck(&self) -> Option<String> {
        let slots = self.slots.lock().unwrap();
        slots
            .iter()
            .flatten()
            .find(|(_, t)| t.elapsed() > Duration::from_secs(self.hang_s))
            .map(|(n, _)| n.clone())
    }

    fn one(
        &self,
        slot: usize,
        section: &str,
        ix: u64,
        f: &(dyn Fn(&mut Rng, u64, &mut Record) + Sync),
    ) -> Record {
        let name = format!("{}#{}", section, ix);
        CASE.with(|c| *c.borrow_mut() = name.clone());
        self.slots.lock().unwrap()[slot] = Some((name, Instant::now()));
        let mut rec = Record::default();
        let mut rng = Rng::new(self.case_seed(section, ix));
        let r = guard(|| f(&mut rng, ix, &mut rec));
        if let Err(msg) = r {
            let key: String = msg.chars().take(160).collect();
            rec.violation(&format!("panic: {}", key), format!("unexpected panic: {}", msg));
        }
        self.slots.lock().unwrap()[slot] = None;
        rec
    }

    /// Runs `count` independent cases on `threads` threads. Each case gets its
    /// own random stream. Stops early only at the time budget.
    pub fn cases(
        &self,
        section: &str,
        threads: usize,
        count: u64,
        f: impl Fn(&mut Rng, u64, &mut Record) + Sync,
    ) {
        if let Some((s, ix)) = &self.only {
            if s == section {
                let r = self.one(0, section, *ix, &f);
                self.total.lock().unwrap().merge(r);
            }
            return;
        }
        let next = AtomicU64::new(0);
        let cut = AtomicUsize::new(0);
        let t0 = Instant::now();
        let body = |slot: usize| loop {
            if Instant::now() > self.deadline {
                cut.store(1, SeqCst);
                break;
            }
            let ix = next.fetch_add(1, SeqCst);
            if ix >= count {
                break;
            }
            let r = self.one(slot, section, ix, &f);
            self.total.lock().unwrap().merge(r);
        };
        if threads <= 1 {
            body(0);
        } else {
            std::thread::scope(|s| {
                for t in 0..threads {
                    let body = &body;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || body(t))
                        .unwrap();
                }
            });
        }
        let done = next.load(SeqCst).min(count);
        let mut t = self.total.lock().unwrap();
        t.events_n(&format!("cases[{}]", section), done);
        if cut.load(SeqCst) == 1 {
            t.event(&format!("budget_cut[{}]", section));
        }
        eprintln!(
            "[{} {}] section {}: {} cases in {:.1}s, {} violations so far",
            self.id,
            self.profile,
            section,
            done,
            t0.elapsed().as_secs_f64(),
            t.violations.len()
        );
    }
}
