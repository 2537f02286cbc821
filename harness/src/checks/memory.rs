//! C23 memory-mapped vector, C24 allocation accounting.
use super::Check;
use crate::mon::{guard, Ctx, Record, Rng};
use std::{
    alloc::{GlobalAlloc, Layout},
    cell::{Cell, RefCell},
    collections::HashMap,
    rc::Rc,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst},
        Barrier, Mutex,
    },
};
use zkp_logging_allocator::LoggingAllocator;
use zkp_mmap_vec::MmapVec;
use zkp_primefield::FieldElement;

pub fn register(v: &mut Vec<Check>) {
    v.push(Check {
        id:      "C23",
        run:     mmapvec,
        rule:    "random operation histories on vectors of several element types, run in lock-step with a std Vec model; a \
                  ledger watches every element's birth and death, clones are made to panic at chosen points, capacity \
                  overruns are provoked; distinct = operation history",
        assumes: &["the ledger sees drops through the element type's own Drop"],
    });
    v.push(Check {
        id:      "C24",
        run:     accounting,
        rule:    "allocation histories through the allocator, single-threaded against an exact model after every step and \
                  multi-threaded against conservation sums at barriers, with refused sizes and a log subscriber that \
                  formats every message; distinct = history step state",
        assumes: &["peak is the largest value the in-use counter takes"],
    });
}

// ------------------------------------------------------------------ MmapVec

#[derive(Default)]
struct Ledger {
    next:   u64,
    live:   HashMap<u64, u32>,
    errors: Vec<String>,
    clones: u64,
    /// Panic when this many further clones were made.
    fuse:   Option<u64>,
    /// Panic when this element is dropped.
    mine:   Option<u64>,
}

/// Element whose life is tracked.
struct Tok {
    id:     u64,
    value:  u32,
    heap:   Box<u64>,
    ledger: Rc<RefCell<Ledger>>,
}

impl Tok {
    fn new(l: &Rc<RefCell<Ledger>>, value: u32) -> Tok {
        let mut g = l.borrow_mut();
        g.next += 1;
        let id = g.next;
        g.live.insert(id, value);
        Tok { id, value, heap: Box::new(id), ledger: l.clone() }
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        {
            let mut g = self.ledger.borrow_mut();
            g.clones += 1;
            if let Some(n) = g.fuse {
                if n == 0 {
                    g.fuse = None;
                    drop(g);
                    panic!("injected clone failure");
                }
                g.fuse = Some(n - 1);
            }
            if !g.live.contains_key(&self.id) {
                g.errors.push(format!("clone of dead element {}", self.id));
            }
        }
        Tok::new(&self.ledger, self.value)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let mut g = self.ledger.borrow_mut();
        if *self.heap != self.id {
            g.errors.push(format!("element {} has corrupt payload {}", self.id, self.heap));
        }
        if g.live.remove(&self.id).is_none() {
            g.errors.push(format!("element {} dropped twice", self.id));
        }
        if g.mine == Some(self.id) {
            g.mine = None;
            drop(g);
            panic!("injected drop failure");
        }
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.value == o.value
    }
}

fn mmapvec(ctx: &Ctx) {
    ctx.cases("ownership", 8, ctx.n(1500, 30000), |rng, _, rec| {
        let ledger = Rc::new(RefCell::new(Ledger::default()));
        let cap = match rng.below(4) {
            0 => rng.below(3),
            1 => 4096 / std::mem::size_of::<Tok>() + rng.below(3),
            _ => rng.range(1, 40),
        };
        let mut history: Vec<String> = vec![format!("with_capacity({})", cap)];
        {
            let mut v: MmapVec<Tok> = MmapVec::with_capacity(cap);
            let mut model: Vec<u32> = vec![];
            let mut others: Vec<(MmapVec<Tok>, Vec<u32>)> = vec![];
            for step in 0..rng.range(1, 40) {
                let val = (step * 1000) as u32 + rng.below(1000) as u32;
                match rng.below(14) {
                    0..=2 => {
                        history.push(format!("push {}", val));
                        let t = Tok::new(&ledger, val);
                        let r = guard(|| v.push(t));
                        if model.len() < cap {
                            rec.check(r.is_ok(), "push refused", || format!("{:?}: {:?}", history, r));
                            model.push(val);
                        } else {
                            rec.event("push at capacity");
                            rec.check(r.is_err(), "push beyond capacity", || format!("{:?}", history));
                        }
                    }
                    3 => {
                        let n = rng.below(model.len() + 3);
                        history.push(format!("truncate {}", n));
                        v.truncate(n);
                        model.truncate(n);
                    }
                    4 => {
                        if rng.chance(1, 3) {
                            history.push("clear".into());
                            v.clear();
                            model.clear();
                        }
                    }
                    5 | 6 => {
                        let n = rng.below(cap + 2);
                        history.push(format!("resize {} {}", n, val));
                        let t = Tok::new(&ledger, val);
                        let r = guard(|| v.resize(n, t));
                        if n <= cap {
                            rec.check(r.is_ok(), "resize refused", || format!("{:?}: {:?}", history, r));
                            model.resize(n, val);
                        } else {
                            rec.event("resize beyond capacity");
                            rec.check(r.is_err(), "resize beyond capacity", || format!("{:?}", history));
                        }
                    }
                    7 | 8 => {
                        let n = rng.below(6);
                        let room = cap - model.len();
                        let src: Vec<Tok> = (0..n).map(|i| Tok::new(&ledger, val + i as u32)).collect();
                        let vals: Vec<u32> = src.iter().map(|t| t.value).collect();
                        let how = rng.below(3);
                        history.push(format!("extend[{}] {:?}", how, vals));
                        let r = match how {
                            0 => guard(|| v.extend_from_slice(&src)),
                            1 => guard(|| v.extend(src.iter())),
                            _ => guard(|| v.extend(src)),
                        };
                        if n <= room {
                            rec.check(r.is_ok(), "extend refused", || format!("{:?}: {:?}", history, r));
                            model.extend(vals);
                        } else {
                            rec.event("extend beyond capacity");
                            rec.check(r.is_err(), "extend beyond capacity", || format!("{:?}", history));
                            // How much of it was taken is not specified.
                            let took = v.len() - model.len();
                            rec.check(took <= room, "extend beyond capacity", || format!("{:?}", history));
                            model.extend(vals.into_iter().take(took));
                        }
                    }
                    9 => {
                        history.push("clone".into());
                        let c = v.clone();
                        rec.check(c == v, "clone differs", || format!("{:?}", history));
                        others.push((c, model.clone()));
                    }
                    10 => {
                        if let Some((o, m)) = others.pop() {
                            history.push("swap/drop clone".into());
                            rec.check((o == v) == (m == model), "eq", || format!("{:?}", history));
                            v = o;
                            model = m;
                        }
                    }
                    11 => {
                        if !model.is_empty() {
                            let i = rng.below(model.len());
                            history.push(format!("set {} {}", i, val));
                            if rng.chance(1, 2) {
                                v[i] = Tok::new(&ledger, val);
                            } else {
                                v.as_mut_slice()[i] = Tok::new(&ledger, val);
                            }
                            model[i] = val;
                        }
                    }
                    12 => {
                        // A clone fails in the middle of an operation.
                        let fuse = rng.below(4) as u64;
                        let n = rng.below(6).min(cap - model.len());
                        let src: Vec<Tok> = (0..n).map(|i| Tok::new(&ledger, val + i as u32)).collect();
                        let vals: Vec<u32> = src.iter().map(|t| t.value).collect();
                        let how = rng.below(4);
                        history.push(format!("fault[{}] after {} {:?}", how, fuse, vals));
                        let before = model.len();
                        ledger.borrow_mut().fuse = Some(fuse);
                        let r = match how {
                            0 => guard(|| v.extend_from_slice(&src)),
                            1 => guard(|| v.extend(src.iter())),
                            2 => guard(|| drop(v.clone())),
                            _ => {
                                let t = Tok::new(&ledger, val);
                                guard(|| v.resize(before + n, t))
                            }
                        };
                        ledger.borrow_mut().fuse = None;
                        if r.is_err() {
                            rec.event("injected clone failure");
                        }
                        // Whatever was taken must be a prefix of the source.
                        let took = v.len().wrapping_sub(before);
                        if rec.check(took <= n && (how != 2 || took == 0), "length after failed clone", || format!("{:?}: {}", history, v.len())) {
                            match how {
                                3 => model.resize(before + took, val),
                                _ => model.extend(vals.into_iter().take(took)),
                            }
                        }
                    }
                    _ => {
                        history.push("reverse via slice".into());
                        v.reverse();
                        model.reverse();
                    }
                }
                rec.eval(&(&history, cap));
                let got: Vec<u32> = v.iter().map(|t| t.value).collect();
                rec.check(got == model, "contents", || format!("{:?}: {:?} expected {:?}", history, got, model));
                rec.check(v.len() == model.len() && v.is_empty() == model.is_empty(), "len", || format!("{:?}", history));
                rec.check(v.as_slice().len() == model.len(), "slice", || format!("{:?}", history));
                let g = ledger.borrow();
                let dead: Vec<u64> = v.iter().filter(|t| !g.live.contains_key(&t.id)).map(|t| t.id).collect();
                rec.check(dead.is_empty(), "holds a dropped element", || format!("{:?}: {:?}", history, dead));
                let expect = model.len() + others.iter().map(|o| o.1.len()).sum::<usize>();
                rec.check(g.live.len() == expect, "element leaked or lost", || {
                    format!("{:?}: {} live, {} owned", history, g.live.len(), expect)
                });
            }
        }
        let g = ledger.borrow();
        rec.sample("history", || format!("{:?}", history));
        rec.check(g.errors.is_empty(), "ownership", || format!("{:?}: {:?}", history, g.errors));
        rec.check(g.live.is_empty(), "leak on drop", || format!("{:?}: {} elements", history, g.live.len()));
        rec.events_n("elements tracked", g.next);
    });
    ctx.cases("failing drop", 8, ctx.n(400, 8000), |rng, _, rec| {
        // The drop of one element panics. Every element still dies once.
        let ledger = Rc::new(RefCell::new(Ledger::default()));
        let cap = rng.range(1, 30);
        let len = rng.range(1, cap);
        let how = rng.below(6);
        let keep = rng.below(len);
        let bad = rng.range(keep, len - 1);
        let what = format!("how {} len {} keep {} bad {}", how, len, keep, bad);
        rec.eval(&("drop", how, cap, len, keep, bad));
        let mut v: MmapVec<Tok> = MmapVec::with_capacity(cap);
        for i in 0..len {
            v.push(Tok::new(&ledger, i as u32));
        }
        let id = v[bad].id;
        ledger.borrow_mut().mine = Some(id);
        if how == 5 {
            let r = guard(|| drop(v));
            rec.check(r.is_err(), "drop panic swallowed", || what.clone());
        } else {
            let r = match how {
                0 | 1 => guard(|| v.truncate(keep)),
                2 => guard(|| v.clear()),
                3 => {
                    let t = Tok::new(&ledger, 7);
                    guard(|| v.resize(keep, t))
                }
                _ => {
                    let t = Tok::new(&ledger, bad as u32);
                    guard(|| v[bad] = t)
                }
            };
            rec.check(r.is_err(), "drop panic swallowed", || what.clone());
            let got: Vec<u32> = v.iter().map(|t| t.value).collect();
            let want: Vec<u32> = (0..got.len() as u32).collect();
            rec.check(got.len() <= len && got == want, "contents after failed drop", || format!("{}: {:?}", what, got));
            {
                let g = ledger.borrow();
                let dead = v.iter().filter(|t| !g.live.contains_key(&t.id)).count();
                rec.check(dead == 0, "holds a dropped element", || format!("{}: {}", what, dead));
            }
            if rng.chance(1, 2) {
                // Still usable
                let n = v.len();
                if n < cap {
                    v.push(Tok::new(&ledger, n as u32));
                }
                v.truncate(n / 2);
            }
            drop(v);
        }
        rec.event("injected drop failure");
        let g = ledger.borrow();
        rec.check(g.errors.is_empty(), "ownership", || format!("{}: {:?}", what, g.errors));
        rec.check(g.live.is_empty(), "leak on drop", || format!("{}: {} elements", what, g.live.len()));
    });
    ctx.cases("plain", 8, ctx.n(400, 6000), |rng, ix, rec| {
        match ix % 7 {
            0 => plain::<u8>(rng, rec, |r| r.u64() as u8, true),
            1 => plain::<u64>(rng, rec, |r| r.u64(), true),
            2 => plain::<[u8; 3]>(rng, rec, |r| [r.u64() as u8, 1, r.u64() as u8], true),
            3 => plain::<()>(rng, rec, |_| (), true),
            4 => plain::<String>(rng, rec, |r| format!("{:x}", r.u64()), false),
            5 => plain::<FieldElement>(rng, rec, |r| crate::conv::el(super::field::rfe(r)), true),
            _ => plain::<Wide>(rng, rec, |r| Wide([r.u64(); 9]), true),
        }
    });
    ctx.cases("absurd capacity", 1, 6, |_, ix, rec| {
        let cap = [usize::MAX, usize::MAX / 2, usize::MAX / 8, usize::MAX / 8 + 1, 1 << 61, (1 << 61) + 1][ix as usize];
        rec.eval(&("capacity", cap));
        // Must be refused: the mapping can not exist.
        let r = guard(|| {
            let mut v: MmapVec<u64> = MmapVec::with_capacity(cap);
            v.push(1);
            v.len()
        });
        rec.check(r.is_err(), "impossible capacity granted", || format!("{}", cap));
    });
}

#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
struct Wide([u64; 9]);

fn plain<T: Clone + PartialEq + std::fmt::Debug>(rng: &mut Rng, rec: &mut Record, mut gen: impl FnMut(&mut Rng) -> T, zeroable: bool) {
    let bytes = if rng.chance(1, 12) { 300_000 } else { 9000 };
    let cap = rng.size(bytes / (1 + std::mem::size_of::<T>()));
    let mut v: MmapVec<T> = MmapVec::with_capacity(cap);
    let mut m: Vec<T> = vec![];
    rec.check(v.as_slice().as_ptr() as usize % std::mem::align_of::<T>() == 0, "alignment", || format!("{}", cap));
    for _ in 0..rng.range(1, 12) {
        match rng.below(5) {
            0 => {
                let n = rng.below(cap - m.len() + 1);
                let s: Vec<T> = (0..n).map(|_| gen(rng)).collect();
                v.extend_from_slice(&s);
                m.extend(s);
            }
            1 => {
                if m.len() < cap {
                    let x = gen(rng);
                    v.push(x.clone());
                    m.push(x);
                }
            }
            2 => {
                let n = rng.below(cap + 1);
                let x = gen(rng);
                v.resize(n, x.clone());
                m.resize(n, x);
            }
            3 => {
                let n = rng.below(m.len() + 1);
                v.truncate(n);
                m.truncate(n);
            }
            _ => {
                let s: Vec<T> = (0..rng.below(cap - m.len() + 1)).map(|_| gen(rng)).collect();
                v.extend(s.iter());
                m.extend(s);
            }
        }
        rec.eval(&(std::mem::size_of::<T>(), cap, m.len(), rng.clone().u64()));
        rec.check(&v[..] == &m[..], "contents", || format!("size {} cap {}: {:?}", std::mem::size_of::<T>(), cap, m.len()));
        rec.check(v.clone() == v, "clone", || format!("cap {}", cap));
        let d = format!("{:?}", v);
        rec.check(!d.is_empty(), "debug", String::new);
    }
    if zeroable {
        let n = rng.below(3000);
        // Only all-zero-valid types get here.
        let z: MmapVec<T> = unsafe { MmapVec::zero_initialized(n) };
        let bytes = unsafe { std::slice::from_raw_parts(z.as_ptr() as *const u8, n * std::mem::size_of::<T>()) };
        rec.check(z.len() == n && bytes.iter().all(|b| *b == 0), "zero_initialized", || format!("{}", n));
    }
}

// ---------------------------------------------------------------- allocator

static LOGGED: AtomicU64 = AtomicU64::new(0);
static LAST: Mutex<Vec<(log::Level, String)>> = Mutex::new(Vec::new());

thread_local! {
    /// The allocator a message is about; the logger allocates through it, as
    /// it does when the allocator is the global one.
    static CURRENT: Cell<Option<*const LoggingAllocator>> = const { Cell::new(None) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
    static DEEPEST: Cell<usize> = const { Cell::new(0) };
}

/// What the logger allocates per message.
const SCRATCH: [usize; 4] = [1, 24, 4096, 999_999];

struct Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }

    fn log(&self, r: &log::Record<'_>) {
        let s = format!("{}", r.args());
        LOGGED.fetch_add(1, SeqCst);
        let Some(a) = CURRENT.with(Cell::get) else { return };
        let d = DEPTH.with(Cell::get) + 1;
        DEEPEST.with(|x| x.set(x.get().max(d)));
        if d > 3 {
            return;
        }
        DEPTH.with(|x| x.set(d));
        for n in SCRATCH {
            let l = Layout::from_size_align(n, 8).unwrap();
            unsafe {
                let p = (*a).alloc(l);
                if !p.is_null() {
                    (*a).dealloc(p, l);
                }
            }
        }
        DEPTH.with(|x| x.set(d - 1));
        LAST.lock().unwrap().push((r.level(), s));
    }

    fn flush(&self) {}
}

static SINK: Sink = Sink;

#[derive(Default, Clone, Debug, PartialEq, Hash)]
struct Totals {
    allocated: usize,
    peak:      usize,
    total:     usize,
    largest:   usize,
    num:       usize,
}

fn read(a: &LoggingAllocator) -> Totals {
    Totals {
        allocated: a.allocated(),
        peak:      a.peak_allocated(),
        total:     a.total_allocated(),
        largest:   a.largest_allocated(),
        num:       a.num_allocations(),
    }
}

fn rand_size(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => rng.range(1, 16),
        1..=4 => rng.range(1, 2000),
        5 => rng.range(1, 200_000),
        6 => rng.range(990_000, 1_010_000),
        _ => *rng.pick(&[4096, 1, 64, 999_999, 1_000_000, 1_000_001]),
    }
}

unsafe fn fill(p: *mut u8, n: usize, tag: u8) {
    p.write_bytes(tag, n);
}

unsafe fn holds(p: *mut u8, n: usize, tag: u8) -> bool {
    std::slice::from_raw_parts(p, n).iter().all(|b| *b == tag)
}

/// The byte sizes a message names.
fn sizes(text: &str) -> Vec<f64> {
    let w: Vec<&str> = text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.')).filter(|x| !x.is_empty()).collect();
    w.windows(2)
        .filter_map(|p| {
            let u = match p[1].trim_end_matches('.') {
                "B" => 1.0,
                "kB" => 1e3,
                "MB" => 1e6,
                "GB" => 1e9,
                "TB" => 1e12,
                _ => return None,
            };
            p[0].parse::<f64>().ok().map(|x| x * u)
        })
        .collect()
}

/// Three digits are printed.
fn about(x: f64, n: usize) -> bool {
    (x - n as f64).abs() <= 0.0051 * n as f64
}

fn accounting(ctx: &Ctx) {
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
    ctx.cases("exact", 1, ctx.n(300, 4000), |rng, _, rec| {
        let a = LoggingAllocator::new();
        let mut m = Totals::default();
        let mut live: Vec<(*mut u8, Layout, u8)> = vec![];
        let mut hist = vec![];
        let grow = |m: &mut Totals, n: usize| {
            m.allocated += n;
            m.total += n;
            m.num += 1;
            m.largest = m.largest.max(n);
            m.peak = m.peak.max(m.allocated);
        };
        for step in 0..rng.range(1, 60) {
            let tag = step as u8;
            match rng.below(8) {
                0..=3 => unsafe {
                    let l = Layout::from_size_align(rand_size(rng), 1 << rng.below(8)).unwrap();
                    hist.push(format!("alloc {:?}", l));
                    let zero = rng.chance(1, 4);
                    let p = if zero { a.alloc_zeroed(l) } else { a.alloc(l) };
                    if rec.check(!p.is_null() && p as usize % l.align() == 0, "alloc", || format!("{:?}", hist)) {
                        if zero {
                            rec.check(holds(p, l.size(), 0), "alloc_zeroed", || format!("{:?}", hist));
                        }
                        fill(p, l.size(), tag);
                        live.push((p, l, tag));
                        grow(&mut m, l.size());
                    }
                },
                4 | 5 => unsafe {
                    if !live.is_empty() {
                        let (p, l, t) = live.swap_remove(rng.below(live.len()));
                        hist.push(format!("dealloc {:?}", l));
                        rec.check(holds(p, l.size(), t), "contents", || format!("{:?}", hist));
                        a.dealloc(p, l);
                        m.allocated -= l.size();
                    }
                },
                6 => unsafe {
                    if !live.is_empty() {
                        let (p, l, t) = live.swap_remove(rng.below(live.len()));
                        let n = rand_size(rng);
                        hist.push(format!("realloc {:?} -> {}", l, n));
                        let q = a.realloc(p, l, n);
                        if rec.check(!q.is_null(), "realloc", || format!("{:?}", hist)) {
                            let k = n.min(l.size());
                            rec.check(holds(q, k, t), "realloc contents", || format!("{:?}", hist));
                            let nl = Layout::from_size_align(n, l.align()).unwrap();
                            fill(q, n, t);
                            live.push((q, nl, t));
                            m.allocated = read(&a).allocated;
                            // Whether both blocks exist at once, and whether
                            // it counts as an allocation, is up to the
                            // allocator; resynchronise those.
                            let want: usize = live.iter().map(|x| x.1.size()).sum();
                            rec.check(m.allocated == want, "in use after realloc", || {
                                format!("{:?}: {} expected {}", hist, m.allocated, want)
                            });
                            m = read(&a);
                        }
                    }
                },
                _ => unsafe {
                    // Beyond the limit: refused, not counted.
                    let n = *rng.pick(&[1_000_000_000_000_usize, 1_000_000_000_001, 1 << 50]);
                    hist.push(format!("alloc {}", n));
                    let p = a.alloc(Layout::from_size_align(n, 8).unwrap());
                    rec.event("refused allocation");
                    rec.check(p.is_null(), "oversized allocation granted", || format!("{:?}", hist));
                },
            }
            let got = read(&a);
            rec.eval(&got);
            rec.check(got == m, "accounting", || format!("{:?}: {:?} expected {:?}", hist, got, m));
        }
        rec.sample("history", || format!("{:?} -> {:?}", hist, m));
        if rng.chance(1, 10) {
            CURRENT.with(|c| c.set(Some(&a)));
            LAST.lock().unwrap().clear();
            let r = guard(|| a.log_statistics());
            CURRENT.with(|c| c.set(None));
            rec.check(r.is_ok(), "log_statistics panics", || format!("{:?}: {:?}", m, r));
            let said = std::mem::take(&mut *LAST.lock().unwrap());
            rec.event("statistics logged");
            let z: Vec<f64> = said.iter().flat_map(|x| sizes(&x.1)).collect();
            let want = [m.total, m.allocated, m.largest];
            rec.check(z.len() == 3 && z.iter().zip(&want).all(|(x, n)| about(*x, *n)), "logged statistics", || {
                format!("{:?} logged as {:?}", m, said)
            });
            rec.check(said.iter().any(|x| x.1.contains(&format!(" {} ", m.num))), "logged statistics", || {
                format!("{:?} logged as {:?}", m, said)
            });
        }
        for (p, l, _) in live {
            unsafe { a.dealloc(p, l) };
        }
        rec.check(a.allocated() == 0, "in use after freeing everything", || format!("{}", a.allocated()));
    });
    // Message formatting around every unit boundary.
    ctx.cases("messages", 1, ctx.n(300, 3000), |rng, ix, rec| {
        let units = [1_000_000_usize, 10_000_000, 100_000_000, 1_000_000_000, 10_000_000_000, 100_000_000_000, 1_000_000_000_000];
        let u = units[ix as usize % units.len()];
        let n = match rng.below(4) {
            0 => u - 1 - rng.below(70),
            1 => u - rng.below(u / 1000),
            2 => u + rng.below(u / 1000),
            _ => u + rng.below(u * 8),
        };
        rec.eval(&("message", n));
        let a = LoggingAllocator::new();
        let before = LOGGED.load(SeqCst);
        let l = Layout::from_size_align(n, 8).unwrap();
        LAST.lock().unwrap().clear();
        DEEPEST.with(|x| x.set(0));
        DEPTH.with(|x| x.set(0));
        CURRENT.with(|c| c.set(Some(&a)));
        let r = guard(|| unsafe {
            let p = a.alloc(l);
            let got = read(&a);
            CURRENT.with(|c| c.set(None));
            if !p.is_null() {
                a.dealloc(p, l);
            }
            (!p.is_null(), got)
        });
        CURRENT.with(|c| c.set(None));
        let said = std::mem::take(&mut *LAST.lock().unwrap());
        let deepest = DEEPEST.with(Cell::get);
        rec.check(deepest <= 1, "logging recurses", || format!("{} bytes: {} levels", n, deepest));
        rec.check(deepest == usize::from(n >= 1_000_000), "large allocation not logged once", || format!("{} bytes: {:?}", n, said));
        for (_, text) in &said {
            let z = sizes(text);
            rec.event("message judged");
            rec.check(z.len() == 2 && about(z[0], n) && z[1] == 0.0, "message", || format!("{} bytes: {}", n, text));
        }
        match r {
            Err(m) => rec.violation("allocation panics", format!("{} bytes: {}", n, m)),
            Ok((granted, got)) => {
                let sum: usize = SCRATCH.iter().sum();
                let max = *SCRATCH.iter().max().unwrap();
                let mut want = match said.len() {
                    0 => Totals::default(),
                    k => Totals { allocated: 0, peak: max, total: k * sum, largest: max, num: k * SCRATCH.len() },
                };
                if granted {
                    want.allocated = n;
                    want.peak = want.peak.max(n);
                    want.largest = want.largest.max(n);
                    want.total += n;
                    want.num += 1;
                }
                rec.event(if granted { "granted" } else { "refused" });
                rec.check(got == want, "accounting", || format!("{} bytes: {:?}", n, got));
                rec.check(n < 1_000_000_000_000 || !granted, "oversized allocation granted", || format!("{}", n));
                rec.events_n("messages formatted", LOGGED.load(SeqCst) - before);
            }
        }
    });
    ctx.cases("threads", 1, ctx.n(30, 300), |rng, _, rec| {
        let a = LoggingAllocator::new();
        let nt = rng.range(2, 8);
        let rounds = 12;
        let seeds: Vec<u64> = (0..nt).map(|_| rng.u64()).collect();
        let bar = Barrier::new(nt);
        let live = AtomicUsize::new(0);
        let (total, num, largest, peaks) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
        let seen: Mutex<Vec<(Totals, usize)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for &seed in &seeds {
                let (a, bar, live, total, num, largest, peaks, seen) = (&a, &bar, &live, &total, &num, &largest, &peaks, &seen);
                s.spawn(move || {
                    let mut rng = Rng::new(seed);
                    let mut mine: Vec<(*mut u8, Layout)> = vec![];
                    let (mut own, mut ownpeak) = (0, 0);
                    for _ in 0..rounds {
                        for _ in 0..rng.range(20, 200) {
                            if rng.chance(3, 5) || mine.is_empty() {
                                let l = Layout::from_size_align(rng.range(1, 3000), 8).unwrap();
                                let p = unsafe { a.alloc(l) };
                                if p.is_null() {
                                    continue;
                                }
                                mine.push((p, l));
                                own += l.size();
                                ownpeak = ownpeak.max(own);
                                total.fetch_add(l.size(), SeqCst);
                                num.fetch_add(1, SeqCst);
                                largest.fetch_max(l.size(), SeqCst);
                                live.fetch_add(l.size(), SeqCst);
                            } else {
                                let (p, l) = mine.swap_remove(rng.below(mine.len()));
                                unsafe { a.dealloc(p, l) };
                                own -= l.size();
                                live.fetch_sub(l.size(), SeqCst);
                            }
                        }
                        if bar.wait().is_leader() {
                            seen.lock().unwrap().push((read(a), live.load(SeqCst)));
                        }
                        bar.wait();
                    }
                    for (p, l) in mine {
                        unsafe { a.dealloc(p, l) };
                    }
                    peaks.fetch_add(ownpeak, SeqCst);
                });
            }
        });
        let mut low = 0;
        for (t, l) in seen.lock().unwrap().iter() {
            rec.eval(t);
            rec.event("quiescent point");
            low = low.max(*l);
            rec.check(t.allocated == *l, "in use, concurrent", || format!("{:?}, {} live", t, l));
            rec.check(t.peak >= low, "peak too low, concurrent", || format!("{:?}, was {}", t, low));
        }
        let got = read(&a);
        rec.events_n("concurrent allocations", num.load(SeqCst) as u64);
        rec.check(
            got.allocated == 0 && got.total == total.load(SeqCst) && got.num == num.load(SeqCst) && got.largest == largest.load(SeqCst),
            "concurrent accounting",
            || format!("{:?} expected total {:?} num {:?}", got, total, num),
        );
        rec.check(got.peak <= peaks.load(SeqCst), "peak too high, concurrent", || format!("{:?}", got));
    });
}
