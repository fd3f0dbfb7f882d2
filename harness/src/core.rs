//! Shared machinery: deterministic random source with boundary-biased draws, an event recorder and a watchdog.
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub const OK: f64 = 0.;
pub const ERR: f64 = 1.;
pub const PANIC: f64 = 2.;
pub const HANG: f64 = 3.;

/// splitmix64 / xoshiro256**
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut next = || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            x ^ (x >> 31)
        };
        Rng {
            s: [next(), next(), next(), next()],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// uniform [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        (self.uni(lo.ln(), hi.ln())).exp()
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 { 1. } else { -1. }
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
}

/// Boundary-biased generators. `dict` holds the numeric literals of the current source tree (used only to
/// choose inputs, never to judge results).
pub struct Gen {
    pub r: Rng,
    pub dict: Vec<f64>,
    pub thorough: bool,
}
impl Gen {
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn dict_val(&mut self) -> Option<f64> {
        if self.dict.is_empty() {
            None
        } else {
            let i = self.r.below(self.dict.len());
            Some(self.dict[i])
        }
    }
    /// x, or x moved by ulps, or x moved by a log-uniform offset
    pub fn around(&mut self, x: f64, scale: f64) -> f64 {
        let y = self.around_raw(x, scale);
        // the specification resolves 1e-30: stay well above
        if y != 0. && y.abs() < 1e-12 { 1e-12 * y.signum() } else { y }
    }
    fn around_raw(&mut self, x: f64, scale: f64) -> f64 {
        match self.r.below(6) {
            0 | 1 => x,
            2 => {
                let mut y = x;
                for _ in 0..1 + self.r.below(3) {
                    y = y.next_up();
                }
                y
            }
            3 => {
                let mut y = x;
                for _ in 0..1 + self.r.below(3) {
                    y = y.next_down();
                }
                y
            }
            _ => x + self.r.sign() * scale * self.r.log(1e-15, 0.3),
        }
    }
    /// an angle in degrees within [-lim, lim]
    pub fn deg(&mut self, lim: f64) -> f64 {
        for _ in 0..50 {
            let x = match self.r.below(10) {
                0..=3 => self.r.uni(-lim, lim),
                4 => self.r.sign() * self.r.log(1e-12, 1.),
                5 | 6 => {
                    let k = self.r.below(37) as f64;
                    let base = self.r.pick(&[10., 15., 30., 45., 90., 6., 3., 1.]);
                    let b = (k - 18.) * base;
                    self.around(b, 1.)
                }
                7 => {
                    let s = self.r.sign();
                    self.around(s * lim, 1.)
                }
                8 => match self.dict_val() {
                    Some(v) => {
                        let v = self.r.sign() * v;
                        let v = if self.r.chance(0.3) { v.to_degrees() } else { v };
                        self.around(v, 1.)
                    }
                    None => 0.,
                },
                _ => (self.r.uni(-lim, lim)).round(),
            };
            if x.abs() <= lim {
                return x;
            }
        }
        self.r.uni(-lim, lim)
    }
    pub fn lon_deg(&mut self) -> f64 {
        self.deg(180.)
    }
    pub fn lat_deg(&mut self) -> f64 {
        self.deg(90.)
    }
    /// any magnitude up to lim
    pub fn mag(&mut self, lo: f64, lim: f64) -> f64 {
        for _ in 0..20 {
            let x = match self.r.below(8) {
                0 | 1 => self.r.uni(-lim, lim),
                2 | 3 => self.r.sign() * self.r.log(lo, lim),
                4 => 0.,
                5 => self.r.uni(-lim, lim).round(),
                6 => match self.dict_val() {
                    Some(v) => {
                        let v = v * self.r.sign();
                        let sc = v.abs().max(1e-3);
                        self.around(v, sc)
                    }
                    None => 1.,
                },
                _ => {
                    let k = self.r.below(9) as i32;
                    let s = self.r.sign();
                    self.around(s * 10f64.powi(k), 1.)
                }
            };
            if x.abs() <= lim {
                return x;
            }
        }
        self.r.uni(-lim, lim)
    }
    pub fn height(&mut self) -> f64 {
        match self.r.below(7) {
            0 => 0.,
            1 | 2 => self.r.uni(-120., 120.),
            3 => self.r.uni(-12_000., 10_000.),
            _ => self.mag(1e-3, 1e5),
        }
    }
}

#[derive(Clone)]
pub struct Event {
    pub op: u32,
    pub inp: Vec<f64>,
    pub out: Vec<f64>,
}

/// the call being made, or (false) the last one made, and when it began or ended
type Call = (u32, Vec<f64>, Instant, bool);
static CURRENT: OnceLock<Mutex<Option<Call>>> = OnceLock::new();
fn current() -> &'static Mutex<Option<Call>> {
    CURRENT.get_or_init(|| Mutex::new(None))
}
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// The last call made, in a file shared with whoever started this process, which can tell it after a crash.
const SHARED: usize = 4096;
struct Shared(*mut u8);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
static NOTE: OnceLock<Shared> = OnceLock::new();
unsafe extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
fn share(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(SHARED as u64).unwrap();
    // SAFETY: a new shared mapping of a file of that size, kept until the process ends
    let p = unsafe { mmap(std::ptr::null_mut(), SHARED, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    let _ = NOTE.set(Shared(p));
}
fn note(op: u32, inp: &[f64]) {
    if let Some(s) = NOTE.get() {
        let n = inp.len().min(SHARED / 8 - 2);
        let q = s.0 as *mut f64;
        // SAFETY: within the mapping, which is page aligned
        unsafe {
            q.write_volatile(op as f64);
            q.add(1).write_volatile(n as f64);
            for (k, x) in inp[..n].iter().enumerate() {
                q.add(2 + k).write_volatile(*x);
            }
        }
    }
}

/// Runs one call of the code under test: a panic becomes status 2, a call that does not return is reported by
/// the watchdog as status 3.
pub fn guarded<F: FnOnce() -> Vec<f64>>(op: u32, inp: &[f64], f: F) -> Vec<f64> {
    note(op, inp);
    *current().lock().unwrap() = Some((op, inp.to_vec(), Instant::now(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Some(c) = current().lock().unwrap().as_mut() {
        c.2 = Instant::now();
        c.3 = false;
    }
    match r {
        Ok(v) => v,
        Err(_) => vec![PANIC],
    }
}

/// is a judged call being made?
pub fn calling() -> bool {
    current().lock().map(|c| c.as_ref().is_some_and(|c| c.3)).unwrap_or(false)
}

pub fn watchdog(path: String, limit_s: u64) {
    share(&format!("{path}.last"));
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let g = current().lock().unwrap();
            if let Some((op, inp, t0, running)) = &*g {
                // (the generators also call the code under test: allow them more time)
                if t0.elapsed().as_secs() >= if *running { limit_s } else { 6 * limit_s } {
                    // The call never came back: this event alone is the trace.
                    let mut f = std::fs::File::create(&path).unwrap();
                    let ev = Event {
                        op: *op,
                        inp: inp.clone(),
                        out: vec![HANG],
                    };
                    write_event(&mut f, &ev);
                    writeln!(f, "C hang 1").unwrap();
                    f.flush().unwrap();
                    std::process::exit(0);
                }
            }
        }
    });
}

pub fn write_event(f: &mut impl Write, e: &Event) {
    let mut s = format!("E {}", e.op);
    for x in &e.inp {
        s.push_str(&format!(" {:?}", x));
    }
    s.push_str(" |");
    for x in &e.out {
        s.push_str(&format!(" {:?}", x));
    }
    writeln!(f, "{}", s).unwrap();
}

/// Keeps, per op, the `top` events with the highest priority plus a uniform reservoir of `keep` others.
pub struct Rec {
    top_n: usize,
    keep_n: usize,
    per_op: std::collections::BTreeMap<u32, Slot>,
    /// events in order (histories); never sampled
    pub seq: Vec<Event>,
    pub executed: u64,
    pub per_op_exec: std::collections::BTreeMap<u32, u64>,
    rng: Rng,
}
#[derive(Default)]
struct Slot {
    top: Vec<(f64, Event)>,
    res: Vec<Event>,
    seen: u64,
    floor: f64,
}
impl Rec {
    pub fn new(seed: u64) -> Self {
        Rec {
            top_n: 100,
            keep_n: 400,
            per_op: Default::default(),
            seq: vec![],
            executed: 0,
            per_op_exec: Default::default(),
            rng: Rng::new(seed ^ 0xabcdef),
        }
    }
    pub fn budget(&mut self, top: usize, keep: usize) {
        self.top_n = top;
        self.keep_n = keep;
    }
    /// `prio`: how suspicious the event looks (NaN counts as maximal). Only selects what the specification sees.
    pub fn push(&mut self, prio: f64, e: Event) {
        self.executed += 1;
        *self.per_op_exec.entry(e.op).or_default() += 1;
        let prio = if prio.is_nan() { f64::INFINITY } else { prio };
        let top_n = self.top_n;
        let slot = self.per_op.entry(e.op).or_default();
        slot.seen += 1;
        // reservoir
        if slot.res.len() < self.keep_n {
            slot.res.push(e.clone());
        } else {
            let j = self.rng.u64() % slot.seen;
            if (j as usize) < self.keep_n {
                slot.res[j as usize] = e.clone();
            }
        }
        if prio > 0. && top_n > 0 {
            if slot.top.len() < top_n {
                slot.top.push((prio, e));
            } else if prio > slot.floor {
                // replace the smallest
                let (i, _) = slot
                    .top
                    .iter()
                    .enumerate()
                    .min_by(|a, b| a.1.0.partial_cmp(&b.1.0).unwrap())
                    .unwrap();
                slot.top[i] = (prio, e);
                slot.floor = slot
                    .top
                    .iter()
                    .map(|t| t.0)
                    .fold(f64::INFINITY, f64::min);
            }
        }
    }
    /// events executed whose recording is decided later
    pub fn made(&mut self, n: usize) {
        self.executed += n as u64;
    }
    pub fn push_seq(&mut self, e: Event) {
        self.executed += 1;
        *self.per_op_exec.entry(e.op).or_default() += 1;
        self.seq.push(e);
    }
    /// start of a new history (the specification returns to its initial state)
    pub fn mark(&mut self) {
        self.seq.push(Event {
            op: 0,
            inp: vec![],
            out: vec![],
        });
    }
    pub fn write(&mut self, path: &str) {
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        for e in &self.seq {
            write_event(&mut f, e);
        }
        for (_, slot) in self.per_op.iter_mut() {
            slot.top.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            for (_, e) in &slot.top {
                write_event(&mut f, e);
            }
            for e in &slot.res {
                write_event(&mut f, e);
            }
        }
        writeln!(f, "C executed {}", self.executed).unwrap();
        for (op, n) in &self.per_op_exec {
            writeln!(f, "C op{} {}", op, n).unwrap();
        }
    }
}

/// One property's binding to the real code.
pub trait Prop {
    /// Executes operation `op` of the real code on `inp`; first output is the status.
    fn exec(&mut self, op: u32, inp: &[f64]) -> Vec<f64>;
    /// Drives `exec` over generated inputs / histories.
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec);
    fn call(&mut self, op: u32, inp: &[f64]) -> Event
    where
        Self: Sized,
    {
        let me: *mut Self = self;
        // exec is re-entered only after a caught panic, with plain-data state
        let out = guarded(op, inp, || unsafe { (*me).exec(op, inp) });
        Event {
            op,
            inp: inp.to_vec(),
            out,
        }
    }
}
