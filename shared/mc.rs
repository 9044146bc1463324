//! A small explicit-state / stateless model checker that drives the real code.
//!
//! Two engines share one notion of history (a list of choice numbers):
//!
//!  * `bfs`: breadth-first search over clonable states of the real data structures.
//!    Every edge executes the real operation on a real state and compares it with the
//!    reference model; states already seen (by a 128-bit fingerprint of the complete
//!    internal state plus the model) are not expanded again.  When the frontier runs
//!    empty the whole reachable space (within the element/marker bounds) was covered.
//!  * `dfs`: stateless search, for executions which cannot be cloned (the change
//!    propagating engine keeps its graph in thread-local state).  Every complete choice
//!    sequence is executed from a fresh engine.
//!
//! A history replays deterministically, so a violation's replay file is just the list of
//! its choices.
//!
//! Failures that are not ordinary return values (panics, hangs, stack overflows, memory
//! exhaustion) of the code under test are attributed to the history being executed: panics
//! are caught, a monitor thread watches for steps which do not end, and the parent process
//! replays in isolation what each worker thread was executing when the worker died.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt;
use std::fmt::Write as FmtWrite;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// A violated expectation.  `key` identifies it for the known-findings file.
#[derive(Clone, Debug)]
pub struct Bad {
	pub key: String,
	pub msg: String,
}
/// shortened for display
fn cut(s: &str, n: usize) -> String {
	let c: Vec<char> = s.chars().collect();
	if c.len() <= n { s.to_string() } else { format!("{} ... {} characters ... {}", c[..n / 2].iter().collect::<String>(), c.len() - n, c[c.len() - n / 2..].iter().collect::<String>()) }
}
pub fn bad<T>(key: &str, msg: String) -> Result<T, Bad> {
	Err(Bad { key: key.to_string(), msg: msg })
}
#[macro_export]
macro_rules! ensure {
	($key:expr, $cond:expr, $($arg:tt)*) => {
		if !$cond { return $crate::mc::bad($key, format!($($arg)*)); }
	};
}
#[macro_export]
macro_rules! same {
	($key:expr, $what:expr, $got:expr, $want:expr) => {{
		let (g, w) = (&$got, &$want);
		if g != w { return $crate::mc::bad($key, format!("{}: got {:?}, the model says {:?}", $what, g, w)); }
	}};
}
pub type Res<T> = Result<T, Bad>;

// ---------------------------------------------------------------- fingerprints

/// Hashes everything written to it, twice with different parameters.
pub struct Fp(u64, u64);
impl Fp {
	pub fn new() -> Self { Fp(0xcbf29ce484222325, 0x9e3779b97f4a7c15) }
	pub fn bytes(&mut self, b: &[u8]) {
		for &x in b {
			self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
			self.1 = (self.1.rotate_left(7) ^ (x as u64 + 0x51)).wrapping_mul(0xff51afd7ed558ccd);
		}
	}
	pub fn dbg<T: fmt::Debug>(&mut self, t: &T) -> &mut Self {
		let _ = write!(self, "{:?}|", t);
		self
	}
	pub fn end(&self) -> u128 {
		let mut a = self.0;
		a ^= a >> 32;
		a = a.wrapping_mul(0xd6e8feb86659fd93);
		a ^= a >> 29;
		((a as u128) << 64) | (self.1 ^ (self.1 >> 31)) as u128
	}
}
impl fmt::Write for Fp {
	fn write_str(&mut self, s: &str) -> fmt::Result {
		self.bytes(s.as_bytes());
		Ok(())
	}
}

// ---------------------------------------------------------------- panics

thread_local! {
	static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
	static SLOT: Cell<usize> = Cell::new(usize::max_value());
}
pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|info| {
		let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
			else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
			else { "panic".to_string() };
		let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
		let full = format!("{}{}", m, loc);
		let _ = PANIC_MSG.try_with(|p| {
			if let Ok(mut p) = p.try_borrow_mut() { if p.is_none() { *p = Some(full.clone()) } }
		});
		if std::env::var("MC_DEBUG").is_ok() { eprintln!("panic: {}", full); }
	}));
}
/// Run code that may panic; Err is the panic message.
pub fn no_panic<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
	let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = None);
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(t) => Ok(t),
		Err(_) => Err(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_string())),
	}
}
fn guarded<T, F: FnOnce() -> Res<T>>(f: F) -> Res<T> {
	match no_panic(f) {
		Ok(r) => r,
		Err(m) => bad("panic", format!("the code under test panicked: {}", m)),
	}
}

// ---------------------------------------------------------------- slots: what each thread is doing

const SLOT_BYTES: usize = 16384;
const SLOTS: usize = 64;
pub struct Slots { base: *mut u8 }
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
	pub fn map(path: Option<&str>) -> Slots {
		unsafe {
			let len = SLOT_BYTES * SLOTS;
			let p = match path {
				None => libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0),
				Some(path) => {
					let c = std::ffi::CString::new(path).unwrap();
					let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
					assert!(fd >= 0, "slot file");
					assert!(libc::ftruncate(fd, len as libc::off_t) == 0);
					libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0)
				}
			};
			assert!(p != libc::MAP_FAILED, "mmap");
			Slots { base: p as *mut u8 }
		}
	}
	fn at(&self, i: usize) -> *mut u64 { unsafe { self.base.add(i * SLOT_BYTES) as *mut u64 } }
	// layout: [0] start ms (0 = idle), [1] part, [2] number of choices, [3..] choices as u16
	fn begin(&self, i: usize, now_ms: u64, part: usize, h: &[u16], last: Option<u16>) {
		unsafe {
			let p = self.at(i);
			std::ptr::write_volatile(p, 0);
			std::ptr::write_volatile(p.add(1), part as u64);
			let c = p.add(3) as *mut u16;
			let max = (SLOT_BYTES - 32) / 2;
			let n = h.len().min(max);
			std::ptr::copy_nonoverlapping(h.as_ptr(), c, n);
			let mut total = n;
			if let Some(l) = last { if n < max { *c.add(n) = l; total += 1; } }
			std::ptr::write_volatile(p.add(2), total as u64);
			std::ptr::write_volatile(p, now_ms.max(1));
		}
	}
	fn grow(&self, i: usize, v: u16) {
		unsafe {
			let p = self.at(i);
			let n = *p.add(2) as usize;
			if n >= (SLOT_BYTES - 32) / 2 { return }
			*(p.add(3) as *mut u16).add(n) = v;
			std::ptr::write_volatile(p.add(2), n as u64 + 1);
		}
	}
	fn idle(&self, i: usize) { unsafe { std::ptr::write_volatile(self.at(i), 0) } }
	fn read(&self, i: usize) -> Option<(u64, usize, Vec<u16>)> {
		unsafe {
			let p = self.at(i);
			let t = std::ptr::read_volatile(p);
			if t == 0 { return None }
			let part = *p.add(1) as usize;
			let n = (*p.add(2) as usize).min((SLOT_BYTES - 32) / 2);
			let v = std::slice::from_raw_parts(p.add(3) as *const u16, n).to_vec();
			Some((t, part, v))
		}
	}
}

// ---------------------------------------------------------------- run context

#[derive(Clone, Debug)]
pub struct Violation { pub part: usize, pub choices: Vec<u16>, pub bad: Bad }

pub struct Ctx {
	pub start: Instant,
	pub deadline: Mutex<Instant>,
	pub threads: usize,
	pub slots: Slots,
	pub stop: AtomicBool,
	pub found: Mutex<Option<Violation>>,
	pub known: BTreeMap<String, String>, // key -> text
	pub known_seen: Mutex<BTreeMap<String, u64>>,
	pub step_limit_ms: u64,
}
impl Ctx {
	fn now_ms(&self) -> u64 { self.start.elapsed().as_millis() as u64 + 1 }
	fn report(&self, part: usize, choices: Vec<u16>, b: Bad) -> bool {
		// returns true when it is a new violation
		if self.known.contains_key(&b.key) {
			*self.known_seen.lock().unwrap().entry(b.key).or_insert(0) += 1;
			return false;
		}
		let mut f = self.found.lock().unwrap();
		let better = match *f { None => true, Some(ref o) => choices.len() < o.choices.len() };
		if better { *f = Some(Violation { part: part, choices: choices, bad: b }); }
		self.stop.store(true, Ordering::SeqCst);
		true
	}
	fn out_of_time(&self) -> bool { Instant::now() > *self.deadline.lock().unwrap() }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
	pub states: u64,
	pub transitions: u64,
	pub traces: u64,
	pub max_depth: u64,
	pub exhaustive: bool,
	pub note: String,
	pub samples: Vec<String>,
}

pub enum Explorer {
	Bfs(Box<dyn DynModel>),
	Dfs(Box<dyn Scenario>),
}
pub struct Part {
	pub name: String,
	pub budget_s: u64,
	pub explorer: Explorer,
}
pub fn bfs_part<M: Model + 'static>(name: &str, budget_s: u64, m: M) -> Part {
	Part { name: name.to_string(), budget_s: budget_s, explorer: Explorer::Bfs(Box::new(m)) }
}
pub fn dfs_part<S: Scenario + 'static>(name: &str, budget_s: u64, s: S) -> Part {
	Part { name: name.to_string(), budget_s: budget_s, explorer: Explorer::Dfs(Box::new(s)) }
}

// ---------------------------------------------------------------- BFS

pub trait Model: Sync + Send {
	type S: Clone;
	/// number of initial states
	fn inits(&self) -> usize;
	/// build (and check) an initial state
	fn init(&self, i: usize) -> Res<Self::S>;
	/// number of operations enabled in a state
	fn ops(&self, s: &Self::S) -> usize;
	/// execute operation `op` on the real object, checking everything that must hold of the
	/// result; `check` is false when an already checked prefix is being replayed
	fn step(&self, s: &mut Self::S, op: usize, check: bool) -> Res<()>;
	fn fingerprint(&self, s: &Self::S) -> u128;
	fn describe_init(&self, i: usize) -> String;
	fn describe(&self, s: &Self::S, op: usize) -> String;
	fn max_depth(&self) -> usize { usize::max_value() }
	/// called between replays, to reset engine state if the model uses any
	fn reset(&self) {}
}
pub trait DynModel: Sync + Send {
	fn run(&self, part: usize, ctx: &Ctx) -> Stats;
	fn replay(&self, choices: &[u16]) -> (Vec<String>, Res<()>);
}
impl<M: Model> DynModel for M {
	fn run(&self, part: usize, ctx: &Ctx) -> Stats { bfs(self, part, ctx) }
	fn replay(&self, choices: &[u16]) -> (Vec<String>, Res<()>) {
		let mut log = vec![];
		self.reset();
		if choices.is_empty() { return (log, Ok(())) }
		log.push(format!("start: {}", self.describe_init(choices[0] as usize)));
		let mut s = match guarded(|| self.init(choices[0] as usize)) { Ok(s) => s, Err(b) => return (log, Err(b)) };
		for &c in &choices[1..] {
			log.push(self.describe(&s, c as usize));
			match guarded(|| self.step(&mut s, c as usize, true)) { Ok(()) => {}, Err(b) => return (log, Err(b)) }
		}
		(log, Ok(()))
	}
}

fn bfs<M: Model>(m: &M, part: usize, ctx: &Ctx) -> Stats {
	const SHARDS: usize = 256;
	let seen: Vec<Mutex<HashSet<u128>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
	let add = |fp: u128| -> bool { seen[(fp as usize >> 3) % SHARDS].lock().unwrap().insert(fp) };
	let transitions = AtomicU64::new(0);
	let mut states = 0u64;
	let mut frontier: Vec<Box<[u16]>> = vec![];
	let mut st = Stats::default();
	let mut complete = true;
	// initial states
	{
		let cursor = AtomicUsize::new(0);
		let out: Mutex<Vec<Box<[u16]>>> = Mutex::new(vec![]);
		let timeout = AtomicBool::new(false);
		let n = m.inits();
		assert!(n < 65536, "MC-HARNESS: too many initial states");
		std::thread::scope(|sc| {
			for t in 0..ctx.threads.min(n) {
				let (cursor, out, add, transitions, timeout) = (&cursor, &out, &add, &transitions, &timeout);
				std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
					let mut mine: Vec<Box<[u16]>> = vec![];
					loop {
						let i = cursor.fetch_add(1, Ordering::Relaxed);
						if i >= n || ctx.stop.load(Ordering::Relaxed) { break }
						if i % 16 == 0 && ctx.out_of_time() { timeout.store(true, Ordering::Relaxed) }
						if timeout.load(Ordering::Relaxed) { break }
						ctx.slots.begin(t, ctx.now_ms(), part, &[], Some(i as u16));
						m.reset();
						transitions.fetch_add(1, Ordering::Relaxed);
						match guarded(|| { let s = m.init(i)?; Ok(m.fingerprint(&s)) }) {
							Ok(fp) => if add(fp) { mine.push(vec![i as u16].into_boxed_slice()); },
							Err(b) => { ctx.report(part, vec![i as u16], b); },
						}
						ctx.slots.idle(t);
					}
					out.lock().unwrap().append(&mut mine);
				}).unwrap();
			}
		});
		frontier = out.into_inner().unwrap();
		frontier.sort();
		states += frontier.len() as u64;
		if timeout.load(Ordering::SeqCst) { complete = false; frontier.clear(); }
		st.samples = frontier.iter().step_by((frontier.len() / 2).max(1)).take(2).map(|h| m.describe_init(h[0] as usize)).collect();
	}
	let mut depth = 0u64;
	while !frontier.is_empty() && !ctx.stop.load(Ordering::SeqCst) {
		if depth as usize >= m.max_depth() { break }
		let next: Mutex<Vec<Box<[u16]>>> = Mutex::new(vec![]);
		let cursor = AtomicUsize::new(0);
		let timeout = AtomicBool::new(false);
		let nfront = frontier.len();
		std::thread::scope(|sc| {
			for t in 0..ctx.threads {
				let (frontier, next, cursor, timeout, transitions, add) = (&frontier, &next, &cursor, &timeout, &transitions, &add);
				std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
					SLOT.with(|s| s.set(t));
					let mut mine: Vec<Box<[u16]>> = vec![];
					'outer: loop {
						let i = cursor.fetch_add(1, Ordering::Relaxed);
						if i >= nfront || ctx.stop.load(Ordering::Relaxed) { break }
						if i % 64 == 0 && ctx.out_of_time() { timeout.store(true, Ordering::Relaxed); }
						if timeout.load(Ordering::Relaxed) { break }
						let h = &frontier[i];
						ctx.slots.begin(t, ctx.now_ms(), part, h, None);
						m.reset();
						let s = match guarded(|| {
							let mut s = m.init(h[0] as usize)?;
							for &c in &h[1..] { m.step(&mut s, c as usize, false)?; }
							Ok(s)
						}) {
							Ok(s) => s,
							Err(b) => { ctx.report(part, h.to_vec(), b); continue 'outer }
						};
						let n = m.ops(&s);
						for op in 0..n {
							ctx.slots.begin(t, ctx.now_ms(), part, h, Some(op as u16));
							let mut s2 = s.clone();
							transitions.fetch_add(1, Ordering::Relaxed);
							match guarded(|| { m.step(&mut s2, op, true)?; Ok(m.fingerprint(&s2)) }) {
								Ok(fp) => if add(fp) {
									let mut v = Vec::with_capacity(h.len() + 1);
									v.extend_from_slice(h);
									v.push(op as u16);
									mine.push(v.into_boxed_slice());
								},
								Err(b) => {
									let mut v = h.to_vec();
									v.push(op as u16);
									// a panic may have damaged the shared prefix state only if the
									// structure is not persistent; a new violation stops the run anyway
									if ctx.report(part, v, b) { break 'outer }
								}
							}
						}
						ctx.slots.idle(t);
					}
					ctx.slots.idle(t);
					next.lock().unwrap().append(&mut mine);
				}).unwrap();
			}
		});
		if timeout.load(Ordering::SeqCst) { complete = false; states += next.lock().unwrap().len() as u64; break }
		frontier = next.into_inner().unwrap();
		states += frontier.len() as u64;
		if !frontier.is_empty() {
			depth += 1;
			st.samples = frontier.iter().step_by((frontier.len() / 2).max(1)).take(2).map(|h| {
				let (log, _) = m.replay(h);
				log.join("; ")
			}).collect();
		}
	}
	st.states = states;
	st.transitions = transitions.load(Ordering::SeqCst);
	st.traces = st.transitions;
	st.max_depth = depth;
	let bounded = m.max_depth() != usize::max_value();
	st.exhaustive = complete && !ctx.stop.load(Ordering::SeqCst);
	st.note = if !complete { format!("time budget reached: complete to depth {}", depth) }
		else if bounded && !frontier.is_empty() { format!("all histories to depth {}", depth) }
		else { format!("all reachable states (frontier empty after depth {})", depth) };
	st
}

// ---------------------------------------------------------------- DFS

/// Source of choices for one execution.
pub struct Chooser<'a> {
	prefix: &'a [u16],
	pos: usize,
	pub taken: Vec<u16>,
	arity: Vec<u16>,
	log: Option<Vec<String>>,
	fps: &'a mut HashSet<u64>,
	slot: Option<(&'a Slots, usize)>,
	steps: u64,
}
impl<'a> Chooser<'a> {
	/// pick one of `n` alternatives
	pub fn choose(&mut self, n: usize) -> usize {
		assert!(n > 0 && n < 65536, "MC-HARNESS: choose({})", n);
		let c = if self.pos < self.prefix.len() { self.prefix[self.pos] } else { 0 };
		assert!((c as usize) < n, "MC-HARNESS: choice {} of {} (not deterministic?)", c, n);
		self.taken.push(c);
		self.arity.push(n as u16);
		if self.pos >= self.prefix.len() { if let Some((s, i)) = self.slot { s.grow(i, c) } }
		self.pos += 1;
		c as usize
	}
	/// true while the execution is still repeating choices made by an earlier execution
	/// (everything up to here was checked then)
	pub fn replaying(&self) -> bool { self.pos < self.prefix.len() }
	pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
		self.steps += 1;
		if let Some(ref mut l) = self.log { l.push(f()); }
	}
	/// record a state for the count of distinct states
	pub fn state(&mut self, fp: u128) { self.fps.insert((fp >> 64) as u64 ^ fp as u64); }
}
pub trait Scenario: Sync + Send {
	fn run(&self, ch: &mut Chooser) -> Res<()>;
}

fn exec<S: Scenario + ?Sized>(s: &S, prefix: &[u16], fps: &mut HashSet<u64>, log: bool, slot: Option<(&Slots, usize)>) -> (Vec<u16>, Vec<u16>, Vec<String>, u64, Res<()>) {
	let mut ch = Chooser { prefix: prefix, pos: 0, taken: vec![], arity: vec![], log: if log { Some(vec![]) } else { None }, fps: fps, slot: slot, steps: 0 };
	let r = guarded(|| s.run(&mut ch));
	(ch.taken, ch.arity, ch.log.unwrap_or_default(), ch.steps, r)
}
pub fn replay_dfs(s: &dyn Scenario, choices: &[u16]) -> (Vec<String>, Res<()>) {
	let mut f = HashSet::new();
	let (_, _, log, _, r) = exec(s, choices, &mut f, true, None);
	(log, r)
}

struct Pool { q: VecDeque<Box<[u16]>>, busy: usize }

fn dfs(s: &dyn Scenario, part: usize, ctx: &Ctx) -> Stats {
	let pool = Mutex::new(Pool { q: { let mut v = VecDeque::new(); v.push_back(vec![].into_boxed_slice()); v }, busy: 0 });
	let cv = Condvar::new();
	let hungry = AtomicUsize::new(0);
	let runs = AtomicU64::new(0);
	let trans = AtomicU64::new(0);
	let maxd = AtomicU64::new(0);
	let timeout = AtomicBool::new(false);
	let all_fps: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
	let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
	std::thread::scope(|sc| {
		for t in 0..ctx.threads {
			let (pool, cv, hungry, runs, trans, maxd, timeout, all_fps, samples) = (&pool, &cv, &hungry, &runs, &trans, &maxd, &timeout, &all_fps, &samples);
			std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
				SLOT.with(|s| s.set(t));
				let mut fps = HashSet::new();
				let mut local: Vec<Box<[u16]>> = vec![];
				let mut have_job = false;
				let mut n = 0u64;
				loop {
					if ctx.stop.load(Ordering::Relaxed) || timeout.load(Ordering::Relaxed) { break }
					let job = match local.pop() {
						Some(j) => Some(j),
						None => {
							let mut p = pool.lock().unwrap();
							if have_job { p.busy -= 1; have_job = false; }
							hungry.fetch_add(1, Ordering::Relaxed);
							let r = loop {
								if ctx.stop.load(Ordering::Relaxed) || timeout.load(Ordering::Relaxed) { break None }
								if let Some(j) = p.q.pop_front() { p.busy += 1; have_job = true; break Some(j) }
								if p.busy == 0 { cv.notify_all(); break None }
								p = cv.wait_timeout(p, Duration::from_millis(5)).unwrap().0;
							};
							hungry.fetch_sub(1, Ordering::Relaxed);
							r
						}
					};
					let job = match job { Some(j) => j, None => break };
					ctx.slots.begin(t, ctx.now_ms(), part, &job, None);
					let (taken, arity, log, _, r) = exec(s, &job, &mut fps, n < 1 && t < 2, Some((&ctx.slots, t)));
					ctx.slots.idle(t);
					n += 1;
					runs.fetch_add(1, Ordering::Relaxed);
					trans.fetch_add((taken.len() - job.len() + if job.is_empty() { 0 } else { 1 }) as u64, Ordering::Relaxed);
					maxd.fetch_max(taken.len() as u64, Ordering::Relaxed);
					if !log.is_empty() { samples.lock().unwrap().push(log.join("; ")); }
					if let Err(b) = r {
						if b.msg.contains("MC-HARNESS") { panic!("{}", b.msg) }
						// a known finding ends this execution only: its siblings are still explored
						if ctx.report(part, taken.clone(), b) { break }
					}
					// all alternatives beyond the prefix become jobs; deepest last
					for i in job.len()..taken.len() {
						for c in 1..arity[i] {
							let mut v = Vec::with_capacity(i + 1);
							v.extend_from_slice(&taken[..i]);
							v.push(c);
							local.push(v.into_boxed_slice());
						}
					}
					if hungry.load(Ordering::Relaxed) > 0 && local.len() > 1 {
						// give away the shallowest half
						let k = local.len() / 2;
						let give: Vec<_> = local.drain(..k).collect();
						let mut p = pool.lock().unwrap();
						p.q.extend(give);
						cv.notify_all();
					}
					if n % 32 == 0 && ctx.out_of_time() { timeout.store(true, Ordering::Relaxed); cv.notify_all(); }
				}
				if have_job { pool.lock().unwrap().busy -= 1; }
				cv.notify_all();
				all_fps.lock().unwrap().extend(fps);
			}).unwrap();
		}
	});
	let complete = !timeout.load(Ordering::SeqCst) && !ctx.stop.load(Ordering::SeqCst);
	let nst = all_fps.lock().unwrap().len() as u64;
	let smp = samples.lock().unwrap().clone();
	Stats {
		states: nst,
		transitions: trans.load(Ordering::SeqCst),
		traces: runs.load(Ordering::SeqCst),
		max_depth: maxd.load(Ordering::SeqCst),
		exhaustive: complete,
		note: if complete { "all executions within the bounds".to_string() } else { "time budget reached".to_string() },
		samples: smp,
	}
}

// ---------------------------------------------------------------- driver

pub struct Check {
	pub id: &'static str,
	pub assumptions: Vec<&'static str>,
	pub parts: Vec<Part>,
}
fn esc(s: &str) -> String {
	let mut o = String::new();
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
			c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
			c => o.push(c),
		}
	}
	o
}

fn read_known(root: &str, id: &str) -> BTreeMap<String, String> {
	let mut m = BTreeMap::new();
	if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
		for l in t.lines() {
			// known: property=C01 key=<key> :: text
			if !l.starts_with("known: ") { continue }
			let mut pid = ""; let mut key = "";
			let (head, text) = match l.find(" :: ") { Some(i) => (&l[..i], &l[i + 4..]), None => (l, "") };
			for w in head.split_whitespace() {
				if w.starts_with("property=") { pid = &w[9..] }
				if w.starts_with("key=") { key = &w[4..] }
			}
			if pid == id && !key.is_empty() { m.insert(key.to_string(), text.to_string()); }
		}
	}
	m
}

pub fn replay_part(p: &Part, choices: &[u16]) -> (Vec<String>, Res<()>) {
	match p.explorer {
		Explorer::Bfs(ref m) => m.replay(choices),
		Explorer::Dfs(ref s) => replay_dfs(&**s, choices),
	}
}

fn write_replay(root: &str, id: &str, harness: &str, tier: &str, part: &Part, v: &Violation, log: &[String]) -> String {
	let dir = format!("{}/evidence/replays", root);
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{}/{}-{}.txt", dir, id, part.name.replace(|c: char| !c.is_alphanumeric(), "_"));
	let mut t = String::new();
	let _ = writeln!(t, "property {}\nharness {}\ntier {}\npart {}", id, harness, tier, part.name);
	let _ = writeln!(t, "choices {}", v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
	let _ = writeln!(t, "key {}", v.bad.key);
	let _ = writeln!(t, "# {}", v.bad.msg.replace("\n", " "));
	for (i, l) in log.iter().enumerate() { let _ = writeln!(t, "# {:3} {}", i, cut(&l.replace("\n", " "), 600)); }
	let _ = std::fs::write(&path, t);
	path
}

fn in_big_thread<T: Send, F: FnOnce() -> T + Send>(f: F) -> T {
	std::thread::scope(|sc| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, f).unwrap().join().expect("MC-HARNESS"))
}

/// Entry point shared by the harness binaries.
///   mc <ID> <tier>                 run a check (parent: supervises a worker)
///   mc --worker <ID> <tier>        the worker
///   mc --replay <file>             re-execute a recorded history
///   mc --one <ID> <tier> <part#> c c c ...   re-execute one history, quietly (isolation)
pub fn main(harness: &str, root: &str, mk: &dyn Fn(&str, &str) -> Option<Check>) -> i32 {
	let args: Vec<String> = std::env::args().collect();
	let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
	match a.get(1).cloned() {
		Some("--worker") => worker(harness, root, a[2], a[3], mk),
		Some("--replay") => {
			let t = match std::fs::read_to_string(a[2]) { Ok(t) => t, Err(e) => { eprintln!("{}", e); return 2 } };
			let (mut id, mut tier, mut part, mut choices) = (String::new(), "quick".to_string(), String::new(), vec![]);
			for l in t.lines() {
				let mut w = l.splitn(2, ' ');
				match (w.next(), w.next()) {
					(Some("property"), Some(x)) => id = x.to_string(),
					(Some("tier"), Some(x)) => tier = x.to_string(),
					(Some("part"), Some(x)) => part = x.to_string(),
					(Some("choices"), Some(x)) => choices = x.split_whitespace().map(|c| c.parse::<u16>().unwrap()).collect(),
					_ => {}
				}
			}
			quiet_panics();
			let ck = match mk(&id, &tier) { Some(c) => c, None => { eprintln!("unknown property"); return 2 } };
			let p = match ck.parts.iter().find(|p| p.name == part) { Some(p) => p, None => { eprintln!("unknown part"); return 2 } };
			// not via threads::scope results: Bad is Send
			let (log, r) = in_big_thread(|| replay_part(p, &choices));
			for l in log { println!("  {}", l) }
			match r {
				Ok(()) => { println!("held on this history"); 0 }
				Err(b) => { println!("[{}] {}", b.key, b.msg); println!("VIOLATION property={} replay={}", id, a[2]); 1 }
			}
		}
		Some("--one") => {
			quiet_panics();
			let ck = mk(a[2], a[3]).unwrap();
			let part: usize = a[4].parse().unwrap();
			let choices: Vec<u16> = a[5..].iter().map(|c| c.parse().unwrap()).collect();
			unsafe {
				let lim = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
				libc::setrlimit(libc::RLIMIT_AS, &lim);
			}
			let (_, r) = in_big_thread(|| replay_part(&ck.parts[part], &choices));
			match r { Ok(()) => 0, Err(b) => { println!("{}", b.key); println!("{}", b.msg); 1 } }
		}
		Some("--list") => {
			if let Some(ck) = mk(a[2], a.get(3).cloned().unwrap_or("quick")) { for p in &ck.parts { println!("{}", p.name) } }
			0
		}
		Some(id) => parent(harness, root, id, a.get(2).cloned().unwrap_or("quick"), mk),
		None => { eprintln!("usage"); 2 }
	}
}

fn parent(harness: &str, root: &str, id: &str, tier: &str, mk: &dyn Fn(&str, &str) -> Option<Check>) -> i32 {
	let exe = std::env::current_exe().unwrap();
	let slot_path = format!("{}/evidence/.slots-{}-{}", root, id, std::process::id());
	let _ = std::fs::create_dir_all(format!("{}/evidence", root));
	let slots = Slots::map(Some(&slot_path));
	let st = std::process::Command::new(&exe).arg("--worker").arg(id).arg(tier).env("MC_SLOTS", &slot_path).status();
	let _ = std::fs::remove_file(&slot_path);
	let st = match st { Ok(s) => s, Err(e) => { eprintln!("cannot start worker: {}", e); return 2 } };
	match st.code() {
		Some(c) if c == 0 || c == 1 => return c,
		Some(77) => { eprintln!("a step did not end in time; replaying it in isolation") }
		Some(c) => { eprintln!("worker failed with exit code {}", c); }
		None => { eprintln!("worker was killed by a signal: {:?}", st); }
	}
	// Something a thread executed killed or hung the worker: find out what, in isolation.
	quiet_panics();
	let ck = mk(id, tier).unwrap();
	let mut cands: Vec<(u64, usize, Vec<u16>)> = (0..SLOTS).filter_map(|i| slots.read(i)).collect();
	cands.sort();
	for (_, part, h) in cands {
		if part >= ck.parts.len() { continue }
		let mut c = std::process::Command::new(&exe);
		c.arg("--one").arg(id).arg(tier).arg(part.to_string());
		for x in &h { c.arg(x.to_string()); }
		let mut child = match c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn() { Ok(c) => c, Err(_) => continue };
		let t0 = Instant::now();
		let verdict = loop {
			match child.try_wait() {
				Ok(Some(s)) => break match s.code() {
					Some(0) => None,
					Some(1) => Some("violation".to_string()),
					Some(_) | None => Some(format!("executing this history kills the process ({})", s)),
				},
				Ok(None) => {}
				Err(_) => break None,
			}
			if t0.elapsed() > Duration::from_secs(60) {
				let _ = child.kill();
				let _ = child.wait();
				break Some("executing this history does not end (60 s)".to_string());
			}
			std::thread::sleep(Duration::from_millis(20));
		};
		if let Some(m) = verdict {
			let v = Violation { part: part, choices: h, bad: Bad { key: "crash".to_string(), msg: m } };
			let path = write_replay(root, id, harness, tier, &ck.parts[part], &v, &[]);
			println!("[{}] part {}: {}", v.bad.key, ck.parts[part].name, cut(&v.bad.msg, 4000));
			println!("VIOLATION property={} replay={}", id, path);
			write_evidence(root, id, tier, &ck, &[], 1, 0.0, "the code under test crashed or hung; see the replay file");
			return 1;
		}
	}
	eprintln!("the failure could not be reproduced from a recorded history: treating it as an error of the check");
	2
}

fn write_evidence(root: &str, id: &str, tier: &str, ck: &Check, parts: &[(String, Stats)], violations: usize, wall: f64, note: &str) {
	let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
	let mut states = 0; let mut trans = 0; let mut traces = 0; let mut ex = !parts.is_empty();
	let mut samples = vec![];
	let mut pj = vec![];
	for &(ref n, ref s) in parts {
		states += s.states; trans += s.transitions; traces += s.traces; ex = ex && s.exhaustive;
		for x in s.samples.iter().take(2) { samples.push(format!("\"{}: {}\"", esc(n), esc(&x.chars().take(700).collect::<String>()))); }
		pj.push(format!("{{\"part\":\"{}\",\"states\":{},\"transitions\":{},\"executions\":{},\"max_depth\":{},\"exhaustive_within_bounds\":{},\"note\":\"{}\"}}",
			esc(n), s.states, s.transitions, s.traces, s.max_depth, s.exhaustive, esc(&s.note)));
	}
	let t = format!("{{\n\"property\":\"{}\",\n\"tier\":\"{}\",\n\"seed\":{},\n\"level\":\"model_checking\",\n\"coverage\":{{\n \"states\":{},\n \"transitions\":{},\n \"traces_validated_against_impl\":{},\n \"exhaustive\":{},\n \"how\":\"{}\",\n \"parts\":[\n  {}\n ],\n \"samples\":[\n  {}\n ]\n}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n",
		id, tier, seed, states, trans, traces, ex,
		esc(&format!("every transition executes the real code and is compared with the reference model; traces = executions of the implementation compared step by step with the model. {}", note)),
		pj.join(",\n  "), samples.join(",\n  "),
		ck.assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect::<Vec<_>>().join(","), wall, violations);
	let path = format!("{}/evidence/{}.json", root, id);
	if let Ok(mut f) = std::fs::File::create(&path) { let _ = f.write_all(t.as_bytes()); }
}

fn worker(harness: &str, root: &str, id: &str, tier: &str, mk: &dyn Fn(&str, &str) -> Option<Check>) -> i32 {
	quiet_panics();
	let ck = match mk(id, tier) { Some(c) => c, None => { eprintln!("no check for {}", id); return 2 } };
	unsafe {
		let g: u64 = 24 << 30;
		let lim = libc::rlimit { rlim_cur: g as libc::rlim_t, rlim_max: g as libc::rlim_t };
		libc::setrlimit(libc::RLIMIT_AS, &lim);
	}
	let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
	let only = std::env::var("MC_PART").ok();
	let start = Instant::now();
	let ctx = Ctx {
		start: start,
		deadline: Mutex::new(start + Duration::from_secs(3600)),
		threads: threads,
		slots: Slots::map(std::env::var("MC_SLOTS").ok().as_ref().map(|s| s.as_str())),
		stop: AtomicBool::new(false),
		found: Mutex::new(None),
		known: read_known(root, id),
		known_seen: Mutex::new(BTreeMap::new()),
		step_limit_ms: 30_000,
	};
	let done = AtomicBool::new(false);
	let mut results: Vec<(String, Stats)> = vec![];
	std::thread::scope(|sc| {
		let (ctx_ref, done_ref) = (&ctx, &done);
		sc.spawn(move || {
			// monitor: a step that takes longer than the limit is a hang
			while !done_ref.load(Ordering::Relaxed) {
				std::thread::sleep(Duration::from_millis(50));
				let now = ctx_ref.now_ms();
				for i in 0..SLOTS {
					if let Some((t, _, _)) = ctx_ref.slots.read(i) {
						if now > t + ctx_ref.step_limit_ms { std::process::exit(77) }
					}
				}
			}
		});
		for (i, p) in ck.parts.iter().enumerate() {
			if let Some(ref o) = only { if !p.name.contains(o.as_str()) { continue } }
			if ctx.stop.load(Ordering::SeqCst) { break }
			// MC_BUDGET: shorter budgets, for measuring coverage
			let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).map_or(p.budget_s, |b: u64| b.min(p.budget_s));
			*ctx.deadline.lock().unwrap() = Instant::now() + Duration::from_secs(budget);
			let t0 = Instant::now();
			let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match p.explorer {
				Explorer::Bfs(ref m) => m.run(i, &ctx),
				Explorer::Dfs(ref s) => dfs(&**s, i, &ctx),
			}));
			// the explorer itself failed: no answer, rather than waiting for the monitor for ever
			let s = match run { Ok(s) => s, Err(_) => { eprintln!("{} {}: the explorer failed", id, p.name); std::process::exit(2) } };
			println!("{} {}: states {} transitions {} executions {} depth {} {:.1}s {}", id, p.name, s.states, s.transitions, s.traces, s.max_depth, t0.elapsed().as_secs_f32(), s.note);
			results.push((p.name.clone(), s));
		}
		done.store(true, Ordering::Relaxed);
	});
	let wall = start.elapsed().as_secs_f64();
	for (k, n) in ctx.known_seen.lock().unwrap().iter() {
		println!("KNOWN-FINDING: property={} {} [{} ({} occurrences)]", id, ctx.known[k], k, n);
	}
	let found = ctx.found.lock().unwrap().clone();
	match found {
		None => { write_evidence(root, id, tier, &ck, &results, 0, wall, ""); 0 }
		Some(v) => {
			let p = &ck.parts[v.part];
			let (log, r) = in_big_thread(|| replay_part(p, &v.choices));
			if r.is_ok() { println!("note: the replay of this history in a fresh engine did not fail"); }
			let path = write_replay(root, id, harness, tier, p, &v, &log);
			println!("[{}] part {}: {}", v.bad.key, p.name, cut(&v.bad.msg, 4000));
			for (i, l) in log.iter().enumerate() { println!("  {:3} {}", i, cut(l, 600)); }
			println!("VIOLATION property={} replay={}", id, path);
			write_evidence(root, id, tier, &ck, &results, 1, wall, "a violation was found; see the replay file");
			1
		}
	}
}
