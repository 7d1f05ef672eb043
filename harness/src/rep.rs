//! Run infrastructure: cases, panics, crashes, hangs, counters, the result file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Rep {
	/// executions of the code under test that were judged
	pub evaluations: u64,
	distinct: HashSet<u64>,
	distinct_done: u64,
	/// explored model states / transitions / complete traces compared with the implementation
	pub states: u64,
	pub transitions: u64,
	pub traces: u64,
	pub samples: Vec<String>,
	pub violations: BTreeMap<String, Vec<String>>,
	pub violation_count: u64,
	pub extra: BTreeMap<String, u64>,
	per_task_samples: usize,
	task: String,
}

thread_local! {
	static CUR: RefCell<(String, Vec<u8>)> = const { RefCell::new((String::new(), Vec::new())) };
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
	static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
const SLOTS: usize = 64;
/// start time (ms since program start, +1) of the case each worker is in; 0 = idle
static STARTED: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static CURS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn tier() -> u8 {
	static T: std::sync::OnceLock<u8> = std::sync::OnceLock::new();
	*T.get_or_init(|| match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => 1,
		_ => 0,
	})
}
pub fn thorough() -> bool {
	tier() == 1
}
/// Value-domain level of the tier.
pub fn top() -> u8 {
	2 + tier()
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::new();
	let cut = b.len().min(96);
	for x in &b[..cut] {
		s.push_str(&format!("{x:02x}"));
	}
	if cut < b.len() {
		s.push_str(&format!("..({} bytes)", b.len()));
	}
	s
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
	use std::hash::{DefaultHasher, Hasher};
	let mut h = DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

impl Rep {
	/// Count one judged execution; `id` identifies it among distinct non-trivial ones.
	pub fn count(&mut self, id: u64) {
		self.evaluations += 1;
		self.distinct.insert(id);
	}
	/// Count `n` judged executions that are distinct by construction.
	pub fn bulk(&mut self, n: u64) {
		self.evaluations += n;
		self.distinct_done += n;
	}
	pub fn add(&mut self, k: &str, n: u64) {
		*self.extra.entry(k.to_string()).or_default() += n;
	}
	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.per_task_samples < 1 && self.samples.len() < 4 {
			self.per_task_samples += 1;
			let s = f();
			self.samples.push(s);
		}
	}
	pub fn fail(&mut self, key: &str, desc: String) {
		self.violation_count += 1;
		let e = self.violations.entry(format!("{} {}", self.task, key)).or_default();
		if e.len() < 3 {
			e.push(desc);
		}
	}
	/// Run one guarded call into the crate under test. A panic is reported as `Err`.
	pub fn guard<T>(&mut self, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
		set_case(what, &[]);
		let r = catch_unwind(AssertUnwindSafe(f));
		end_case();
		r.map_err(|_| LAST_PANIC.with(|p| format!("panicked: {}", p.borrow())))
	}
	/// As `guard`, for a call on input bytes.
	pub fn on<T>(&mut self, bytes: &[u8], f: impl FnOnce() -> T) -> Result<T, String> {
		set_case(String::new, bytes);
		let r = catch_unwind(AssertUnwindSafe(f));
		end_case();
		r.map_err(|_| LAST_PANIC.with(|p| format!("panicked: {}", p.borrow())))
	}
	pub fn merge(&mut self, o: Rep) {
		self.evaluations += o.evaluations;
		self.distinct_done += o.distinct_done + o.distinct.len() as u64;
		self.states += o.states;
		self.transitions += o.transitions;
		self.traces += o.traces;
		self.samples.extend(o.samples);
		self.violation_count += o.violation_count;
		for (k, v) in o.violations {
			self.violations.entry(k).or_default().extend(v)
		}
		for (k, v) in o.extra {
			*self.extra.entry(k).or_default() += v
		}
	}
}

fn now_ms() -> u64 {
	static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
	T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn set_case(what: impl FnOnce() -> String, bytes: &[u8]) {
	let slot = SLOT.get();
	CUR.with(|c| {
		let mut c = c.borrow_mut();
		c.0 = what();
		c.1.clear();
		c.1.extend_from_slice(&bytes[..bytes.len().min(64)]);
	});
	if slot < SLOTS {
		STARTED[slot].store(now_ms(), Ordering::Relaxed);
	}
}
fn end_case() {
	let slot = SLOT.get();
	if slot < SLOTS {
		STARTED[slot].store(0, Ordering::Relaxed);
	}
}

extern "C" fn on_crash(sig: libc::c_int) {
	// Faults of the code under test are synchronous: this runs on the faulting thread.
	let mut buf = [0u8; 4096];
	let mut n = 0;
	let mut put = |b: &[u8]| {
		let k = b.len().min(buf.len() - n);
		buf[n..n + k].copy_from_slice(&b[..k]);
		n += k;
	};
	put(b"CRASH signal ");
	put(&[b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8]);
	put(b" in: ");
	let slot = SLOT.get();
	if let Ok(c) = CURS.try_lock() {
		if let Some(n) = c.get(slot) {
			put(n.as_bytes());
			put(b" ");
		}
	}
	CUR.try_with(|c| {
		if let Ok(c) = c.try_borrow() {
			put(c.0.as_bytes());
			put(b" bytes ");
			for b in &c.1 {
				put(&[b"0123456789abcdef"[(b >> 4) as usize], b"0123456789abcdef"[(b & 15) as usize]])
			}
		}
	})
	.ok();
	put(b"\n");
	unsafe {
		libc::write(1, buf.as_ptr().cast(), n);
		libc::_exit(3)
	}
}

/// Per-case time limit: cases take microseconds to milliseconds.
const HANG_MS: u64 = 60_000;

pub type Task = (String, Box<dyn Fn(&mut Rep) + Send + Sync>);

/// Run all tasks on all cores and write the result file.
pub fn run(prop: &str, tasks: Vec<Task>) {
	let out = std::env::args().nth(1).expect("usage: <bin> OUT.json");
	now_ms();
	unsafe {
		for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
			let mut a: libc::sigaction = std::mem::zeroed();
			a.sa_sigaction = on_crash as *const () as usize;
			a.sa_flags = libc::SA_ONSTACK;
			libc::sigaction(s, &a, std::ptr::null_mut());
		}
	}
	std::panic::set_hook(Box::new(|i| {
		let m = i
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
	}));
	let threads: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
	*CURS.lock().unwrap() = vec![String::new(); threads];
	let next = AtomicUsize::new(0);
	let total = Mutex::new(Rep::default());
	let done = std::sync::atomic::AtomicBool::new(false);
	let broken = Mutex::new(Vec::<String>::new());
	std::thread::scope(|sc| {
		let mut hs = vec![];
		for slot in 0..threads {
			let (next, total, tasks, broken) = (&next, &total, &tasks, &broken);
			hs.push(std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
				SLOT.set(slot);
				loop {
					let i = next.fetch_add(1, Ordering::Relaxed);
					let Some((name, f)) = tasks.get(i) else {
						break;
					};
					CURS.lock().unwrap()[slot] = name.clone();
					let mut rep = Rep {
						task: name.clone(),
						..Rep::default()
					};
					let t0 = Instant::now();
					if catch_unwind(AssertUnwindSafe(|| f(&mut rep))).is_err() {
						let m = LAST_PANIC.with(|p| p.borrow().clone());
						broken.lock().unwrap().push(format!("{name}: harness panicked outside a guarded call: {m}"));
					}
					if std::env::var("MC_TIMES").is_ok() {
						eprintln!("{:8.3}s {} evals {}", t0.elapsed().as_secs_f64(), rep.evaluations, name);
					}
					total.lock().unwrap().merge(rep);
				}
			}).unwrap());
		}
		let done = &done;
		sc.spawn(move || {
			while !done.load(Ordering::Relaxed) {
				std::thread::sleep(Duration::from_millis(200));
				let n = now_ms();
				for (i, s) in STARTED.iter().enumerate() {
					let t = s.load(Ordering::Relaxed);
					if t != 0 && n.saturating_sub(t) > HANG_MS {
						let name = CURS.lock().unwrap()[i].clone();
						println!("HANG one call ran for over {} s in: {name}", HANG_MS / 1000);
						unsafe { libc::_exit(4) }
					}
				}
			}
		});
		for h in hs {
			h.join().unwrap();
		}
		done.store(true, Ordering::Relaxed);
	});
	let r = total.into_inner().unwrap();
	let broken = broken.into_inner().unwrap();
	let q = |s: &str| {
		let mut o = String::from("\"");
		for c in s.chars() {
			match c {
				'"' => o.push_str("\\\""),
				'\\' => o.push_str("\\\\"),
				c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
				c => o.push(c),
			}
		}
		o.push('"');
		o
	};
	let list = |v: &[String]| format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","));
	let viol = r.violations.iter().map(|(k, v)| format!("{}:{}", q(k), list(v))).collect::<Vec<_>>().join(",");
	let extra = r.extra.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",");
	let j = format!(
		"{{\"property\":{},\"config\":{},\"tasks\":{},\"evaluations\":{},\"distinct\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"samples\":{},\"violation_count\":{},\"violations\":{{{}}},\"extra\":{{{}}},\"broken\":{}}}",
		q(prop),
		q(crate::wire::config_name()),
		tasks.len(),
		r.evaluations,
		r.distinct_done,
		r.states,
		r.transitions,
		r.traces,
		list(&r.samples),
		r.violation_count,
		viol,
		extra,
		list(&broken)
	);
	std::fs::write(&out, j).unwrap();
}
