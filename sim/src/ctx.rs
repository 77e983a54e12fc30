//! One simulated run: its decisions, clock, event log, counters and verdict.
use crate::choice::{hash_bytes, mix, Ch, Rec};
use crate::seam;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! counters {
	($($id:ident = $name:literal),* $(,)?) => {
		#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
		#[derive(Clone, Copy)]
		pub enum K { $($id),* }
		pub const NAMES: &[&str] = &[$($name),*];
	};
}

counters! {
	telegrams = "telegrams sent",
	decodes = "library calls",
	accepted = "telegrams accepted",
	rejected = "rejections",
	incomplete = "answers: more bytes needed",
	checked = "results compared",
	records = "records compared",
	legal = "legal contents",
	illegal = "illegal contents",
	marked = "contents to be marked",
	f_flip = "fault: bits flipped",
	f_alter = "fault: byte altered",
	f_lose = "fault: bytes lost",
	f_repeat = "fault: bytes repeated",
	f_insert = "fault: bytes inserted",
	f_cut = "fault: cut off",
	f_swap = "fault: bytes swapped",
	f_balance = "fault: checksum preserving alteration",
	f_field = "fault: link field forged",
	f_burst = "fault: burst",
	f_collide = "fault: collision",
	f_noise = "fault: noise",
	f_drop = "fault: telegram lost",
	f_dup = "fault: telegram repeated",
	f_delay = "fault: telegram delayed",
	f_echo = "fault: echo of own request",
	f_stall = "fault: stall inside a telegram",
	f_dead = "fault: line dead inside a telegram",
	f_memory = "fault: meter memory corrupted",
	f_counting = "fault: register run through a value",
	f_steered = "fault: register driven to a value the decoder compares with",
	deeper = "steered contents that reached something new",
	f_crash = "fault: meter crash and restart",
	f_master = "fault: master restart",
	f_split = "fault: split delivery",
	f_preempt = "fault: preemption inside a decode",
	f_freeze = "fault: thread stopped for good inside a decode",
	f_abandon = "fault: decode abandoned",
	f_clock = "fault: clock jump",
	f_short = "fault: short read",
	f_eintr = "fault: interrupted call",
	f_eio = "fault: read error",
	f_open = "fault: open error",
	f_torn = "fault: file torn",
	f_char = "fault: file characters damaged",
	f_wshort = "fault: short write",
	f_werr = "fault: write error",
	f_kill = "fault: tool killed",
	f_alloc = "fault: allocation failed",
	starved = "processes that ended for want of memory",
	f_skew = "fault: environment varied",
	clock_reads = "clock reads seen",
	random_reads = "random reads seen",
	env_reads = "environment reads seen",
	lock_waits = "lock waits seen",
	switches = "thread switches",
	collisions_pass = "probe: damage that satisfies all link rules",
	readouts = "readouts completed",
	readout_parts = "readout telegrams assembled",
	gave_up = "readouts given up",
	retries = "requests repeated",
	tainted = "exchanges left out of judgement",
	resyncs = "bytes dropped to resynchronise",
	timeouts = "pauses that ended an unfinished telegram",
	deferred = "probe: telegram after noise decoded",
	big = "probe: payloads over 1000 bytes",
	files_ok = "files loaded",
	files_err = "files refused",
	tool_runs = "tool processes run",
	tool_ok = "tool ended successfully",
	tool_fail = "tool ended unsuccessfully",
	kept = "decodes that kept memory",
	skipped = "cases left out of judgement",
}
pub const NC: usize = NAMES.len();

#[repr(C)]
pub struct Text<const N: usize> {
	pub len: u64,
	pub b: [u8; N],
}
impl<const N: usize> Text<N> {
	pub fn set(&mut self, s: &str) {
		let n = s.len().min(N);
		self.b[..n].copy_from_slice(&s.as_bytes()[..n]);
		self.len = n as u64;
	}
	pub fn push(&mut self, s: &str) {
		let at = self.len as usize;
		let n = s.len().min(N - at);
		self.b[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
		self.len += n as u64;
	}
	pub fn get(&self) -> String {
		String::from_utf8_lossy(&self.b[..self.len as usize]).into_owned()
	}
}

pub const STATE_BITS: usize = 1 << 20;

/// Memory shared between a run (a process of its own), its lane and the engine
#[repr(C)]
pub struct Shared {
	pub rec: Rec,
	pub counters: [u64; NC],
	pub states: [u64; STATE_BITS / 64],
	pub cov: [u8; seam::EDGES],
	pub edges: u64,
	pub sim_ns: u64,
	pub steps: u64,
	/// 0 running, 1 held, 2 violated, 3 harness error
	pub outcome: u64,
	pub digest: u64,
	pub nontrivial: u64,
	pub runs: u64,
	pub nontrivial_runs: u64,
	pub class: Text<128>,
	pub detail: Text<16384>,
	pub trace: Text<{ 1 << 20 }>,
}

#[derive(Debug, Clone)]
pub struct Fail {
	pub class: String,
	pub detail: String,
	/// the harness is at fault, not the library
	pub harness: bool,
}

pub fn fail<T>(class: &str, detail: impl Into<String>) -> Result<T, Fail> {
	Err(Fail { class: class.into(), detail: detail.into(), harness: false })
}

pub fn broken<T>(detail: impl Into<String>) -> Result<T, Fail> {
	Err(Fail { class: "harness".into(), detail: detail.into(), harness: true })
}

pub type Run = Result<(), Fail>;

pub struct Ctx {
	pub ch: Ch,
	pub sh: *mut Shared,
	pub tracing: bool,
	pub now: u64,
	pub seq: u64,
	digest: u64,
	pub nontrivial: bool,
}

thread_local! {
	static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|i| {
		let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = i.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			String::from("(panic)")
		};
		let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
	}));
}

pub fn last_panic() -> String {
	PANIC.with(|p| p.borrow().clone())
}

/// Call into the library; the message if it panicked
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	let r = catch_unwind(AssertUnwindSafe(|| seam::inside(f)));
	seam::outside();
	r.map_err(|_| last_panic())
}

impl Ctx {
	pub fn new(ch: Ch, sh: *mut Shared, tracing: bool) -> Ctx {
		Ctx { ch, sh, tracing, now: 0, seq: 0, digest: 0, nontrivial: false }
	}
	pub fn shared(&mut self) -> &mut Shared {
		unsafe { &mut *self.sh }
	}
	pub fn count(&mut self, k: K) {
		self.shared().counters[k as usize] += 1;
	}
	pub fn add(&mut self, k: K, n: u64) {
		self.shared().counters[k as usize] += n;
	}
	/// a fault that really fired
	pub fn fault(&mut self, k: K) {
		self.count(k);
		self.mix(k as u64 + 1000);
	}
	pub fn mix(&mut self, v: u64) {
		self.digest = mix(self.digest ^ v);
	}
	pub fn mix_bytes(&mut self, b: &[u8]) {
		self.digest = hash_bytes(self.digest, b);
	}
	pub fn digest(&self) -> u64 {
		self.digest
	}
	/// an abstract state that was reached
	pub fn state(&mut self, v: u64) {
		let h = mix(v) as usize % STATE_BITS;
		self.shared().states[h / 64] |= 1 << (h % 64);
	}
	/// one line of the event log; formatted only when somebody will read it
	pub fn note(&mut self, f: impl FnOnce() -> String) {
		self.seq += 1;
		if self.tracing {
			let line = format!("[{} t={}us] {}\n", self.seq, self.now / 1000, f());
			self.shared().trace.push(&line);
		}
	}
	/// Call into the library; a panic is a violation
	pub fn lib<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
		self.count(K::decodes);
		self.begin();
		let r = call(f);
		self.end();
		match r {
			Ok(v) => Ok(v),
			Err(m) => fail("panic", format!("{what} panicked: {m}")),
		}
	}
	/// the same, but the caller decides what a panic means
	pub fn lib_or_panic<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
		self.count(K::decodes);
		self.begin();
		let r = call(f);
		self.end();
		r
	}
	fn begin(&mut self) {
		unsafe {
			seam::STEPS = 0;
		}
		seam::library(true);
	}
	fn end(&mut self) {
		seam::library(false);
		unsafe {
			let s = seam::STEPS;
			self.shared().steps += s;
		}
	}
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::new();
	for (i, x) in b.iter().enumerate() {
		if i > 0 {
			s.push(' ');
		}
		if i == 600 {
			s += &format!("... ({} bytes)", b.len());
			break;
		}
		s += &format!("{x:02X}");
	}
	s
}
