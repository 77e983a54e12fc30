//! Exploration, minimisation and replay of runs. Every run is a process of its own, forked from
//! the same pristine state, so that it is a function of its decisions alone.
use crate::choice::{hash_bytes, mix, Ch, SEG};
use crate::ctx::*;
use crate::seam;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub type Scenario = fn(&mut Ctx) -> Run;

pub struct Property {
	pub id: &'static str,
	pub run: Scenario,
	/// library steps one run may take
	pub step_limit: u64,
	pub cpu_s: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
	Held,
	Violated { class: String, detail: String },
	Harness(String),
}

pub fn map_shared<T>() -> *mut T {
	map_bytes(std::mem::size_of::<T>()) as *mut T
}

pub fn map_bytes(n: usize) -> *mut u8 {
	unsafe {
		let p = libc::mmap(
			std::ptr::null_mut(),
			n.max(8),
			libc::PROT_READ | libc::PROT_WRITE,
			libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
			-1,
			0,
		);
		assert!(p != libc::MAP_FAILED, "out of memory");
		p as *mut u8
	}
}

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
	mix(hash_bytes(mix(seed), prop.as_bytes()) ^ mix(run))
}

static mut CURRENT: *mut Shared = std::ptr::null_mut();

fn over_step_limit() {
	unsafe {
		let sh = &mut *CURRENT;
		sh.class.set("hang");
		sh.detail.set("a call into the library did not come to an end within the step limit");
		sh.outcome = 2;
		libc::_exit(0);
	}
}

fn standstill() {
	unsafe {
		let sh = &mut *CURRENT;
		sh.class.set("waits");
		sh.detail.set("a decode waits for something that does not come: nothing else is running");
		sh.outcome = 2;
		libc::_exit(0);
	}
}

/// The library ends the process: all right if it was refused memory
extern "C" fn aborted(_: i32) {
	unsafe {
		if seam::starved() {
			let sh = &mut *CURRENT;
			sh.counters[K::f_alloc as usize] += seam::allocations_failed();
			sh.counters[K::starved as usize] += 1;
			sh.digest = mix(seam::DIGEST_SO_FAR);
			sh.nontrivial = 1;
			sh.outcome = 1;
			if let Some(d) = (*std::ptr::addr_of_mut!(seam::TIDY_UP)).take() {
				let _ = std::fs::remove_dir_all(d);
			}
			libc::_exit(0);
		}
		libc::signal(libc::SIGABRT, libc::SIG_DFL);
	}
}

/// Real time a run may take, in seconds
static REAL_LIMIT: AtomicU64 = AtomicU64::new(180);

/// Run one scenario in this process and leave the verdict in shared memory
fn child(p: &Property, ch: Ch, sh: *mut Shared, tracing: bool) {
	unsafe {
		CURRENT = sh;
		seam::STEP_LIMIT = p.step_limit;
		seam::ON_STEP_LIMIT = over_step_limit;
		seam::ON_STANDSTILL = standstill;
		let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
		libc::setrlimit(libc::RLIMIT_AS, &lim);
		libc::signal(libc::SIGABRT, aborted as extern "C" fn(i32) as usize);
		let no_core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
		libc::setrlimit(libc::RLIMIT_CORE, &no_core);
		// ITIMER_PROF and ITIMER_REAL
		for (which, s) in [(2, p.cpu_s), (0, REAL_LIMIT.load(SeqCst))] {
			let t = [0i64, 0, s as i64, 0];
			seam::sys(libc::SYS_setitimer, which, t.as_ptr() as usize, 0, 0, 0, 0);
		}
	}
	seam::ENV_ON.store(true, SeqCst);
	let mut ctx = Ctx::new(ch, sh, tracing);
	// the world around the library: clock, environment, randomness, disk
	for _ in 0..ctx.ch.pick(&[0, 2, 4, 8]) {
		crate::sim_threads::vary(&mut ctx);
	}
	ctx.ch.segment();
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut ctx)));
	ctx.add(K::clock_reads, seam::CLOCK_READS.load(SeqCst));
	ctx.add(K::random_reads, seam::RANDOM_READS.load(SeqCst));
	ctx.add(K::env_reads, seam::ENV_READS.load(SeqCst) + seam::DISK_OPENS.load(SeqCst));
	seam::ENV_ON.store(false, SeqCst);
	let sh = unsafe { &mut *sh };
	sh.sim_ns += ctx.now;
	sh.digest = ctx.digest();
	sh.nontrivial = ctx.nontrivial as u64;
	unsafe {
		sh.edges = seam::EDGE_COUNT as u64;
		for i in 1..(seam::EDGE_COUNT as usize + 1).min(seam::EDGES) {
			if seam::COV[i] != 0 {
				sh.cov[i] = 1;
			}
		}
	}
	match r {
		Ok(Ok(())) => sh.outcome = 1,
		Ok(Err(f)) => {
			sh.class.set(&f.class);
			sh.detail.set(&f.detail);
			sh.digest = mix(hash_bytes(sh.digest, f.detail.as_bytes()));
			sh.outcome = if f.harness { 3 } else { 2 };
		}
		Err(_) => {
			sh.class.set("harness");
			sh.detail.set(&format!("the harness panicked: {}", last_panic()));
			sh.outcome = 3;
		}
	}
	if sh.rec.overflow != 0 && sh.outcome == 1 {
		sh.detail.set("too many decisions in one run");
		sh.outcome = 3;
	}
}

/// Fork a run and wait for its verdict
pub fn execute(p: &Property, ch: Ch, sh: *mut Shared, tracing: bool) -> Outcome {
	unsafe {
		(*sh).outcome = 0;
		(*sh).trace.len = 0;
		(*sh).nontrivial = 0;
		let pid = libc::fork();
		if pid < 0 {
			return Outcome::Harness("cannot fork".into());
		}
		if pid == 0 {
			child(p, ch, sh, tracing);
			libc::_exit(0);
		}
		let mut st = 0;
		while libc::waitpid(pid, &mut st, 0) < 0 {}
		let sh = &mut *sh;
		match sh.outcome {
			1 => Outcome::Held,
			2 => Outcome::Violated { class: sh.class.get(), detail: sh.detail.get() },
			3 => Outcome::Harness(sh.detail.get()),
			_ if libc::WIFSIGNALED(st) => {
				let s = libc::WTERMSIG(st);
				let (class, detail) = match s {
					libc::SIGPROF => ("hang", "the run used up its processor time".to_string()),
					libc::SIGALRM => ("hang", "the run stood still".to_string()),
					libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP => {
						return Outcome::Harness(format!("run ended from outside by signal {s}"))
					}
					_ => ("crash", format!("the process was ended by signal {s}")),
				};
				Outcome::Violated { class: class.into(), detail }
			}
			_ => {
				let s = libc::WEXITSTATUS(st);
				Outcome::Violated { class: "crash".into(), detail: format!("the process ended itself with status {s}") }
			}
		}
	}
}

pub fn choices(sh: *mut Shared) -> Vec<u64> {
	unsafe { (&(*sh).rec.data)[..(*sh).rec.len as usize].to_vec() }
}

pub struct Explored {
	pub runs: u64,
	pub nontrivial: u64,
	pub distinct: u64,
	pub distinct_nontrivial: u64,
	pub sim_ns: u64,
	pub steps: u64,
	pub states: u64,
	pub edges_hit: u64,
	pub edges: u64,
	pub counters: Vec<u64>,
	pub wall: f64,
	pub cut_short: bool,
	pub samples: Vec<String>,
	pub found: Option<Found>,
	pub harness: Option<String>,
	pub digest: u64,
}

pub struct Found {
	pub run: u64,
	pub class: String,
	pub detail: String,
	pub choices: Vec<u64>,
}

struct LaneResult {
	done: AtomicU64,
	/// 1 violation, 2 harness error
	what: AtomicU64,
	at: AtomicU64,
}

pub fn explore(p: &Property, seed: u64, from: u64, to: u64, lanes: u64, wall: f64) -> Explored {
	let t0 = Instant::now();
	let stop_at: *mut AtomicU64 = map_shared();
	unsafe { (*stop_at).store(u64::MAX, SeqCst) };
	let per_lane = ((to - from) / lanes + 2) as usize;
	let mut lane_mem = Vec::new();
	let mut pids = Vec::new();
	for w in 0..lanes {
		let sh: *mut Shared = map_shared();
		let res: *mut LaneResult = map_shared();
		let digests = map_bytes(per_lane * 16) as *mut u64;
		lane_mem.push((sh, res, digests));
		let pid = unsafe { libc::fork() };
		assert!(pid >= 0);
		if pid == 0 {
			unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
			lane(p, seed, from, to, lanes, w, t0, wall, sh, res, digests, stop_at);
			unsafe { libc::_exit(0) };
		}
		pids.push(pid);
	}
	for pid in pids {
		let mut st = 0;
		while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
	}
	let mut e = Explored {
		runs: 0,
		nontrivial: 0,
		distinct: 0,
		distinct_nontrivial: 0,
		sim_ns: 0,
		steps: 0,
		states: 0,
		edges_hit: 0,
		edges: 0,
		counters: vec![0; NC],
		wall: t0.elapsed().as_secs_f64(),
		cut_short: false,
		samples: vec![],
		found: None,
		harness: None,
		digest: 0,
	};
	let mut all = Vec::new();
	let mut states = vec![0u64; STATE_BITS / 64];
	let mut cov = vec![0u8; seam::EDGES];
	let mut best: Option<(u64, u64, usize)> = None;
	for (i, (sh, res, digests)) in lane_mem.iter().enumerate() {
		let (sh, res) = unsafe { (&**sh, &**res) };
		e.runs += sh.runs;
		e.nontrivial += sh.nontrivial_runs;
		e.sim_ns += sh.sim_ns;
		e.steps += sh.steps;
		e.edges = e.edges.max(sh.edges);
		for (a, b) in e.counters.iter_mut().zip(&sh.counters) {
			*a += b;
		}
		for (a, b) in states.iter_mut().zip(&sh.states) {
			*a |= b;
		}
		for (a, b) in cov.iter_mut().zip(&sh.cov) {
			*a |= b;
		}
		for k in 0..res.done.load(SeqCst) as usize {
			unsafe { all.push((*digests.add(2 * k), *digests.add(2 * k + 1))) };
		}
		let what = res.what.load(SeqCst);
		if what != 0 {
			let at = res.at.load(SeqCst);
			if best.is_none_or(|b| at < b.0) {
				best = Some((at, what, i));
			}
		} else if sh.runs < (to - from).saturating_sub(i as u64).div_ceil(lanes) {
			e.cut_short = true;
		}
	}
	e.states = states.iter().map(|x| x.count_ones() as u64).sum();
	e.edges_hit = cov.iter().map(|x| *x as u64).sum();
	all.sort_unstable();
	for a in &all {
		e.digest = e.digest.wrapping_add(mix(a.0));
	}
	all.dedup();
	e.distinct = all.len() as u64;
	e.distinct_nontrivial = all.iter().filter(|a| a.1 == 1).count() as u64;
	// a few runs again, with their event logs
	if best.is_none() {
		let sh: *mut Shared = map_shared();
		for i in from..(from + 3).min(to) {
			let ch = Ch::generate(run_seed(seed, p.id, i), unsafe { &mut (*sh).rec });
			execute(p, ch, sh, true);
			let t = unsafe { (*sh).trace.get() };
			let t: String = t.chars().take(1800).collect();
			e.samples.push(format!("run {i}:\n{t}"));
		}
	}
	if let Some((at, what, i)) = best {
		let sh = lane_mem[i].0;
		let s = unsafe { &*sh };
		if what == 2 {
			e.harness = Some(format!("run {at}: {}", s.detail.get()));
		} else {
			e.found =
				Some(Found { run: at, class: s.class.get(), detail: s.detail.get(), choices: choices(sh) });
		}
	}
	e
}

#[allow(clippy::too_many_arguments)]
fn lane(
	p: &Property,
	seed: u64,
	from: u64,
	to: u64,
	lanes: u64,
	w: u64,
	t0: Instant,
	wall: f64,
	sh: *mut Shared,
	res: *mut LaneResult,
	digests: *mut u64,
	stop_at: *mut AtomicU64,
) {
	let (s, res, stop_at) = unsafe { (&mut *sh, &*res, &*stop_at) };
	let mut i = from + w;
	while i < to {
		if i > stop_at.load(SeqCst) || t0.elapsed() > Duration::from_secs_f64(wall) {
			return;
		}
		let ch = Ch::generate(run_seed(seed, p.id, i), &mut s.rec);
		let o = execute(p, ch, sh, false);
		s.runs += 1;
		s.nontrivial_runs += s.nontrivial;
		let k = res.done.load(SeqCst) as usize;
		unsafe {
			*digests.add(2 * k) = s.digest;
			*digests.add(2 * k + 1) = s.nontrivial;
		}
		res.done.store(k as u64 + 1, SeqCst);
		match o {
			Outcome::Held => {}
			Outcome::Violated { class, detail } => {
				s.class.set(&class);
				s.detail.set(&detail);
				res.at.store(i, SeqCst);
				res.what.store(1, SeqCst);
				stop_at.fetch_min(i, SeqCst);
				return;
			}
			Outcome::Harness(d) => {
				s.detail.set(&d);
				res.at.store(i, SeqCst);
				res.what.store(2, SeqCst);
				stop_at.fetch_min(i, SeqCst);
				return;
			}
		}
		i += lanes;
	}
}

/// The smallest sequence of decisions found that still breaks the property in the same way
pub fn minimise(p: &Property, start: &[u64], class: &str, budget: Duration) -> (Vec<u64>, u64) {
	let sh: *mut Shared = map_shared();
	let t0 = Instant::now();
	// a candidate that stands still must not use up all the time there is
	REAL_LIMIT.store(if class == "hang" { 60 } else { 20 }, SeqCst);
	let mut tries = 0u64;
	let mut best = start.to_vec();
	let test = |cand: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
		*tries += 1;
		let ch = Ch::replay(cand.to_vec(), unsafe { &mut (*sh).rec });
		match execute(p, ch, sh, false) {
			Outcome::Violated { class: c, .. } if c == class => Some(trim(choices(sh))),
			_ => None,
		}
	};
	let ok = |tries: u64| tries < 6000 && t0.elapsed() < budget;
	if let Some(b) = test(&best, &mut tries) {
		best = shorter(b, best);
	}
	loop {
		let before = best.clone();
		// whole segments, many at a time first
		let mut n = segments(&best).len() / 2;
		while n >= 1 && ok(tries) {
			let mut at = 0;
			while at < segments(&best).len() && ok(tries) {
				let segs = segments(&best);
				if at == 0 && n >= segs.len() {
					break;
				}
				let mut cand = Vec::new();
				for (i, s) in segs.iter().enumerate() {
					if i < at || i >= at + n {
						cand.extend_from_slice(s);
					}
				}
				match test(&cand, &mut tries) {
					Some(b) if smaller(&b, &best) => best = b,
					_ => at += n,
				}
			}
			n /= 2;
		}
		// runs of decisions to their simplest
		let mut n = (best.len() / 2).clamp(1, 64);
		while n >= 1 && ok(tries) {
			let mut at = 0;
			while at < best.len() && ok(tries) {
				let hi = (at + n).min(best.len());
				if best[at..hi].iter().any(|v| *v != 0 && *v != SEG) {
					let mut cand = best.clone();
					for v in &mut cand[at..hi] {
						if *v != SEG {
							*v = 0;
						}
					}
					match test(&cand, &mut tries) {
						Some(b) if smaller(&b, &best) => best = b,
						_ => at += n,
					}
				} else {
					at += n;
				}
			}
			n /= 2;
		}
		// single decisions
		let mut at = 0;
		while at < best.len() && ok(tries) {
			let v = best[at];
			if v != SEG && v > 0 {
				let mut done = false;
				for cand_v in [v / 2, v - 1] {
					let mut cand = best.clone();
					cand[at] = cand_v;
					if let Some(b) = test(&cand, &mut tries) {
						if smaller(&b, &best) {
							best = b;
							done = true;
							break;
						}
					}
				}
				if done {
					continue;
				}
				// without it altogether
				let mut cand = best.clone();
				cand.remove(at);
				if let Some(b) = test(&cand, &mut tries) {
					if smaller(&b, &best) {
						best = b;
						continue;
					}
				}
			}
			at += 1;
		}
		if best == before || !ok(tries) {
			break;
		}
	}
	(best, tries)
}

fn trim(mut v: Vec<u64>) -> Vec<u64> {
	while v.last().is_some_and(|x| *x == 0 || *x == SEG) {
		v.pop();
	}
	v
}

fn shorter(a: Vec<u64>, b: Vec<u64>) -> Vec<u64> {
	if smaller(&a, &b) {
		a
	} else {
		b
	}
}

fn weight(v: &[u64]) -> (usize, u128) {
	(v.len(), v.iter().filter(|x| **x != SEG).map(|x| *x as u128).sum())
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
	weight(a) < weight(b)
}

/// each starts at a mark, except the first
fn segments(v: &[u64]) -> Vec<&[u64]> {
	let mut out = Vec::new();
	let mut start = 0;
	for i in 1..v.len() {
		if v[i] == SEG {
			out.push(&v[start..i]);
			start = i;
		}
	}
	out.push(&v[start..]);
	out
}

pub fn write_choices(v: &[u64]) -> String {
	let mut s = String::new();
	for (i, x) in v.iter().enumerate() {
		if *x == SEG {
			s.push_str(if i == 0 { "|" } else { "\n|" });
		} else {
			s.push(' ');
			s.push_str(&x.to_string());
		}
	}
	s
}

pub fn read_choices(s: &str) -> Option<Vec<u64>> {
	s.replace('|', " | ")
		.split_ascii_whitespace()
		.map(|t| if t == "|" { Some(SEG) } else { t.parse().ok() })
		.collect()
}
