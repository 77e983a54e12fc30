//! Everything the library could observe or be interrupted by, under the simulator's control.
//!
//! The functions below replace the C library's (and the allocator) for the whole process by being
//! linked first; unless switched on they pass straight through to the kernel.
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed};

#[inline]
pub unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
	let r: isize;
	asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
		in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
	r
}

unsafe fn ret(r: isize) -> isize {
	if r < 0 && r > -4096 {
		*libc::__errno_location() = -r as i32;
		-1
	} else {
		r
	}
}

// ---------------------------------------------------------------------------------------------
// memory

pub struct Alloc;

pub static MEASURE: AtomicBool = AtomicBool::new(false);
pub static MEM_CUR: AtomicI64 = AtomicI64::new(0);
pub static MEM_PEAK: AtomicI64 = AtomicI64::new(0);
pub static MEM_TOTAL: AtomicI64 = AtomicI64::new(0);
pub static MEM_COUNT: AtomicI64 = AtomicI64::new(0);
pub static MEM_LARGEST: AtomicI64 = AtomicI64::new(0);

fn grew(n: usize) {
	let n = n as i64;
	MEM_TOTAL.fetch_add(n, Relaxed);
	MEM_COUNT.fetch_add(1, Relaxed);
	if n > MEM_LARGEST.load(Relaxed) {
		MEM_LARGEST.store(n, Relaxed);
	}
	let cur = MEM_CUR.fetch_add(n, Relaxed) + n;
	if cur > MEM_PEAK.load(Relaxed) {
		MEM_PEAK.store(cur, Relaxed);
	}
}

// allocations that fail
pub static SCARCE: AtomicBool = AtomicBool::new(false);
static mut SCARCE_MIN: usize = 0;
static mut SCARCE_FROM: u64 = 0;
static mut SCARCE_COUNT: u64 = 0;
static mut REFUSED: u64 = 0;
/// What the run amounts to if the library ends the process because of it
pub static mut DIGEST_SO_FAR: u64 = 0;
/// a directory to remove in that case
pub static mut TIDY_UP: Option<std::path::PathBuf> = None;

/// Of the library's allocations of at least `min` bytes, `count` fail after the first `from`
pub fn fail_allocations(min: usize, from: u64, count: u64, digest: u64) {
	unsafe {
		// the standard library reports it before it ends the process
		let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
		if null >= 0 {
			libc::dup2(null, 2);
			libc::close(null);
		}
		(SCARCE_MIN, SCARCE_FROM, SCARCE_COUNT, REFUSED, DIGEST_SO_FAR) = (min, from, count, 0, digest);
	}
	SCARCE.store(true, Relaxed);
}

/// No more failing allocations; how many there were
pub fn allocations_failed() -> u64 {
	SCARCE.store(false, Relaxed);
	unsafe { std::mem::take(&mut REFUSED) }
}

/// The library was refused memory and has not returned yet
pub fn starved() -> bool {
	SCARCE.load(Relaxed) && unsafe { REFUSED } > 0
}

#[inline]
fn no_memory(n: usize) -> bool {
	SCARCE.load(Relaxed) && refuse(n)
}

fn refuse(n: usize) -> bool {
	unsafe {
		if n < SCARCE_MIN || !INSIDE.try_with(|i| i.get()).unwrap_or(false) || SCARCE_COUNT == 0 {
			return false;
		}
		if SCARCE_FROM > 0 {
			SCARCE_FROM -= 1;
			return false;
		}
		SCARCE_COUNT -= 1;
		REFUSED += 1;
		true
	}
}

unsafe impl GlobalAlloc for Alloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		point();
		if no_memory(l.size()) {
			return std::ptr::null_mut();
		}
		if MEASURE.load(Relaxed) {
			grew(l.size());
		}
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		point();
		if no_memory(l.size()) {
			return std::ptr::null_mut();
		}
		if MEASURE.load(Relaxed) {
			grew(l.size());
		}
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		point();
		if MEASURE.load(Relaxed) {
			MEM_CUR.fetch_sub(l.size() as i64, Relaxed);
		}
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		point();
		if no_memory(n) {
			return std::ptr::null_mut();
		}
		if MEASURE.load(Relaxed) {
			MEM_CUR.fetch_sub(l.size() as i64, Relaxed);
			grew(n);
		}
		System.realloc(p, l, n)
	}
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Mem {
	pub peak: i64,
	pub total: i64,
	pub count: i64,
	pub largest: i64,
	pub kept: i64,
}

/// Memory use of `f`. `kept` counts what is still held once its result was given to `g` and dropped.
pub fn measure<T>(f: impl FnOnce() -> T, g: impl FnOnce(&T)) -> Mem {
	MEM_CUR.store(0, Relaxed);
	MEM_PEAK.store(0, Relaxed);
	MEM_TOTAL.store(0, Relaxed);
	MEM_COUNT.store(0, Relaxed);
	MEM_LARGEST.store(0, Relaxed);
	MEASURE.store(true, Relaxed);
	let v = f();
	MEASURE.store(false, Relaxed);
	let mut m = Mem {
		peak: MEM_PEAK.load(Relaxed),
		total: MEM_TOTAL.load(Relaxed),
		count: MEM_COUNT.load(Relaxed),
		largest: MEM_LARGEST.load(Relaxed),
		kept: 0,
	};
	g(&v);
	MEASURE.store(true, Relaxed);
	drop(v);
	MEASURE.store(false, Relaxed);
	m.kept = MEM_CUR.load(Relaxed);
	m
}

// ---------------------------------------------------------------------------------------------
// control flow edges of the library: step counting, coverage, preemption

pub const EDGES: usize = 1 << 16;
pub static mut COV: [u8; EDGES] = [0; EDGES];
pub static mut EDGE_COUNT: u32 = 0;
pub static mut STEPS: u64 = 0;
pub static mut STEP_LIMIT: u64 = u64::MAX;
pub static mut ON_STEP_LIMIT: fn() = || {};

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
	let mut p = start;
	while p < stop {
		if *p == 0 {
			EDGE_COUNT += 1;
			*p = EDGE_COUNT.min(EDGES as u32 - 1);
		}
		p = p.add(1);
	}
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
	let edge = *guard as usize;
	COV[edge] = 1;
	LAST_EDGE = edge as u32;
	if COMPARING {
		passed(edge);
	}
	STEPS += 1;
	if STEPS > STEP_LIMIT {
		STEP_LIMIT = u64::MAX;
		ON_STEP_LIMIT();
	}
	point();
}

// what the library compares with what

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cmp {
	/// the edge after which it was compared
	pub site: u32,
	pub have: u64,
	pub want: u64,
	pub size: u8,
}

/// comparisons are wanted, and the library is running
static mut WATCHING: bool = false;
static mut COMPARING: bool = false;
static mut LAST_EDGE: u32 = 0;
/// the edges passed, and how often
static mut PASSED: Fixed<u32, 4096> = Fixed { n: 0, v: [0; 4096] };
static mut TIMES: [u16; EDGES] = [0; EDGES];
const NO_CMP: Cmp = Cmp { site: 0, have: 0, want: 0, size: 0 };
static mut CMPS: Fixed<Cmp, 4096> = Fixed { n: 0, v: [NO_CMP; 4096] };
/// (site, what was looked for) of comparisons that found what they looked for
static mut MET: Fixed<(u32, u64), 4096> = Fixed { n: 0, v: [(0, 0); 4096] };
/// what has been noted already
static mut NOTED: [u32; 8192] = [0; 8192];

/// Two strings of bytes that were compared
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Strings {
	pub site: u32,
	pub n: usize,
	pub a: [u8; 16],
	pub b: [u8; 16],
}
const NO_STRINGS: Strings = Strings { site: 0, n: 0, a: [0; 16], b: [0; 16] };
static mut STRINGS: Fixed<Strings, 256> = Fixed { n: 0, v: [NO_STRINGS; 256] };

/// What was seen of the library while comparisons were watched
#[derive(Default)]
pub struct Seen {
	/// comparisons that found a difference
	pub cmps: Vec<Cmp>,
	pub strings: Vec<Strings>,
	/// and none
	pub met: Vec<(u32, u64)>,
	/// the edges passed and how often
	pub edges: Vec<(u32, u16)>,
}

struct Fixed<T, const N: usize> {
	n: usize,
	v: [T; N],
}
impl<T: Copy, const N: usize> Fixed<T, N> {
	fn push(&mut self, t: T) {
		if self.n < N {
			self.v[self.n] = t;
			self.n += 1;
		}
	}
}

pub fn record_comparisons() {
	unsafe {
		NOTED.fill(0);
		CMPS.n = 0;
		MET.n = 0;
		STRINGS.n = 0;
		WATCHING = true;
	}
}

/// The library starts or ends running
#[inline]
pub fn library(runs: bool) {
	unsafe {
		COMPARING = WATCHING && runs;
	}
}

pub fn comparisons() -> Seen {
	unsafe {
		WATCHING = false;
		COMPARING = false;
		let mut edges = Vec::with_capacity(PASSED.n);
		for e in &PASSED.v[..PASSED.n] {
			edges.push((*e, TIMES[*e as usize]));
			TIMES[*e as usize] = 0;
		}
		PASSED.n = 0;
		Seen {
			cmps: CMPS.v[..CMPS.n].to_vec(),
			strings: STRINGS.v[..STRINGS.n].to_vec(),
			met: MET.v[..MET.n].to_vec(),
			edges,
		}
	}
}

unsafe fn passed(edge: usize) {
	if TIMES[edge] == 0 {
		PASSED.push(edge as u32);
	}
	TIMES[edge] = TIMES[edge].saturating_add(1);
}

#[inline]
unsafe fn compared(want: u64, have: u64, size: u8, constant: bool) {
	if COMPARING {
		noted(want, have, size, constant);
	}
}

/// Whether this is to be noted for the first time
unsafe fn first_time(h: u64) -> bool {
	let slot = h as usize % NOTED.len();
	let tag = (h >> 32) as u32 | 1;
	let new = NOTED[slot] != tag;
	NOTED[slot] = tag;
	new
}

#[inline(never)]
unsafe fn noted(want: u64, have: u64, size: u8, constant: bool) {
	// (addresses are not the same everywhere)
	let address = |v: u64| (0x5000_0000_0000..0x8000_0000_0000).contains(&v);
	if address(want) || address(have) {
		return;
	}
	if first_time(crate::choice::mix(want ^ have.rotate_left(20) ^ (LAST_EDGE as u64) << 40)) {
		if want == have {
			if constant {
				MET.push((LAST_EDGE, want));
			}
		} else {
			CMPS.push(Cmp { site: LAST_EDGE, have, want, size });
		}
	}
}

extern "C" {
	fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
	fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}

/// (the linker puts these in the place of the C library's)
#[no_mangle]
pub unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
	let r = __real_bcmp(a, b, n);
	if COMPARING && n > 0 && n <= 16 {
		strings(a, b, n, r);
	}
	r
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
	let r = __real_memcmp(a, b, n);
	if COMPARING && n > 0 && n <= 16 {
		strings(a, b, n, r);
	}
	r
}

#[inline(never)]
unsafe fn strings(a: *const u8, b: *const u8, n: usize, r: i32) {
	let mut s = Strings { site: LAST_EDGE, n, ..NO_STRINGS };
	// (not with a copy loop that compares in turn)
	std::ptr::copy_nonoverlapping(a, s.a.as_mut_ptr(), n);
	std::ptr::copy_nonoverlapping(b, s.b.as_mut_ptr(), n);
	let (x, y) = (u128::from_le_bytes(s.a), u128::from_le_bytes(s.b));
	let fold = |v: u128| crate::choice::mix(v as u64 ^ ((v >> 64) as u64).rotate_left(7));
	if first_time(crate::choice::mix(fold(x) ^ fold(y).rotate_left(20) ^ (LAST_EDGE as u64) << 40)) {
		if r == 0 {
			MET.push((LAST_EDGE, fold(x)));
		} else {
			STRINGS.push(s);
		}
	}
}

macro_rules! comparison {
	($($var:ident $constant:ident $t:ty, $n:literal;)*) => {$(
		#[no_mangle]
		pub unsafe extern "C" fn $var(a: $t, b: $t) {
			compared(a as u64, b as u64, $n, false);
			compared(b as u64, a as u64, $n, false);
		}
		#[no_mangle]
		pub unsafe extern "C" fn $constant(want: $t, have: $t) {
			compared(want as u64, have as u64, $n, true);
		}
	)*};
}
comparison! {
	__sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, 1;
	__sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16, 2;
	__sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, 4;
	__sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64, 8;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(have: u64, cases: *const u64) {
	if COMPARING {
		let n = *cases as usize;
		let size = (*cases.add(1) / 8).clamp(1, 8) as u8;
		for i in 0..n.min(80) {
			compared(*cases.add(2 + i), have, size, true);
		}
	}
}

// ---------------------------------------------------------------------------------------------
// threads: at most one runs at any time; the scheduler decides which and for how long

pub static THREADS_ON: AtomicBool = AtomicBool::new(false);

thread_local! {
	/// 0: not a simulated thread, else its number + 1
	static ME: Cell<usize> = const { Cell::new(0) };
	/// the thread is inside the library
	static INSIDE: Cell<bool> = const { Cell::new(false) };
}

pub const MAX_THREADS: usize = 40;
static BATON: [AtomicU32; MAX_THREADS + 1] = [const { AtomicU32::new(0) }; MAX_THREADS + 1];
/// how many more steps the running thread has
static mut QUANTUM: u64 = 0;
static mut WHY: Why = Why::Preempted;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Why {
	Preempted,
	/// wanted to wait for another thread
	Blocked,
	/// wanted to let time pass
	Slept,
	Done,
}

fn wait_baton(i: usize) {
	while BATON[i].swap(0, std::sync::atomic::Ordering::Acquire) == 0 {
		unsafe {
			sys(libc::SYS_futex, BATON[i].as_ptr() as usize, (libc::FUTEX_WAIT | 128) as usize, 0, 0, 0, 0);
		}
	}
}

fn give_baton(i: usize) {
	BATON[i].store(1, std::sync::atomic::Ordering::Release);
	unsafe {
		sys(libc::SYS_futex, BATON[i].as_ptr() as usize, (libc::FUTEX_WAKE | 128) as usize, 1, 0, 0, 0);
	}
}

/// A place where the running thread may lose the processor
#[inline]
pub fn point() {
	if THREADS_ON.load(Relaxed) {
		point_slow();
	}
}

fn point_slow() {
	let me = ME.with(|m| m.get());
	if me == 0 || !INSIDE.with(|i| i.get()) {
		return;
	}
	unsafe {
		if QUANTUM > 1 {
			QUANTUM -= 1;
			return;
		}
	}
	yield_now(me, Why::Preempted);
}

fn yield_now(me: usize, why: Why) {
	unsafe { WHY = why };
	give_baton(0);
	wait_baton(me);
}

/// Scheduler side: let thread `i` run for `steps` steps at most
pub fn run_thread(i: usize, steps: u64) -> Why {
	unsafe { QUANTUM = steps };
	give_baton(i + 1);
	wait_baton(0);
	unsafe { WHY }
}

/// Thread side: first call of a simulated thread, waits to be scheduled
pub fn enter_thread(i: usize) {
	ME.with(|m| m.set(i + 1));
	wait_baton(i + 1);
}

/// Thread side: give the processor back for good
pub fn leave_thread() {
	ME.with(|m| m.set(0));
	unsafe { WHY = Why::Done };
	give_baton(0);
}

/// Run library code: from here on the thread can be preempted and sees simulated time
pub fn inside<T>(f: impl FnOnce() -> T) -> T {
	INSIDE.with(|i| i.set(true));
	let r = f();
	INSIDE.with(|i| i.set(false));
	r
}

/// For panics that unwind out of `inside`
pub fn outside() {
	INSIDE.with(|i| i.set(false));
}

/// Threads the simulator started and that have not ended
pub static SIM_THREADS: AtomicU32 = AtomicU32::new(0);
/// What happens when the only running thread waits for another one
pub static mut ON_STANDSTILL: fn() = || {};

/// Has the library started threads of its own?
pub fn foreign_threads() -> bool {
	let was = INSIDE.with(|i| i.replace(false));
	let n = std::fs::read_dir("/proc/self/task").map_or(1, |d| d.count());
	INSIDE.with(|i| i.set(was));
	n > 1 + SIM_THREADS.load(Relaxed) as usize
}

fn sim_thread() -> usize {
	if THREADS_ON.load(Relaxed) && INSIDE.with(|i| i.get()) {
		ME.with(|m| m.get())
	} else {
		0
	}
}

/// Inside the library, whether or not threads are simulated
fn in_library() -> bool {
	ENV_ON.load(Relaxed) && INSIDE.try_with(|i| i.get()).unwrap_or(false)
}

// ---------------------------------------------------------------------------------------------
// clock, randomness, environment

pub static ENV_ON: AtomicBool = AtomicBool::new(false);
pub static NOW_NS: AtomicU64 = AtomicU64::new(0);
/// the clock moves on by this much with every look at it
pub static TICK_NS: AtomicU64 = AtomicU64::new(0);
pub static RANDOM: AtomicU64 = AtomicU64::new(0);
/// what unknown environment variables contain: 0 nothing, 1 "1", 2 "0", 3 junk
pub static ENV_STYLE: AtomicU32 = AtomicU32::new(0);
/// what files the library opens uncalled for contain: 0 not there, 1 "1", 2 nothing
pub static DISK_STYLE: AtomicU32 = AtomicU32::new(0);
pub static DISK_OPENS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_READS: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
pub static LOCK_WAITS: AtomicU64 = AtomicU64::new(0);

fn sim_now() -> u64 {
	CLOCK_READS.fetch_add(1, Relaxed);
	let t = TICK_NS.load(Relaxed);
	NOW_NS.fetch_add(t, Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
	if in_library() {
		let n = sim_now();
		(*ts).tv_sec = (n / 1_000_000_000) as i64;
		(*ts).tv_nsec = (n % 1_000_000_000) as i64;
		return 0;
	}
	ret(sys(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut libc::c_void) -> i32 {
	if in_library() {
		let n = sim_now();
		(*tv).tv_sec = (n / 1_000_000_000) as i64;
		(*tv).tv_usec = (n % 1_000_000_000 / 1000) as i64;
		return 0;
	}
	ret(sys(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
	let t = if in_library() {
		(sim_now() / 1_000_000_000) as i64
	} else {
		sys(libc::SYS_time, 0, 0, 0, 0, 0, 0) as i64
	};
	if !out.is_null() {
		*out = t;
	}
	t
}

unsafe fn fill_random(buf: *mut u8, n: usize) {
	RANDOM_READS.fetch_add(1, Relaxed);
	let mut s = RANDOM.load(Relaxed);
	for i in 0..n {
		s = crate::choice::mix(s);
		*buf.add(i) = s as u8;
	}
	RANDOM.store(s, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
	if in_library() {
		fill_random(buf, n);
		return n as isize;
	}
	ret(sys(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0))
}

extern "C" {
	static environ: *const *const libc::c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
	let name = std::ffi::CStr::from_ptr(name).to_bytes();
	if in_library() && !name.starts_with(b"RUST_") {
		ENV_READS.fetch_add(1, Relaxed);
		return match ENV_STYLE.load(Relaxed) {
			0 => std::ptr::null(),
			1 => c"1".as_ptr(),
			2 => c"0".as_ptr(),
			_ => c"de_DE.UTF-8".as_ptr(),
		};
	}
	let mut p = environ;
	while !p.is_null() && !(*p).is_null() {
		let e = std::ffi::CStr::from_ptr(*p).to_bytes();
		if e.len() > name.len() && e.starts_with(name) && e[name.len()] == b'=' {
			return (*p).add(name.len() + 1);
		}
		p = p.add(1);
	}
	std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
	if in_library() {
		slept(req);
		return 0;
	}
	ret(sys(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
	id: i32,
	flags: i32,
	req: *const libc::timespec,
	rem: *mut libc::timespec,
) -> i32 {
	if in_library() {
		slept(req);
		return 0;
	}
	-sys(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}

unsafe fn slept(req: *const libc::timespec) {
	NOW_NS.fetch_add((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64, Relaxed);
	let me = sim_thread();
	if me != 0 {
		yield_now(me, Why::Slept);
	}
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
	let me = sim_thread();
	if me != 0 {
		yield_now(me, Why::Blocked);
		return 0;
	}
	sys(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

/// The standard library's locks wait and wake through this
#[no_mangle]
pub unsafe extern "C" fn syscall(
	n: libc::c_long,
	a: usize,
	b: usize,
	c: usize,
	d: usize,
	e: usize,
	f: usize,
) -> libc::c_long {
	if n == libc::SYS_futex {
		let op = b as i32 & 0x7F;
		if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
			let me = sim_thread();
			if me != 0 {
				LOCK_WAITS.fetch_add(1, Relaxed);
				yield_now(me, Why::Blocked);
				// a spurious wake-up, which every waiter has to expect
				return 0;
			}
			// Nobody runs beside the main thread: whatever it waits for in the library does not come
			// (unless the value has changed already, a time limit was given, or the library has
			// started threads of its own)
			if in_library() && d == 0 && *(a as *const u32) == c as u32 && !foreign_threads() {
				ON_STANDSTILL();
			}
		}
	}
	if n == libc::SYS_getrandom && in_library() {
		fill_random(a as *mut u8, b);
		return b as libc::c_long;
	}
	ret(sys(n, a, b, c, d, e, f)) as libc::c_long
}

// ---------------------------------------------------------------------------------------------
// files: a script of results for reads of one file

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Io {
	/// at most this many bytes
	Short(usize),
	Err(i32),
	Normal,
}

pub static FILE_ON: AtomicBool = AtomicBool::new(false);
pub static mut FILE_SCRIPT: Vec<Io> = Vec::new();
pub static mut FILE_POS: usize = 0;
pub static mut OPEN_SCRIPT: Vec<i32> = Vec::new();
pub static mut OPEN_POS: usize = 0;
pub static mut FILE_FIRED: [u64; 4] = [0; 4];

unsafe fn next_io() -> Io {
	let v = FILE_SCRIPT.get(FILE_POS).copied().unwrap_or(Io::Normal);
	FILE_POS += 1;
	v
}

unsafe fn scripted_read(nr: i64, fd: i32, buf: usize, n: usize, off: usize) -> isize {
	if FILE_ON.load(Relaxed) && fd > 2 && in_library() {
		match next_io() {
			Io::Normal => {}
			Io::Short(k) => {
				if k < n {
					FILE_FIRED[0] += 1;
				}
				return ret(sys(nr, fd as usize, buf, n.min(k.max(1)), off, 0, 0));
			}
			Io::Err(e) => {
				FILE_FIRED[if e == libc::EINTR { 1 } else { 2 }] += 1;
				*libc::__errno_location() = e;
				return -1;
			}
		}
	}
	ret(sys(nr, fd as usize, buf, n, off, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
	scripted_read(libc::SYS_read, fd, buf as usize, n, 0)
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
	scripted_read(libc::SYS_pread64, fd, buf as usize, n, off as usize)
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
	if FILE_ON.load(Relaxed) && fd > 2 && in_library() && cnt > 0 {
		// as if only the first buffer was there
		return scripted_read(libc::SYS_read, fd, (*iov).iov_base as usize, (*iov).iov_len, 0);
	}
	ret(sys(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}

unsafe fn scripted_open(dir: i32, path: usize, flags: i32, mode: u32) -> i32 {
	if FILE_ON.load(Relaxed) && in_library() {
		let e = OPEN_SCRIPT.get(OPEN_POS).copied().unwrap_or(0);
		OPEN_POS += 1;
		if e != 0 {
			FILE_FIRED[3] += 1;
			*libc::__errno_location() = e;
			return -1;
		}
	} else if !FILE_ON.load(Relaxed) && in_library() {
		// decoding has no business with files: what is on the disk differs from run to run
		DISK_OPENS.fetch_add(1, Relaxed);
		if DISK_STYLE.load(Relaxed) == 0 {
			*libc::__errno_location() = libc::ENOENT;
			return -1;
		}
		let fd = sys(libc::SYS_memfd_create, c"disk".as_ptr() as usize, 0, 0, 0, 0, 0) as i32;
		if fd >= 0 && DISK_STYLE.load(Relaxed) == 1 {
			sys(libc::SYS_pwrite64, fd as usize, c"1\n".as_ptr() as usize, 2, 0, 0, 0);
		}
		return fd;
	}
	ret(sys(libc::SYS_openat, dir as usize, path, flags as usize, mode as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
	scripted_open(libc::AT_FDCWD, path as usize, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
	scripted_open(dir, path as usize, flags, mode)
}

// ---------------------------------------------------------------------------------------------
// where received bytes lie in memory

const ROOM: usize = 128 << 10;
const PAGE: usize = 4096;
/// one piece of memory for each thread, pages that must not be touched on both of its sides
static mut ROOMS: *mut u8 = std::ptr::null_mut();
const N_ROOMS: usize = 33;
static mut PUTS: [u32; N_ROOMS] = [0; N_ROOMS];

/// Make the rooms (once, before any run)
pub fn make_rooms() {
	unsafe {
		let each = ROOM + PAGE;
		let p = libc::mmap(
			std::ptr::null_mut(),
			each * N_ROOMS + PAGE,
			libc::PROT_NONE,
			libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
			-1,
			0,
		) as *mut u8;
		assert!(p as *mut libc::c_void != libc::MAP_FAILED, "out of memory");
		for i in 0..N_ROOMS {
			let at = p.add(PAGE + i * each);
			assert!(libc::mprotect(at as *mut libc::c_void, ROOM, libc::PROT_READ | libc::PROT_WRITE) == 0);
		}
		ROOMS = p;
	}
}

/// Lay the bytes where the library is to find them: right before memory that must not be read,
/// right behind such memory, or between what is left of earlier ones, at any alignment
pub fn put_in(room: usize, b: &[u8]) -> &'static [u8] {
	unsafe {
		if b.len() > ROOM || ROOMS.is_null() || room >= N_ROOMS {
			// lives as long as the caller needs it
			return std::slice::from_raw_parts(b.as_ptr(), b.len());
		}
		let start = ROOMS.add(PAGE + room * (ROOM + PAGE));
		PUTS[room] = PUTS[room].wrapping_add(1);
		let k = PUTS[room];
		let at = match k % 3 {
			0 => ROOM - b.len(),
			1 => 0,
			_ => ((k as usize / 3) % 61).min(ROOM - b.len()),
		};
		let at = start.add(at);
		std::ptr::copy(b.as_ptr(), at, b.len());
		std::slice::from_raw_parts(at, b.len())
	}
}

pub fn put(b: &[u8]) -> &'static [u8] {
	put_in(N_ROOMS - 1, b)
}

/// The same addresses in every process
pub fn fixed_addresses() {
	const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
	unsafe {
		let now = libc::personality(0xffff_ffff);
		if now < 0 || now as libc::c_ulong & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("MBSIM_ADDRESSES").is_some() {
			return;
		}
		if libc::personality(now as libc::c_ulong | ADDR_NO_RANDOMIZE) < 0 {
			return;
		}
		use std::os::unix::process::CommandExt;
		let Ok(me) = std::env::current_exe() else { return };
		let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("MBSIM_ADDRESSES", "fixed").exec();
	}
}
