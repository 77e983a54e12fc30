//! Many decodes, one after the other and at the same time: C07.
//!
//! What each input decodes to is found out first, in a process of its own that has never decoded
//! anything else. Then the same inputs are decoded after a history of other decodes, by several
//! threads of which one at a time is let run for a few control flow edges or allocations, under
//! clocks that jump and environments that change, with some threads stopped for good half way.
use crate::choice::Ch;
use crate::ctx::*;
use crate::engine::map_bytes;
use crate::line::{self, Weather};
use crate::model::gen::{self, Taste, Want};
use crate::seam::{self, Why};
use mbdrive::Step;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Debug, PartialEq)]
enum How {
	Whole,
	Ended,
	/// in pieces, from an unfinished stream
	Stream(Vec<usize>),
	/// only so many bytes ever arrive
	Abandoned(usize),
	/// the payload alone
	Message,
	/// the records alone
	Frame,
}

#[derive(Clone, Debug)]
struct Job {
	bytes: Vec<u8>,
	how: How,
}

const ROOM: usize = 1 << 19;

fn show(s: Step) -> String {
	match s {
		Step::Telegram(p, n) => format!("{n} bytes: {p:?}"),
		Step::Rejected(e) => format!("rejected: {e} {e:?}"),
		Step::Incomplete(n) => format!("more: {n:?}"),
	}
}

/// One decode, with the text of its result; `room`: where its bytes are laid
fn perform(j: &Job, room: Option<usize>) -> String {
	let b = match room {
		Some(r) => seam::put_in(r, &j.bytes),
		None => &j.bytes[..],
	};
	let r = call(|| match &j.how {
		How::Whole => match mbdrive::whole(b) {
			Ok(p) => format!("{p:?}"),
			Err(e) => format!("rejected: {e} {e:?}"),
		},
		How::Ended => show(mbdrive::ended(b)),
		How::Stream(pieces) => {
			let mut n = 0;
			let mut last = String::new();
			for p in pieces {
				n += p;
				let s = mbdrive::partial(&b[..n.min(b.len())]);
				let go_on = matches!(s, Step::Incomplete(_));
				last += &show(s);
				if !go_on {
					break;
				}
			}
			last
		}
		How::Abandoned(n) => show(mbdrive::partial(&b[..(*n).min(b.len())])),
		How::Message => match mbdrive::message(&b[6.min(b.len())..b.len().max(2) - 2]) {
			Ok((m, n)) => format!("{n} bytes: {m:?}"),
			Err(e) => format!("rejected: {e}"),
		},
		How::Frame => match mbdrive::frame(&b[19.min(b.len())..b.len().max(2) - 2]) {
			Ok((m, n)) => format!("{n} bytes: {m:?}"),
			Err(e) => format!("rejected: {e}"),
		},
	});
	match r {
		Ok(s) => s,
		Err(m) => format!("panic: {m}"),
	}
}

/// The result in a process that has done nothing else
fn alone(jobs: &[Job]) -> Result<Vec<String>, Fail> {
	let mem = map_bytes(ROOM);
	let mut out = Vec::new();
	for j in jobs {
		unsafe {
			let pid = libc::fork();
			if pid < 0 {
				return broken("cannot fork");
			}
			if pid == 0 {
				libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
				let s = perform(j, None);
				let n = s.len().min(ROOM - 8);
				std::ptr::copy_nonoverlapping(s.as_ptr(), mem.add(8), n);
				*(mem as *mut u64) = n as u64 + 1;
				libc::_exit(0);
			}
			let mut st = 0;
			while libc::waitpid(pid, &mut st, 0) < 0 {}
			let n = *(mem as *mut u64);
			if n == 0 {
				out.push("no result".into());
			} else {
				let s = std::slice::from_raw_parts(mem.add(8), n as usize - 1);
				out.push(String::from_utf8_lossy(s).into_owned());
			}
			*(mem as *mut u64) = 0;
		}
	}
	unsafe { libc::munmap(mem as *mut libc::c_void, ROOM) };
	Ok(out)
}

/// Inputs that have much in common with each other, so that a mix-up shows
fn inputs(x: &mut Ctx, t: &Taste) -> Vec<Vec<u8>> {
	let w = Weather { rate: 1000, ..Weather::draw(&mut x.ch) };
	let meter = gen::meter(&mut x.ch, t);
	let n = x.ch.range(2, 7) as usize;
	let mut v: Vec<Vec<u8>> = Vec::new();
	for i in 0..n {
		let c = &mut x.ch;
		let b = match if i == 0 { c.idx(3) } else { c.weighted(&[3, 3, 2, 3, 2, 3, 1]) } {
			0 => gen::packet(c, t, Want::Readout).bytes,
			1 => {
				let ctl = gen::secondary(c);
				let m = gen::message(c, t, Want::Any, &meter, None);
				let a = gen::address(c);
				gen::long(ctl, a, m).bytes
			}
			2 => line::corpus()[c.idx(line::corpus().len())].to_vec(),
			3 => {
				// a relative with another content
				let o = v[c.idx(v.len())].clone();
				if o.len() > 9 && o[0] == 0x68 {
					let mut p = o[6..o.len() - 2].to_vec();
					line::corrupt(x, &mut p);
					gen::wrap_long(o[4], o[5], &p)
				} else {
					gen::packet(c, t, Want::Any).bytes
				}
			}
			4 => {
				let mut o = v[c.idx(v.len())].clone();
				line::damage(x, &w, &mut o);
				o
			}
			5 => {
				// the same meter but for one field of its header
				let mut m = meter.clone();
				match c.idx(4) {
					0 if c.chance(400) => m.version = c.pick(&[0, 1, 0xFF]),
					0 => m.version = m.version.wrapping_add(c.edgy()),
					1 => m.device = c.below(0x41) as u8,
					2 => m.digits[c.idx(8)] = c.below(10) as u8,
					_ => m.maker[c.idx(3)] = b'A' + c.below(26) as u8,
				}
				let ctl = gen::secondary(c);
				let m = gen::message(c, t, Want::Readout, &m, None);
				gen::long(ctl, 1, m).bytes
			}
			_ => gen::packet(c, t, Want::Other).bytes,
		};
		v.push(b);
	}
	v
}

/// One record of a kind; records of the same kind differ in content, and in length where they can
pub fn alike(c: &mut Ch, kind: u64, long: bool) -> Vec<u8> {
	let n = if long { c.range(2, 40) as usize } else { c.idx(2) };
	let letters = |c: &mut Ch, n: usize| -> Vec<u8> { (0..n).map(|_| 0x20 + c.below(95) as u8).collect() };
	let octets = |c: &mut Ch, n: usize| -> Vec<u8> { (0..n).map(|_| c.below(256) as u8).collect() };
	let decimals = |c: &mut Ch, n: usize| -> Vec<u8> { (0..n).map(|_| (c.below(10) << 4 | c.below(10)) as u8).collect() };
	let mut r;
	match kind {
		// a unit in plain text
		0 => {
			r = vec![0x00, 0x7C, n as u8];
			r.extend(letters(c, n));
		}
		1 => {
			r = vec![0x0D, 0x13, n as u8];
			r.extend(letters(c, n));
		}
		2 => {
			let k = if long { 6 } else { 1 };
			r = vec![if long { 0x0E } else { 0x09 }, 0x13];
			r.extend(decimals(c, k));
		}
		3 => {
			r = vec![0x02, 0x6C];
			r.extend(octets(c, 2));
		}
		4 => {
			r = vec![0x04, 0x6D];
			r.extend(octets(c, 4));
		}
		5 => {
			// storage numbers
			let k = if long { c.range(1, 8) as usize } else { 1 };
			r = vec![0x80 | c.below(0x80) as u8 & 0x70];
			r.extend(octets(c, k).iter().map(|b| b | 0x80));
			let m = r.len() - 1;
			r[m] &= 0x7F;
			r.push(0x13);
		}
		6 => {
			// extended values
			let k = if long { c.range(1, 12) as usize } else { 1 };
			r = vec![0x00, 0x93];
			r.extend(octets(c, k).iter().map(|b| b | 0x80));
			let m = r.len() - 1;
			r[m] &= 0x7F;
		}
		7 => {
			r = vec![0x00, c.pick(&[0xFD, 0xFB]), c.below(0x80) as u8];
		}
		_ => {
			r = vec![c.pick(&[0x01, 0x02, 0x03, 0x04, 0x06, 0x07, 0x05]), c.below(0x6C) as u8];
			let k = [0, 1, 2, 3, 4, 4, 6, 8][r[0] as usize & 7];
			r.extend(octets(c, k));
		}
	}
	r
}

/// Two readouts, one with as many short records of a kind as it can hold, and one with few but
/// longer ones of the same kind: for what is different after much of the same
fn crowd(x: &mut Ctx) -> [Vec<u8>; 2] {
	let c = &mut x.ch;
	let kind = c.below(9);
	let most = c.pick(&[250, 120, 40]);
	let mut many = vec![0x78];
	loop {
		let r = alike(c, kind, false);
		if many.len() + r.len() > most {
			break;
		}
		many.extend(r);
	}
	let mut few = vec![0x78];
	for _ in 0..c.range(1, 4) {
		let r = alike(c, kind, true);
		if few.len() + r.len() <= 250 {
			few.extend(r);
		}
	}
	[gen::wrap_long(0x08, 1, &many), gen::wrap_long(0x08, 1, &few)]
}

fn how(x: &mut Ctx, b: &[u8]) -> How {
	match x.ch.weighted(&[4, 2, 3, 2, 1, 1]) {
		0 => How::Whole,
		1 => How::Ended,
		2 => How::Stream(line::pieces(&mut x.ch, b.len()).into_iter().take(40).collect()),
		3 => How::Abandoned(x.ch.idx(b.len() + 1)),
		4 => How::Message,
		_ => How::Frame,
	}
}

/// Something around the library changes that should not concern it
pub fn vary(x: &mut Ctx) {
	match x.ch.idx(4) {
		0 => {
			x.fault(K::f_clock);
			let (second, day) = (1_000_000_000u64, 86_400_000_000_000u64);
			let next = if x.ch.chance(500) {
				seam::NOW_NS.load(SeqCst).wrapping_add(x.ch.pick(&[0, second, 3600 * second, day, 31 * day, 366 * day]))
			} else {
				// some time of some day between 1970 and 2115, or the very last one
				let any = x.ch.below(53_000);
				let d = x.ch.pick(&[0, 19_675, 10_957, 40_177, 53_000, any]);
				d * day + x.ch.below(86_400) * second
			};
			seam::NOW_NS.store(next % (1 << 63), SeqCst);
		}
		1 => {
			x.fault(K::f_clock);
			seam::TICK_NS.store(x.ch.pick(&[0u64, 1, 1000, 3_600_000_000_000]), SeqCst);
		}
		2 => {
			x.fault(K::f_skew);
			seam::ENV_STYLE.store(x.ch.below(4) as u32, SeqCst);
			seam::DISK_STYLE.store(x.ch.below(3) as u32, SeqCst);
		}
		_ => {
			x.fault(K::f_skew);
			seam::RANDOM.store(x.ch.below(1 << 32), SeqCst);
		}
	}
}

fn differs(what: &str, j: &Job, expected: &str, got: &str) -> Run {
	fail(
		"influenced",
		format!(
			"{what}: {} decoded as {:?}\n{}",
			hex(&j.bytes),
			j.how,
			crate::model::text::difference(expected, got)
		),
	)
}

/// What one thread has to do and has done
struct Task {
	jobs: Vec<usize>,
	results: Vec<String>,
}

static mut TASKS: Vec<Task> = Vec::new();
static mut JOBS: Vec<Job> = Vec::new();

#[allow(static_mut_refs)]
pub fn c07(x: &mut Ctx) -> Run {
	let t = Taste { max_records: x.ch.pick(&[3, 1, 8]), ..Taste::draw(&mut x.ch) };
	let mut inputs = inputs(x, &t);
	let crowded = x.ch.chance(120);
	if crowded {
		inputs.truncate(2);
		inputs.extend(crowd(x));
	}
	let mut jobs: Vec<Job> = Vec::new();
	for b in &inputs {
		for _ in 0..x.ch.range(1, 2) {
			let how = how(x, b);
			if matches!(how, How::Abandoned(_)) {
				x.count(K::f_abandon);
			}
			jobs.push(Job { bytes: b.clone(), how });
		}
	}
	let expected = alone(&jobs)?;
	for (j, e) in jobs.iter().zip(&expected) {
		x.note(|| format!("{:?} of {}: {}", j.how, hex(&j.bytes), e));
		x.mix_bytes(&j.bytes);
	}
	// earlier decodes
	x.ch.segment();
	vary(x);
	let history = match x.ch.idx(5) {
		0 => 0,
		1 | 2 => x.ch.range(1, 6),
		3 => x.ch.range(1, 300),
		_ => x.ch.pick(&[0, 16, 64, 127, 128, 255, 256, 257, 1030]),
	};
	// now and then a very long one, of small telegrams
	let small: Vec<usize> = (0..jobs.len()).filter(|i| jobs[*i].bytes.len() < 30).collect();
	let history = if x.ch.chance(10) && !small.is_empty() { x.ch.pick(&[4_100, 33_000, 66_000]) } else { history };
	let only = x.ch.chance(300).then(|| x.ch.idx(jobs.len()));
	// much of the same means the crowd
	let only = match only {
		Some(_) if crowded => (0..jobs.len()).max_by_key(|i| (jobs[*i].how == How::Whole, jobs[*i].bytes.len())),
		o => o,
	};
	x.note(|| format!("{history} decodes first"));
	for turn in 0..history {
		let i = match only {
			_ if history > 2000 => small[turn as usize % small.len()],
			Some(i) => i,
			None => x.ch.idx(jobs.len()),
		};
		x.count(K::decodes);
		x.count(K::checked);
		let got = perform(&jobs[i], Some(32));
		if got != expected[i] {
			return differs("after other decodes", &jobs[i], &expected[i], &got);
		}
	}
	// how many threads die half way
	let freeze = x.ch.pick(&[0, 2, 20, 60]);
	if freeze > 0 {
		// what is set up once in the life of a process is not the result of any decode, and
		// waiting for it is not waiting for another decode: it is there by now
		for (j, e) in jobs.iter().zip(&expected) {
			x.count(K::decodes);
			x.count(K::checked);
			let got = perform(j, Some(32));
			if got != *e {
				return differs("after other decodes", j, e, &got);
			}
		}
	}
	// decodes at the same time
	let n = match x.ch.idx(4) {
		0 => 2,
		_ if x.ch.chance(20) => x.ch.range(7, 24),
		_ => x.ch.range(2, 6),
	} as usize;
	let tasks: Vec<Task> = (0..n)
		.map(|_| {
			let k = x.ch.range(1, 4);
			Task { jobs: (0..k).map(|_| x.ch.idx(jobs.len())).collect(), results: vec![] }
		})
		.collect();
	for (i, t) in tasks.iter().enumerate() {
		let l = t.jobs.clone();
		x.note(|| format!("thread {i} decodes inputs {l:?}"));
	}
	unsafe {
		TASKS = tasks;
		JOBS = jobs.clone();
		seam::STEPS = 0;
	}
	seam::SIM_THREADS.store(n as u32, SeqCst);
	let mut threads: Vec<Option<std::thread::JoinHandle<()>>> = (0..n)
		.map(|i| {
			Some(
				std::thread::Builder::new()
					.stack_size(1 << 20)
					.spawn(move || unsafe {
						seam::enter_thread(i);
						let t: &mut Task = &mut TASKS[i];
						for k in 0..t.jobs.len() {
							let r = perform(&JOBS[t.jobs[k]], Some(i));
							t.results.push(r);
						}
						seam::leave_thread();
					})
					.expect("thread"),
			)
		})
		.collect();
	seam::THREADS_ON.store(true, SeqCst);
	let style = x.ch.idx(5);
	let mut vary_rate = x.ch.pick(&[0, 5, 50]);
	let mut frozen = vec![false; n];
	let mut waits = vec![0u32; n];
	let mut switches = 0u64;
	let mut last = usize::MAX;
	let mut patience = 1000;
	loop {
		let live: Vec<usize> = (0..n).filter(|i| threads[*i].is_some() && !frozen[*i]).collect();
		if live.is_empty() {
			break;
		}
		if switches % 16 == 0 {
			x.ch.segment();
		}
		let i = live[x.ch.idx(live.len())];
		let q = if switches > 3000 {
			vary_rate = 0;
			100_000
		} else {
			match style {
				0 => x.ch.range(1, 400),
				1 => 1 + x.ch.below(4),
				2 => x.ch.range(1, 40),
				3 => x.ch.range(1, 4000),
				_ => {
					let m = x.ch.pick(&[1u64, 8, 64, 512, 4096]);
					x.ch.range(1, m)
				}
			}
		};
		if x.ch.chance(vary_rate) {
			vary(x);
		}
		let why = seam::run_thread(i, q);
		switches += 1;
		x.mix(i as u64 | q << 8 | (why as u64) << 60);
		if i != last {
			x.count(K::switches);
			last = i;
		}
		x.note(|| format!("thread {i} ran {q} steps: {why:?}"));
		match why {
			Why::Done => {
				let _ = threads[i].take().unwrap().join();
				seam::SIM_THREADS.fetch_sub(1, SeqCst);
				waits.fill(0);
			}
			Why::Blocked => {
				waits[i] += 1;
				if waits[i] > 60 && patience > 0 && seam::foreign_threads() {
					// the library has threads of its own, which are not under the scheduler's control
					patience -= 1;
					std::thread::sleep(std::time::Duration::from_millis(5));
					waits.fill(0);
				}
				if live.iter().all(|k| waits[*k] > 60) {
					return fail(
						"waits",
						format!(
							"the decodes of {} threads wait for something that does not come; {} were stopped half way",
							live.len(),
							frozen.iter().filter(|f| **f).count()
						),
					);
				}
			}
			Why::Slept => waits[i] = 0,
			Why::Preempted => {
				waits[i] = 0;
				x.count(K::f_preempt);
				x.nontrivial = true;
				if live.len() > 1 && x.ch.chance(freeze) {
					x.fault(K::f_freeze);
					x.note(|| format!("thread {i} is never heard of again"));
					frozen[i] = true;
				}
			}
		}
	}
	unsafe {
		x.shared().steps += seam::STEPS;
	}
	x.add(K::lock_waits, seam::LOCK_WAITS.load(SeqCst));
	let tasks = unsafe { &TASKS };
	for (i, t) in tasks.iter().enumerate() {
		for (k, r) in t.results.iter().enumerate() {
			let j = t.jobs[k];
			x.count(K::decodes);
			x.count(K::checked);
			if *r != expected[j] {
				return differs(&format!("in thread {i} of {n}"), &jobs[j], &expected[j], r);
			}
		}
		if !frozen[i] && t.results.len() != t.jobs.len() {
			return fail("influenced", format!("thread {i} ended early"));
		}
	}
	x.state(n as u64 | (frozen.iter().filter(|f| **f).count() as u64) << 4 | switches.min(1023) << 8 | (history.min(300) / 8) << 20);
	// and afterwards, while some may still be stopped half way
	x.ch.segment();
	for (j, e) in jobs.iter().zip(&expected) {
		x.count(K::decodes);
		x.count(K::checked);
		let got = perform(j, Some(32));
		if got != *e {
			return differs("after concurrent decodes", j, e, &got);
		}
	}
	Ok(())
}
