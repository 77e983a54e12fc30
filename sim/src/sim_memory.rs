//! Memory: C10. Every decode runs on a metered allocator.
use crate::ctx::*;
use crate::line::{self, Weather};
use crate::model::gen::{self, Taste, Want};
use crate::seam::{self, Mem};
use crate::sim_link::near;
use crate::sim_threads::alike;
use crate::sim_seek::{self, Shape};
use crate::sim_worn;
use mbdrive::Step;

/// Limits on what decoding `n` bytes may hold at once and allocate in total. Measured on the
/// pristine tree: at most 1 KB + 221 n at once and 1.2 KB + 570 n in total.
const HELD: (i64, i64) = (16 << 10, 800);
const TOTAL: (i64, i64) = (32 << 10, 2000);
/// first decodes that may set something up for good
const SETUPS: u64 = 12;
const SETUP_BYTES: i64 = 256 << 10;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
	Whole,
	Ended,
	Partial,
	Message,
	Frame,
	Record,
}

fn outcome(s: &Step) -> u8 {
	match s {
		Step::Telegram(..) => 0,
		Step::Rejected(_) => 1,
		Step::Incomplete(_) => 2,
	}
}

fn meter(x: &mut Ctx, how: How, b: &[u8]) -> Result<(Mem, u8), Fail> {
	let mut o = 3;
	let b = seam::put(b);
	let m = x.lib("decode", || match how {
		How::Whole => seam::measure(|| mbdrive::whole(b), |r| o = r.is_err() as u8),
		How::Ended => seam::measure(|| mbdrive::ended(b), |s| o = outcome(s)),
		How::Partial => seam::measure(|| mbdrive::partial(b), |s| o = outcome(s)),
		How::Message => seam::measure(|| mbdrive::message(b), |r| o = r.is_err() as u8),
		How::Frame => seam::measure(|| mbdrive::frame(b), |r| o = r.is_err() as u8),
		How::Record => seam::measure(|| mbdrive::record(b), |r| o = r.is_err() as u8),
	})?;
	x.count(K::checked);
	x.count([K::accepted, K::rejected, K::incomplete][o as usize % 3]);
	Ok((m, o))
}

/// A payload as no telegram could carry it
fn big(x: &mut Ctx, t: &Taste) -> (How, Vec<u8>) {
	let c = &mut x.ch;
	let n = match c.idx(8) {
		0 | 1 => c.range(300, 3000),
		2 | 3 | 4 => c.range(1000, 20_000),
		5 | 6 => c.range(10_000, 60_000),
		_ => c.pick(&[65_535, 65_536, 200_000]),
	} as usize;
	let how = c.pick(&[How::Frame, How::Message, How::Record]);
	let mut b = match how {
		How::Message => {
			let ci = c.pick(&[0x72u8, 0x78, 0x7A, 0x51, 0x50, 0x52, 0x00, 0x70, 0x71, 0x6C, 0xA0, 0xC0, 0xC2, 0x90]);
			let mut v = vec![ci];
			v.extend(match ci {
				0x72 => vec![0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00],
				0x7A => vec![0x55, 0x00, 0x00, 0x00],
				_ => vec![],
			});
			v
		}
		_ => vec![],
	};
	let style = c.idx(8);
	let pattern: Vec<u8> = match style {
		0 => vec![0x2F],
		1 => {
			b.push(0x0F);
			vec![c.edgy()]
		}
		2 => vec![c.pick(&[0x80, 0xFF, 0x81, 0xFD, 0xFC])],
		3 => vec![0x00, c.pick(&[0x13, 0x78, 0x7B, 0x03])],
		4 | 5 => {
			let mut v = Vec::new();
			for _ in 0..c.range(1, 4) {
				if let Some(r) = gen::record(c, t, 200) {
					v.extend(r.bytes);
				}
			}
			if v.is_empty() {
				v.push(0x2F);
			}
			v
		}
		6 => {
			// texts of all announced lengths
			let l = c.edgy();
			let mut v = vec![0x0D, c.pick(&[0x78, 0x13, 0xFD]), l];
			v.extend(vec![b'a'; l as usize]);
			v
		}
		_ => {
			let k = c.range(1, 40) as usize;
			c.bytes(k)
		}
	};
	while b.len() < n {
		b.extend(&pattern);
	}
	if c.chance(300) {
		b.truncate(n);
	}
	if c.chance(300) {
		let k = c.range(1, 4) as usize;
		let v = c.bytes(k);
		b.extend(v);
	}
	x.count(K::big);
	(how, b)
}

/// Bytes that announce more than they hold
fn announcing(x: &mut Ctx) -> (How, Vec<u8>) {
	let c = &mut x.ch;
	let how = c.pick(&[How::Record, How::Frame]);
	let mut b = Vec::new();
	match c.idx(4) {
		0 => {
			b.extend([0x0D, 0x78, c.edgy()]);
		}
		1 => {
			b.push(0x84);
			let n = c.range(1, 12);
			for _ in 0..n {
				b.push(0x80 | c.edgy());
			}
			b.push(c.edgy() & 0x7F);
		}
		2 => {
			b.extend([0x04, 0x80 | c.edgy()]);
			let n = c.range(1, 30);
			for _ in 0..n {
				b.push(0x80 | c.edgy());
			}
		}
		_ => {
			b.extend([0x04, 0xFC, c.edgy()]);
		}
	}
	let k = c.range(0, 8) as usize;
	let v = c.bytes(k);
	b.extend(v);
	x.fault(K::f_memory);
	(how, b)
}

fn limits(how: How, b: &[u8], m: &Mem) -> Run {
	let n = b.len() as i64;
	let held = HELD.0 + HELD.1 * n;
	let total = TOTAL.0 + TOTAL.1 * n;
	if m.peak > held {
		return fail(
			"holds-too-much",
			format!("{how:?} decode of {n} bytes held {} bytes at once (limit {held}): {}", m.peak, hex(b)),
		);
	}
	if m.total > total {
		return fail(
			"allocates-too-much",
			format!("{how:?} decode of {n} bytes allocated {} bytes in total (limit {total}): {}", m.total, hex(b)),
		);
	}
	Ok(())
}

fn keeps(x: &mut Ctx, how: How, b: &[u8]) -> Run {
	for _ in 0..4 {
		let (m, _) = meter(x, how, b)?;
		limits(how, b, &m)?;
		if m.kept == 0 {
			return Ok(());
		}
	}
	fail("keeps", format!("{how:?} decode kept memory four times after its result was dropped: {}", hex(b)))
}

/// Contents that drift towards what the decoder looks for
fn steered(x: &mut Ctx) -> Run {
	let t = sim_worn::taste(x);
	let m = gen::meter(&mut x.ch, &t);
	let b = if x.ch.chance(300) {
		let ctl = gen::control_any(&mut x.ch);
		gen::short(ctl, gen::address(&mut x.ch)).bytes
	} else {
		sim_worn::start(x, &t, Want::Any, sim_worn::Where::Anywhere, &m)
	};
	let (hows, shape): (&[How], _) = match x.ch.idx(3) {
		0 => (&[How::Whole], Shape::Telegram),
		1 => (&[How::Partial, How::Ended], Shape::Raw(300)),
		_ => (&[How::Record, How::Frame, How::Message], Shape::Raw(600)),
	};
	let b = match shape {
		Shape::Raw(600) if b.len() > 8 => b[6..b.len() - 2].to_vec(),
		_ => b,
	};
	let damage = x.ch.chance(500) && matches!(shape, Shape::Telegram);
	sim_seek::seek(x, b, shape, &mut |x, b| {
		// as it is, and with what little damage makes of it
		let damaged = if damage { near(b) } else { vec![] };
		for b in std::iter::once(b).chain(damaged.iter().map(|d| &d[..])) {
			for how in hows {
				keeps(x, *how, b)?;
			}
		}
		Ok(())
	})
}

/// The same content over and over but for a few bytes, which are new each time: what is kept of
/// every new value adds up, though it is kept only once of each
fn variations(x: &mut Ctx, t: &Taste) -> Run {
	let c = &mut x.ch;
	let (how, base) = match c.idx(3) {
		0 => {
			let kind = c.below(9);
			let mut b = Vec::new();
			for _ in 0..c.range(1, 2) {
				b.extend(alike(c, kind, true));
			}
			(c.pick(&[How::Frame, How::Record]), b)
		}
		1 => {
			let b = gen::packet(c, t, Want::Readout).bytes;
			(How::Message, b[6..b.len() - 2].to_vec())
		}
		_ => {
			let b = gen::packet(c, t, Want::Any).bytes;
			if b.len() > 9 && b[0] == 0x68 {
				(How::Message, b[6..b.len() - 2].to_vec())
			} else {
				(How::Whole, b)
			}
		}
	};
	let at = c.idx(base.len());
	let n = c.range(1, 8).min((base.len() - at) as u64) as usize;
	let style = c.idx(3);
	x.nontrivial = true;
	x.fault(K::f_memory);
	let mut kept = 0;
	let mut bytes = 0;
	for turn in 0..64u64 {
		let mut b = base.clone();
		for i in 0..n {
			b[at + i] = match style {
				0 => x.ch.below(256) as u8,
				1 => 0x80 | x.ch.below(128) as u8,
				_ => b[at + i].wrapping_add((turn >> (2 * i)) as u8),
			};
		}
		let (m, _) = meter(x, how, &b)?;
		limits(how, &b, &m)?;
		if m.kept != 0 {
			x.count(K::kept);
			kept += 1;
			bytes += m.kept;
			if kept > SETUPS || bytes > SETUP_BYTES {
				return fail(
					"keeps",
					format!(
						"{how:?} decodes of {} bytes, {kept} out of {} variations have kept {bytes} bytes after their results were dropped, the last one: {}",
						b.len(),
						turn + 1,
						hex(&b)
					),
				);
			}
		}
	}
	Ok(())
}

pub fn c10(x: &mut Ctx) -> Run {
	let t = Taste::draw(&mut x.ch);
	let w = Weather { rate: 1000, ..Weather::draw(&mut x.ch) };
	let rounds = x.ch.range(3, 14);
	let mut setups = 0u64;
	let mut setup_bytes = 0i64;
	let mut past: Vec<(How, Vec<u8>)> = Vec::new();
	for _ in 0..rounds {
		x.ch.segment();
		if x.ch.chance(20) {
			steered(x)?;
			continue;
		}
		if x.ch.chance(60) {
			variations(x, &t)?;
			continue;
		}
		let (how, b) = match x.ch.weighted(&[20, 20, 15, 8, 10, 7, 6, 6]) {
			0 => (How::Whole, gen::packet(&mut x.ch, &t, Want::Any).bytes),
			1 => {
				let mut b = gen::packet(&mut x.ch, &t, Want::Any).bytes;
				line::damage(x, &w, &mut b);
				x.nontrivial = true;
				(x.ch.pick(&[How::Whole, How::Ended, How::Partial]), b)
			}
			2 => {
				let p = gen::packet(&mut x.ch, &t, Want::Readout).bytes;
				let mut q = p[6..p.len() - 2].to_vec();
				line::corrupt(x, &mut q);
				x.nontrivial = true;
				(x.ch.pick(&[How::Whole, How::Ended]), gen::wrap_long(p[4], p[5], &q))
			}
			3 => {
				x.fault(K::f_noise);
				x.nontrivial = true;
				(x.ch.pick(&[How::Whole, How::Partial]), line::noise(&mut x.ch, 300))
			}
			4 => {
				x.nontrivial = true;
				big(x, &t)
			}
			5 => {
				// only a part of it ever comes
				let b = gen::packet(&mut x.ch, &t, Want::Any).bytes;
				let k = x.ch.idx(b.len());
				x.fault(K::f_abandon);
				(How::Partial, b[..k].to_vec())
			}
			6 => {
				x.nontrivial = true;
				announcing(x)
			}
			_ => match past.is_empty() {
				true => (How::Whole, line::corpus()[x.ch.idx(line::corpus().len())].to_vec()),
				_ => past[x.ch.idx(past.len())].clone(),
			},
		};
		let n = b.len() as i64;
		let times = if b.len() > 2000 { 3 } else { x.ch.pick(&[3, 2, 8, 40]) };
		for k in 0..times {
			let (m, o) = meter(x, how, &b)?;
			if k == 0 {
				x.note(|| format!("{how:?} of {n} bytes, outcome {o}: {m:?}: {}", hex(&b)));
				x.mix_bytes(&b);
				x.mix(m.peak as u64);
				x.state(how as u64 | (o as u64) << 3 | (n.ilog2_or_0() as u64) << 5 | ((m.count.min(255)) as u64) << 10);
			}
			limits(how, &b, &m)?;
			if m.kept != 0 {
				x.count(K::kept);
				setups += 1;
				setup_bytes += m.kept;
				if k >= 2 || setups > SETUPS || setup_bytes > SETUP_BYTES {
					return fail(
						"keeps",
						format!(
							"{how:?} decode of {n} bytes, time {}, kept {} bytes after its result was dropped ({setups} decodes have kept {setup_bytes} bytes so far): {}",
							k + 1,
							m.kept,
							hex(&b)
						),
					);
				}
			}
		}
		if b.len() < 2000 {
			past.push((how, b));
		}
	}
	Ok(())
}

trait Log {
	fn ilog2_or_0(self) -> u32;
}
impl Log for i64 {
	fn ilog2_or_0(self) -> u32 {
		if self > 0 {
			self.ilog2()
		} else {
			0
		}
	}
}
