//! A register that runs through all of its values: one byte of a meter's memory counts from 0 to
//! 255 over successive transmissions, everything else stays as it is. Whatever a single value of
//! a field does to a telegram shows in the one transmission that carries it.
use crate::ctx::*;
use crate::seam;
use crate::sim_seek::{self, Shape};
use crate::line;
use crate::model::decode;
use crate::model::gen::{self, Meter, Taste, Want};

/// Which byte of the telegram counts
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Where {
	/// control, address, control information, header
	Link,
	/// behind the header
	Content,
	Anywhere,
}

pub fn taste(x: &mut Ctx) -> Taste {
	let mut t = Taste::draw(&mut x.ch);
	t.max_records = x.ch.pick(&[1, 2]);
	t.filler = x.ch.pick(&[0, 100]);
	t.manufacturer_tail = x.ch.pick(&[0, 100]);
	t.dates = x.ch.pick(&[12, 120, 400]);
	t.lvar = x.ch.pick(&[12, 120, 300]);
	t.bad_bcd = 0;
	t
}

fn header_len(ci: u8) -> usize {
	match decode::ci_kind(ci) {
		Some((_, decode::HeaderKind::Short)) => 4,
		Some((_, decode::HeaderKind::Long)) => 12,
		_ => 0,
	}
}

/// A telegram, and the position of the byte that counts
fn pick(x: &mut Ctx, t: &Taste, want: Want, at: Where, m: &Meter) -> (Vec<u8>, usize) {
	let c = &mut x.ch;
	if want != Want::Readout && at != Where::Content && c.chance(120) {
		let ctl = gen::control_any(c);
		let a = gen::address(c);
		return (gen::short(ctl, a).bytes, 1 + c.idx(2));
	}
	let ctl = if want == Want::Readout { gen::secondary(c) } else { gen::control_any(c) };
	let a = gen::address(c);
	let mut msg = gen::message(c, t, want, m, None);
	for _ in 0..4 {
		if msg.bytes.len() <= 60 {
			break;
		}
		msg = gen::message(c, t, want, m, None);
	}
	let b = gen::long(ctl, a, msg).bytes;
	let head = 7 + header_len(b[6]);
	let end = b.len() - 2;
	let link = match at {
		Where::Link => true,
		Where::Content => head >= end,
		Where::Anywhere => head >= end || c.chance(300),
	};
	let i = if link {
		// names hang on the version, device and leading digits
		match c.idx(3) {
			0 if head == 19 => c.pick(&[13, 14, 10, 11, 12]),
			_ => 4 + c.idx(head - 4),
		}
	} else {
		match c.idx(3) {
			0 => head + c.idx((end - head).min(6)),
			1 => end - 1 - c.idx((end - head).min(6)),
			_ => head + c.idx(end - head),
		}
	};
	(b, i)
}

fn rewrap(b: &mut [u8]) {
	let n = b.len();
	if b[0] == 0x68 {
		b[n - 2] = decode::sum(&b[4..n - 2]);
	} else {
		b[3] = b[1].wrapping_add(b[2]);
	}
}

/// Send the telegram with every value of that byte, `judge` each
pub fn sweep(
	x: &mut Ctx,
	t: &Taste,
	want: Want,
	at: Where,
	m: &Meter,
	judge: &mut dyn FnMut(&mut Ctx, &[u8]) -> Run,
) -> Run {
	let (mut b, i) = pick(x, t, want, at, m);
	x.nontrivial = true;
	x.mix_bytes(&b);
	x.note(|| format!("the byte at {i} of {} counts from 0 to 255", hex(&b)));
	// now and then a second register stands at an unusual value meanwhile
	let second = if x.ch.chance(300) && b.len() > 9 {
		let near = if x.ch.chance(700) {
			(i + 1).min(b.len() - 3)
		} else {
			6 + x.ch.idx(b.len() - 8)
		};
		let v = x.ch.edgy();
		Some((near, v))
	} else {
		None
	};
	if let Some((j, v)) = second {
		if j != i && j >= 4 {
			b[j] = v;
		}
	}
	for v in 0..=255u8 {
		b[i] = v;
		rewrap(&mut b);
		x.count(K::f_counting);
		x.now += b.len() as u64 * crate::sim_link::BYTE_NS;
		judge(x, &b)?;
	}
	x.state(i as u64 | (b.get(6).copied().unwrap_or(0) as u64) << 8 | 1 << 20);
	Ok(())
}

/// Either that, or a meter that is driven towards what the decoder looks for
pub fn wear(
	x: &mut Ctx,
	t: &Taste,
	want: Want,
	at: Where,
	m: &Meter,
	judge: &mut dyn FnMut(&mut Ctx, &[u8]) -> Run,
) -> Run {
	if x.ch.chance(400) {
		return sweep(x, t, want, at, m, judge);
	}
	for _ in 0..x.ch.range(1, 2) {
		let b = start(x, t, want, at, m);
		sim_seek::seek(x, b, Shape::Telegram, judge)?;
	}
	Ok(())
}

/// A telegram to begin with
pub fn start(x: &mut Ctx, t: &Taste, want: Want, at: Where, m: &Meter) -> Vec<u8> {
	if want != Want::Other && x.ch.chance(80) {
		let b = line::corpus()[x.ch.idx(line::corpus().len())];
		let readout = b.len() > 8 && matches!(decode::ci_kind(b[6]), Some((decode::Kind::Readout, _)));
		if want == Want::Any || readout {
			return b.to_vec();
		}
	}
	pick(x, t, want, at, m).0
}

/// The same for a record alone
pub fn wear_record(x: &mut Ctx, t: &Taste, judge: &mut dyn FnMut(&mut Ctx, &[u8]) -> Run) -> Run {
	if x.ch.chance(400) {
		return sweep_record(x, t, judge);
	}
	for _ in 0..x.ch.range(1, 2) {
		if let Some(r) = gen::record(&mut x.ch, t, 60) {
			let max = x.ch.pick(&[100, 400]);
			sim_seek::seek(x, r.bytes, Shape::Raw(max), judge)?;
		}
	}
	Ok(())
}

/// The same for a record alone
pub fn sweep_record(
	x: &mut Ctx,
	t: &Taste,
	judge: &mut dyn FnMut(&mut Ctx, &[u8]) -> Run,
) -> Run {
	let Some(r) = gen::record(&mut x.ch, t, 60) else { return Ok(()) };
	let mut b = r.bytes;
	let i = x.ch.idx(b.len());
	if x.ch.chance(300) {
		let j = x.ch.idx(b.len());
		b[j] = x.ch.edgy();
	}
	if x.ch.chance(200) {
		line::corrupt(x, &mut b);
	}
	let i = i.min(b.len().saturating_sub(1));
	if b.is_empty() {
		return Ok(());
	}
	x.nontrivial = true;
	x.mix_bytes(&b);
	x.note(|| format!("the byte at {i} of record {} counts from 0 to 255", hex(&b)));
	for v in 0..=255u8 {
		b[i] = v;
		x.count(K::f_counting);
		judge(x, &b)?;
	}
	Ok(())
}

/// Single fields as the library's public field decoders take them. `judge`: the bytes, what they
/// mean (if anything) and what was made of them
#[allow(clippy::type_complexity)]
pub fn fields(
	x: &mut Ctx,
	judge: &mut dyn FnMut(&mut Ctx, &[u8], Option<(String, usize)>, Result<(String, usize), String>) -> Run,
) -> Run {
	let which = x.ch.below(mbdrive::FIELDS);
	let max = match which {
		0 => 9,
		1 => 20,
		2 | 3 => 8,
		_ => 200,
	};
	let n = if x.ch.chance(200) { x.ch.below(max + 1) } else { x.ch.below(max.min(9) + 1) } as usize;
	let len = match x.ch.idx(4) {
		0 => x.ch.below(12) as usize,
		1 => n + x.ch.idx(3),
		_ => n.max(7),
	};
	let mut b = x.ch.bytes(len);
	if which <= 1 && x.ch.chance(700) {
		// mostly decimal digits
		for v in &mut b {
			*v = (*v >> 4) % 10 << 4 | (*v & 15) % 10;
		}
		if n > 0 && n <= b.len() && x.ch.chance(300) {
			b[n - 1] |= 0xF0;
		}
	}
	if which == 10 && !b.is_empty() && x.ch.chance(800) {
		b[0] = (b.len() - 1) as u8 - x.ch.below(2).min(b.len() as u64 - 1) as u8;
		for v in &mut b[1..] {
			*v &= 0x7F;
		}
	}
	let i = x.ch.idx(len.max(1));
	x.mix_bytes(&b);
	x.note(|| format!("field {which} of {n} bytes in {}, byte {i} counting", hex(&b)));
	let first = x.ch.u8();
	for k in 0..=255u8 {
		if let Some(v) = b.get_mut(i) {
			*v = first.wrapping_add(k);
		} else if k > 0 {
			break;
		}
		x.count(K::f_counting);
		let e = decode::field(which, n, &b);
		let got = x.lib("field decode", || mbdrive::field(which, n, seam::put(&b)).map_err(|e| format!("{e}")))?;
		x.count(K::checked);
		judge(x, &b, e, got)?;
	}
	Ok(())
}
