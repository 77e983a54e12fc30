//! One sender, one line, one receiver: C01, C02, C03, C09 and C13.
use crate::common::*;
use crate::ctx::*;
use crate::seam;
use crate::line::{self, Weather};
use crate::sim_seek::{self, Shape};
use crate::sim_worn;
use crate::model::decode::{self, Link};
use crate::model::gen::{self, Taste, Want};
use crate::model::text;

pub const BYTE_NS: u64 = 4_583_333; // 11 bits at 2400 baud

/// A telegram or something like it
fn something(x: &mut Ctx, t: &Taste, w: &Weather) -> (Vec<u8>, &'static str) {
	match x.ch.weighted(&[55, 15, 15, 8, 7]) {
		0 => (gen::packet(&mut x.ch, t, Want::Any).bytes, "legal"),
		1 => {
			let b = gen::packet(&mut x.ch, t, Want::Any).bytes;
			if b.len() > 6 {
				let mut p = b[6..b.len() - 2].to_vec();
				line::corrupt(x, &mut p);
				let ctl = if x.ch.chance(50) { x.ch.u8() } else { b[4] };
				(gen::wrap_long(ctl, b[5], &p), "corrupted content")
			} else {
				(b, "legal")
			}
		}
		2 => {
			let mut b = gen::packet(&mut x.ch, t, Want::Any).bytes;
			let w = Weather { rate: 1000, ..w.clone() };
			line::damage(x, &w, &mut b);
			(b, "damaged")
		}
		3 => (line::corpus()[x.ch.idx(line::corpus().len())].to_vec(), "recorded"),
		_ => {
			x.fault(K::f_noise);
			(line::noise(&mut x.ch, 40), "noise")
		}
	}
}

/// How many bytes the telegram at the start of `b` will have, as far as `b` says
fn announced(b: &[u8]) -> Option<usize> {
	match b.first()? {
		0x68 => b.get(1).map(|l| *l as usize + 6),
		0x10 => Some(5),
		_ => Some(1),
	}
}

// ---------------------------------------------------------------------------------------------

pub fn c01(x: &mut Ctx) -> Run {
	let t = Taste::draw(&mut x.ch);
	let w = Weather::draw(&mut x.ch);
	let n = x.ch.range(4, 20);
	for _ in 0..n {
		x.ch.segment();
		if x.ch.chance(15) {
			let t = sim_worn::taste(x);
			let m = gen::meter(&mut x.ch, &t);
			let b = sim_worn::start(x, &t, Want::Any, sim_worn::Where::Anywhere, &m);
			let shape = x.ch.pick(&[Shape::Telegram, Shape::Telegram, Shape::Raw(300)]);
			sim_seek::seek(x, b, shape, &mut |x, b| c01_stream(x, b.to_vec(), "steered", b.to_vec()))?;
			continue;
		}
		c01_telegram(x, &t, &w)?;
	}
	Ok(())
}

fn c01_telegram(x: &mut Ctx, t: &Taste, w: &Weather) -> Run {
	if x.ch.chance(40) {
		return c01_overtaken(x, t);
	}
	let (b, label) = something(x, t, w);
	if b.is_empty() {
		return Ok(());
	}
	let mut stream = b.clone();
	if x.ch.chance(300) {
		// the next telegram is already on its way
		let more = if x.ch.chance(500) {
			gen::packet(&mut x.ch, t, Want::Any).bytes
		} else {
			line::noise(&mut x.ch, 20)
		};
		stream.extend(more);
	}
	c01_stream(x, b, label, stream)
}

/// The last bytes of a telegram are lost and the next one begins in their place; often the
/// telegram is as long as one can be, or nearly
fn c01_overtaken(x: &mut Ctx, t: &Taste) -> Run {
	let c = &mut x.ch;
	let b = gen::packet(c, t, Want::Any).bytes;
	let mut b = if b.len() > 9 && c.chance(700) {
		let mut p = b[6..b.len() - 2].to_vec();
		let n = c.pick(&[253usize, 253, 252, 251, 128, 126, 125]);
		if p.len() < n && p[0] == 0x78 || p.len() < n && p[0] == 0x72 {
			p.push(c.pick(&[0x0F, 0x1F, 0x2F]));
			let v = c.pick(&[0x2F, 0x16, 0x00]);
			p.resize(n, v);
		}
		gen::wrap_long(b[4], b[5], &p)
	} else {
		b
	};
	let n = 1 + c.idx(2).min(b.len() - 1);
	b.truncate((b.len() - n).max(1));
	let mut stream = b.clone();
	let next = match c.idx(4) {
		0 => vec![c.pick(&[0x68, 0x10, 0xE5, 0x16])],
		1 => gen::packet(c, t, Want::Other).bytes,
		_ => gen::packet(c, t, Want::Any).bytes,
	};
	stream.extend(next);
	x.fault(K::f_lose);
	c01_stream(x, b, "overtaken", stream)
}

/// The telegram `b` arrives, perhaps with more behind it
fn c01_stream(x: &mut Ctx, b: Vec<u8>, label: &str, stream: Vec<u8>) -> Run {
	x.count(K::telegrams);
	x.mix_bytes(&stream);
	x.note(|| format!("{label} telegram of {} bytes, {} on the line: {}", b.len(), stream.len(), hex(&stream)));

	let all = x.whole(&b)?;
	let at_once = x.ended(&b)?;
	x.note(|| format!("at once: {}", all.short()));
	let decodable = all.accepted();
	match (&all, &at_once) {
		(Res::T(a, _), Res::T(c, u)) if a == c && *u == b.len() => {}
		(Res::T(..), _) => {
			return fail("entry-points", format!("whole: {}\nprefix: {}\nfor {}", all.short(), at_once.short(), hex(&b)))
		}
		(Res::R(_), Res::T(_, u)) if *u == b.len() => {
			return fail("entry-points", format!("whole: {}\nprefix: {}\nfor {}", all.short(), at_once.short(), hex(&b)))
		}
		(_, Res::I(_)) => {
			return fail("incomplete-at-end", format!("more bytes asked for where none can come: {}", hex(&b)))
		}
		_ => {}
	}
	let link_total = match decode::link(&stream) {
		Link::Valid(n) => Some(n),
		_ => None,
	};

	// deliver it in pieces
	let cuts = if x.ch.chance(650) { vec![1; stream.len()] } else { line::pieces(&mut x.ch, stream.len()) };
	let dead_at = if x.ch.chance(250) { x.ch.idx(stream.len() + 1) } else { usize::MAX };
	let stall_at = if x.ch.chance(250) { x.ch.idx(stream.len() + 1) } else { usize::MAX };
	let mut k = 0;
	let mut refused: Option<(usize, String)> = None;
	let mut got: Option<(String, usize)> = None;
	let mut first = true;
	for piece in std::iter::once(0).chain(cuts) {
		if !first && k < b.len() && k > 0 {
			x.fault(K::f_split);
			if decodable {
				x.nontrivial = true;
			}
		}
		first = false;
		k += piece;
		x.now += piece as u64 * BYTE_NS;
		let have = &stream[..k];
		let r = x.partial(have)?;
		if k >= stall_at && k < b.len() {
			// nothing new arrives, but the receiver looks again
			x.now += 3_000_000_000;
			x.fault(K::f_stall);
			let again = x.partial(have)?;
			if again != r {
				return fail(
					"not-repeatable",
					format!("first {}\nthen {}\nafter {} bytes of {}", r.short(), again.short(), k, hex(&stream)),
				);
			}
		}
		x.note(|| format!("after {k} bytes: {}", r.short()));
		let kind = match &r {
			Res::T(..) => 0,
			Res::R(_) => 1,
			Res::I(_) => 2,
		};
		let place = if k < 8 { k as u64 } else if k + 4 > b.len() { 20 + (k + 4 - b.len()).min(8) as u64 } else { 9 };
		x.state(kind | place << 2 | (b[0] as u64) << 8 | (decodable as u64) << 16);
		let ctx = |what: &str| format!("{what}\nafter {k} bytes of {}\nwhich at once is {}", hex(&stream), all.short());
		match &r {
			Res::T(text, u) => {
				if decode::link(have) != Link::Valid(*u) {
					return fail("accepted-early", ctx(&format!("accepted {}", r.short())));
				}
				let e = x.ended(&have[..*u])?;
				if e != Res::T(text.clone(), *u) {
					return fail("differs", ctx(&format!("streaming: {}\nat once: {}", r.short(), e.short())));
				}
				if let Some((at, _)) = &refused {
					return fail("took-back", ctx(&format!("rejected after {at} bytes, then {}", r.short())));
				}
				if let Some(g) = &got {
					if g.0 != *text || g.1 != *u {
						return fail("changed", ctx(&format!("first {g:?}\nthen {}", r.short())));
					}
				}
				got = Some((text.clone(), *u));
			}
			Res::R(e) => {
				if decodable {
					return fail("rejected-good", ctx(&format!("rejected: {e}")));
				}
				if got.is_some() {
					return fail("took-back-telegram", ctx(&format!("rejected after a telegram: {e}")));
				}
				let f = x.ended(have)?;
				if f.accepted() {
					return fail("differs", ctx(&format!("streaming: {}\nat once: {}", r.short(), f.short())));
				}
				if refused.is_none() {
					refused = Some((k, e.clone()));
				}
			}
			Res::I(need) => {
				if let Some((at, _)) = &refused {
					return fail("took-back", ctx(&format!("rejected after {at} bytes, then {}", r.short())));
				}
				if got.is_some() {
					return fail("took-back-telegram", ctx("asks for more after a telegram"));
				}
				if let Some(total) = announced(have) {
					if k >= total {
						return fail("asks-on", ctx("asks for more although the telegram is complete"));
					}
				}
				if let (Some(total), Some(need)) = (link_total, need) {
					if k + need > total {
						return fail(
							"asks-too-much",
							ctx(&format!("asks for {need} bytes, {} are still to come", total - k)),
						);
					}
				}
			}
		}
		x.count(K::checked);
		// the line may be dead from here on
		if k < b.len() && (k >= dead_at || x.ch.chance(60)) {
			x.fault(K::f_dead);
			let e = x.ended(have)?;
			let f = x.finished(have)?;
			if e != f {
				return fail("differs", ctx(&format!("complete: {}\nfinished stream: {}", e.short(), f.short())));
			}
			match e {
				Res::I(_) => return fail("incomplete-at-end", ctx("more bytes asked for at the end of the stream")),
				Res::T(_, u) if decode::link(have) != Link::Valid(u) => {
					return fail("accepted-early", ctx("telegram at the end of the stream"))
				}
				Res::T(..) if decodable => return fail("accepted-early", ctx("telegram at the end of the stream")),
				_ => {}
			}
			if x.whole(have)?.accepted() && decode::link(have) != Link::Valid(k) {
				return fail("accepted-early", ctx("telegram at the end of the stream"));
			}
		}
		// plain slices are a stream too
		if k == b.len() || x.ch.chance(20) {
			let s = x.lib("streaming decode", || res(mbdrive::partial_slice(have)))?;
			if s != r {
				return fail("differs", ctx(&format!("bytes: {}\nslice: {}", r.short(), s.short())));
			}
			let e = x.ended(have)?;
			let s = x.lib("decode", || res(mbdrive::ended_slice(have)))?;
			if s != e {
				return fail("differs", ctx(&format!("bytes: {}\nslice: {}", e.short(), s.short())));
			}
		}
		if k == b.len() {
			// all of it has arrived
			match (&at_once, &r) {
				(Res::T(..), _) if at_once == r => {}
				(Res::R(_), Res::R(_)) => {}
				// the announced end lies further on
				(Res::R(_), Res::I(_)) => {}
				_ => return fail("differs", ctx(&format!("streaming: {}\nat once: {}", r.short(), at_once.short()))),
			}
		}
	}
	Ok(())
}

// ---------------------------------------------------------------------------------------------

/// Framing, length and checksum only: the length of the telegram at the start of `b`
fn framing(b: &[u8]) -> Option<usize> {
	match b.first()? {
		0xE5 => Some(1),
		0x10 => (b.len() >= 5 && b[3] == b[1].wrapping_add(b[2]) && b[4] == 0x16).then_some(5),
		0x68 => {
			let l = *b.get(1)? as usize;
			(l >= 2
				&& b.len() >= l + 6
				&& b[2] == b[1]
				&& b[3] == 0x68
				&& b[4 + l] == decode::sum(&b[4..4 + l])
				&& b[5 + l] == 0x16)
				.then_some(l + 6)
		}
		_ => None,
	}
}

/// What the link rules demand for the telegram at the start of `b`: `Some(n)` to be accepted with
/// `n` bytes, `None` to be rejected; or no demand at all
fn link_demand(x: &mut Ctx, b: &[u8]) -> Option<Option<usize>> {
	let Some(n) = framing(b) else { return Some(None) };
	match b[0] {
		0xE5 => Some(Some(n)),
		0x10 => decode::control(b[1]).map(|_| Some(n)),
		_ => {
			decode::control(b[4])?;
			let payload = &b[6..n - 2];
			match x.lib_or_panic(|| mbdrive::message(payload).is_ok()) {
				Ok(true) => Some(Some(n)),
				// the content is not acceptable, so the telegram need not be
				_ => None,
			}
		}
	}
}

fn c02_check(x: &mut Ctx, b: &[u8], what: &str) -> Run {
	let demand = link_demand(x, b);
	x.mix_bytes(b);
	let Some(demand) = demand else {
		x.count(K::skipped);
		return Ok(());
	};
	let b = seam::put(b);
	let whole = x.lib_or_panic(|| mbdrive::whole(b).is_ok()).unwrap_or(false);
	let used = |s: mbdrive::Step| match s {
		mbdrive::Step::Telegram(_, n) => Some(n),
		_ => None,
	};
	let ended = x.lib_or_panic(|| used(mbdrive::ended(b))).unwrap_or(None);
	let streamed = x.lib_or_panic(|| used(mbdrive::partial(b))).unwrap_or(None);
	x.count(K::checked);
	x.count(if whole { K::accepted } else { K::rejected });
	x.note(|| format!("{what}: {} -> {}", hex(b), if whole { "accepted" } else { "rejected" }));
	let want_whole = demand == Some(b.len());
	if whole != want_whole || ended != demand || streamed != demand {
		let say = |d: Option<usize>| match d {
			Some(n) => format!("accepted ({n} bytes)"),
			None => "not accepted".to_string(),
		};
		let class = if demand.is_none() || (whole && !want_whole) { "accepted-damaged" } else { "rejected-undamaged" };
		return fail(
			class,
			format!(
				"{what}: {}\nby the link rules: {}\nwhole: {}, start of a finished stream: {}, start of a stream: {}",
				hex(b),
				say(demand),
				if whole { "accepted" } else { "not accepted" },
				say(ended),
				say(streamed)
			),
		);
	}
	Ok(())
}

/// What little damage makes of these bytes
pub fn near(b: &[u8]) -> Vec<Vec<u8>> {
	let n = b.len();
	let places: &[usize] = match b.first() {
		Some(0x68) if n > 8 => &[n - 2, n - 1, 1, 2, 3, 0, n - 3],
		Some(0x10) if n == 5 => &[3, 4, 0, 2],
		_ => &[],
	};
	let mut v = Vec::new();
	for at in places {
		let mut d = b.to_vec();
		// a little more, a flipped bit, nothing at all
		d[*at] = match b.iter().fold(*at, |h, v| h * 31 % 9973 + *v as usize) % 12 {
			0..=5 => d[*at].wrapping_add(1),
			k @ 6..=8 => d[*at] ^ 0x80 >> (k - 6),
			9 => !d[*at],
			10 => d[*at].wrapping_sub(1),
			_ if d[*at] == 0 => 0xFF,
			_ => 0,
		};
		v.push(d);
	}
	if n > 8 {
		let mut d = b.to_vec();
		d.remove(n - 3);
		v.push(d);
	}
	v
}

fn c02_near(x: &mut Ctx, b: &[u8]) -> Run {
	c02_check(x, b, "steered")?;
	for d in near(b) {
		x.count(if d.len() == b.len() { K::f_alter } else { K::f_lose });
		c02_check(x, &d, "steered, then damaged")?;
	}
	Ok(())
}

pub fn c02(x: &mut Ctx) -> Run {
	let t = Taste::draw(&mut x.ch);
	let w = Weather::draw(&mut x.ch);
	let n = x.ch.range(4, 30);
	for _ in 0..n {
		x.ch.segment();
		if x.ch.chance(15) {
			let t = sim_worn::taste(x);
			let m = gen::meter(&mut x.ch, &t);
			let b = sim_worn::start(x, &t, Want::Any, sim_worn::Where::Anywhere, &m);
			let shape = x.ch.pick(&[Shape::Raw(300), Shape::Raw(300), Shape::Telegram]);
			sim_seek::seek(x, b, shape, &mut |x, b| c02_near(x, b))?;
			continue;
		}
		let sent = match x.ch.idx(6) {
			0 => {
				// any length, any checksum
				let c = gen::control_any(&mut x.ch).bytes[0];
				let a = gen::address(&mut x.ch);
				let ci = x.ch.pick(&[0x51u8, 0xA0, 0x90, 0x52, 0x71, 0x1F]);
				let len = match x.ch.idx(4) {
					0 => x.ch.below(4),
					1 => 252 - x.ch.below(4),
					2 => x.ch.range(120, 136),
					_ => x.ch.below(253),
				} as usize;
				let mut p = vec![ci];
				match x.ch.idx(3) {
					0 => p.extend(std::iter::repeat(x.ch.edgy()).take(len)),
					_ => p.extend(x.ch.bytes(len)),
				}
				gen::wrap_long(c, a, &p)
			}
			1 => line::corpus()[x.ch.idx(line::corpus().len())].to_vec(),
			_ => gen::packet(&mut x.ch, &t, Want::Any).bytes,
		};
		x.count(K::telegrams);
		x.now += sent.len() as u64 * BYTE_NS;
		c02_check(x, &sent, "undamaged")?;
		let way = x.ch.weighted(&[80, 6, 6, 8]);
		match way {
			0 => {
				for _ in 0..x.ch.range(1, 12) {
					let mut b = sent.clone();
					let wx = Weather { rate: 1000, ..w.clone() };
					if line::damage(x, &wx, &mut b) {
						x.nontrivial = true;
						if framing(&b).is_some() {
							x.count(K::collisions_pass);
						}
						c02_check(x, &b, "damaged")?;
					}
				}
			}
			1 => {
				// every single byte altered
				let d = x.ch.range(1, 255) as u8;
				for i in 0..sent.len() {
					let mut b = sent.clone();
					b[i] = b[i].wrapping_add(d);
					x.count(K::f_alter);
					c02_check(x, &b, "one byte altered")?;
				}
				x.nontrivial = true;
			}
			2 => {
				// cut off anywhere
				for i in 0..sent.len() {
					x.count(K::f_cut);
					c02_check(x, &sent[..i], "cut off")?;
				}
				x.nontrivial = true;
			}
			_ => {
				// every byte lost, or repeated
				let lose = x.ch.chance(500);
				for i in 0..sent.len() {
					let mut b = sent.clone();
					if lose {
						b.remove(i);
						x.count(K::f_lose);
					} else {
						b.insert(i, sent[i]);
						x.count(K::f_repeat);
					}
					c02_check(x, &b, "one byte lost or repeated")?;
				}
				x.nontrivial = true;
			}
		}
		x.state(way as u64 | (sent.len() as u64) << 4 | (sent[0] as u64) << 16);
	}
	Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c03(x: &mut Ctx) -> Run {
	let t = Taste::draw(&mut x.ch);
	let w = Weather::draw(&mut x.ch);
	let n = x.ch.range(4, 24);
	for _ in 0..n {
		x.ch.segment();
		if x.ch.chance(10) {
			sim_worn::fields(x, &mut |_, _, _, _| Ok(()))?;
			continue;
		}
		if x.ch.chance(8) {
			let t = sim_worn::taste(x);
			let m = gen::meter(&mut x.ch, &t);
			sim_worn::wear(x, &t, Want::Any, sim_worn::Where::Anywhere, &m, &mut |x, b| {
				let b = seam::put(b);
				let n = x.lib("decode and display", || match mbdrive::whole(b) {
					Ok(p) => format!("{p:?}{p:#?}").len(),
					Err(e) => format!("{e}{e:?}").len(),
				})?;
				x.mix(n as u64);
				Ok(())
			})?;
			continue;
		}
		if x.ch.chance(10) {
			let t = sim_worn::taste(x);
			let b = match gen::record(&mut x.ch, &t, 60) {
				Some(r) if x.ch.chance(700) => r.bytes,
				_ => x.ch.bytes(20),
			};
			let max = x.ch.pick(&[60, 300, 2000]);
			sim_seek::seek(x, b, Shape::Raw(max), &mut |x, b| c03_payload(x, b))?;
			continue;
		}
		let (b, what) = match x.ch.weighted(&[40, 30, 10, 20]) {
			0 => something(x, &t, &w),
			1 => {
				// broken meter: intact link, any content
				let ci = if x.ch.chance(500) {
					x.ch.pick(&[0x72u8, 0x78, 0x7A, 0x50, 0x66, 0x6E, 0x6F, 0x70, 0x53])
				} else {
					x.ch.u8()
				};
				let mut p = vec![ci];
				let m = gen::meter(&mut x.ch, &t);
				if let Some((_, hk)) = decode::ci_kind(ci) {
					if x.ch.chance(900) {
						p.extend(gen::header(&mut x.ch, hk, &m).bytes);
					}
				}
				let room = (gen::MAX_PAYLOAD - p.len()) as u64;
				let len = if x.ch.chance(700) { x.ch.below(40.min(room)) } else { x.ch.below(room + 1) };
				p.extend(x.ch.bytes(len as usize));
				if x.ch.chance(300) {
					line::corrupt(x, &mut p);
				}
				let c = gen::control_any(&mut x.ch).bytes[0];
				let a = gen::address(&mut x.ch);
				(gen::wrap_long(c, a, &p), "broken meter")
			}
			2 => {
				x.fault(K::f_noise);
				(line::noise(&mut x.ch, 600), "noise")
			}
			_ => {
				let mut b = gen::packet(&mut x.ch, &t, Want::Any).bytes;
				if b.len() > 9 {
					let mut p = b[6..b.len() - 2].to_vec();
					line::corrupt(x, &mut p);
					b = gen::wrap_long(b[4], b[5], &p);
				}
				(b, "corrupted meter")
			}
		};
		if b.is_empty() {
			continue;
		}
		x.nontrivial = true;
		x.count(K::telegrams);
		x.mix_bytes(&b);
		x.note(|| format!("{what}: {}", hex(&b)));
		c03_all(x, &b)?;
		// what the layers above get to see
		let p = if b.len() > 8 && b[0] == 0x68 { b[6..b.len() - 2].to_vec() } else { b.clone() };
		let at = if x.ch.chance(300) { x.ch.idx(p.len() + 1) } else { 0 };
		c03_payload(x, &p[at..])?;
	}
	if x.ch.chance(8) {
		// payloads far beyond what fits one telegram
		let n = x.ch.pick(&[4_000usize, 70_000, 200_000]);
		let mut p = Vec::with_capacity(n + 300);
		match x.ch.idx(4) {
			0 => p.resize(n, x.ch.edgy()),
			1 => {
				let k = x.ch.range(1, 40) as usize;
				let unit = x.ch.bytes(k);
				while p.len() < n {
					p.extend(&unit);
				}
			}
			2 => {
				let mut r = Vec::new();
				for _ in 0..4 {
					if let Some(e) = gen::record(&mut x.ch, &t, 200) {
						r.extend(e.bytes);
					}
				}
				r.push(0x2F);
				while p.len() < n {
					p.extend(&r);
				}
			}
			_ => {
				p.extend([0x01, 0xFD]);
				p.resize(n, 0x80 | x.ch.u8());
			}
		}
		x.count(K::big);
		x.note(|| format!("payload of {} bytes starting {}", p.len(), hex(&p[..32.min(p.len())])));
		c03_payload(x, &p)?;
		let mut with_ci = vec![x.ch.pick(&[0x78u8, 0x70, 0x50, 0x66, 0x51])];
		with_ci.extend(&p);
		c03_payload(x, &with_ci)?;
		let _ = x.whole(&p)?;
		let _ = x.partial(&p)?;
	}
	Ok(())
}

fn c03_all(x: &mut Ctx, b: &[u8]) -> Run {
	let shown = |r: Result<libmbus::parse::link_layer::Packet, libmbus::parse::error::MBusError>| match r {
		Ok(p) => format!("{p:?}{p:#?}").len(),
		Err(e) => format!("{e}{e:?}").len(),
	};
	let at = seam::put(b);
	let r = x.lib("whole telegram decode", || mbdrive::whole(at).is_ok())?;
	let n = x.lib("decode and display", || shown(mbdrive::whole(at)))?;
	x.mix(n as u64);
	x.count(if r { K::accepted } else { K::rejected });
	let mut k = 0;
	let cuts = line::pieces(&mut x.ch, b.len());
	for c in cuts {
		k += c;
		x.now += c as u64 * BYTE_NS;
		let r = x.partial(&b[..k])?;
		x.state((r.accepted() as u64) << 16 | (b[0] as u64) << 8 | k.min(255) as u64);
		if x.ch.chance(100) {
			x.fault(K::f_dead);
			x.finished(&b[..k])?;
			x.ended(&b[..k])?;
		}
		if k < b.len() {
			x.count(K::f_split);
		}
	}
	Ok(())
}

fn c03_payload(x: &mut Ctx, p: &[u8]) -> Run {
	let p = seam::put(p);
	x.lib("content decode", || match mbdrive::message(p) {
		Ok((m, _)) => format!("{m:?}").len(),
		Err(e) => format!("{e}{e:?}").len(),
	})?;
	x.lib("frame decode", || match mbdrive::frame(p) {
		Ok((m, _)) => format!("{m:?}").len(),
		Err(e) => format!("{e}{e:?}").len(),
	})?;
	x.lib("record decode", || match mbdrive::record(p) {
		Ok((m, _)) => format!("{m:?}").len(),
		Err(e) => format!("{e}{e:?}").len(),
	})?;
	Ok(())
}

// ---------------------------------------------------------------------------------------------

/// A receiver as anyone would write it around the streaming decoder
pub struct Receiver {
	pub buf: Vec<u8>,
	pub rescan: bool,
}

pub struct Heard {
	pub text: String,
	pub bytes: Vec<u8>,
}

impl Receiver {
	pub fn new(rescan: bool) -> Receiver {
		Receiver { buf: Vec::new(), rescan }
	}
	/// Decode as much as possible of what has arrived
	pub fn poll(&mut self, x: &mut Ctx, out: &mut Vec<Heard>) -> Run {
		let mut at = 0;
		while at < self.buf.len() {
			let r = x.partial(&self.buf[at..])?;
			match r {
				Res::T(text, n) => {
					if n == 0 || n > self.buf.len() - at {
						return fail("consumption", format!("a telegram of {n} bytes from {}", hex(&self.buf[at..])));
					}
					out.push(Heard { text, bytes: self.buf[at..at + n].to_vec() });
					at += n;
				}
				Res::R(_) => {
					at += 1;
					x.count(K::resyncs);
				}
				Res::I(_) => break,
			}
		}
		self.buf.drain(..at);
		Ok(())
	}
	/// The line has been quiet for long: whatever is unfinished will stay so
	pub fn pause(&mut self, x: &mut Ctx, out: &mut Vec<Heard>) -> Run {
		if !self.buf.is_empty() {
			x.count(K::timeouts);
		}
		while !self.buf.is_empty() {
			if self.rescan {
				self.buf.remove(0);
				self.poll(x, out)?;
			} else {
				self.buf.clear();
			}
		}
		Ok(())
	}
}

pub fn c09(x: &mut Ctx) -> Run {
	let t = Taste::draw(&mut x.ch);
	let w = Weather::draw(&mut x.ch);
	let mut rx = Receiver::new(x.ch.chance(500));
	let groups = x.ch.range(2, 8);
	for _ in 0..groups {
		x.ch.segment();
		if x.ch.chance(25) {
			let t = sim_worn::taste(x);
			let m = gen::meter(&mut x.ch, &t);
			let b = sim_worn::start(x, &t, Want::Any, sim_worn::Where::Anywhere, &m);
			let next = match x.ch.idx(5) {
				0 => vec![],
				1 => line::noise(&mut x.ch, 12),
				_ => gen::packet(&mut x.ch, &t, Want::Any).bytes,
			};
			let echo = x.ch.pick(&[0usize, 0, 1, 2, 5]);
			sim_seek::seek(x, b, Shape::Telegram, &mut |x, b| {
				if next.is_empty() {
					// itself once more, or the end of it
					let from = if echo == 0 { 0 } else { b.len().saturating_sub(echo) };
					c09_behind(x, b, &b[from..])
				} else {
					c09_behind(x, b, &next)
				}
			})?;
			continue;
		}
		// the line was quiet; now a burst of telegrams, perhaps with dirt among them
		let mut stream: Vec<u8> = Vec::new();
		// (report, end offset) of the telegrams that must be decoded
		let mut must: Vec<(String, usize)> = Vec::new();
		let mut clean = true;
		let items = x.ch.range(1, 6);
		let mut last: Option<Vec<u8>> = None;
		for _ in 0..items {
			match x.ch.weighted(&[70, 12, 12, 6, 6]) {
				0 => {
					let again = last.as_ref().filter(|_| x.ch.chance(200));
					let b = if let Some(b) = again {
						// the same once more
						x.fault(K::f_dup);
						b.clone()
					} else if x.ch.chance(100) {
						line::corpus()[x.ch.idx(line::corpus().len())].to_vec()
					} else {
						gen::packet(&mut x.ch, &t, Want::Any).bytes
					};
					x.count(K::telegrams);
					let r = x.whole(&b)?;
					x.note(|| format!("sent: {} ({})", hex(&b), if r.accepted() { "decodable" } else { "not decodable" }));
					stream.extend(&b);
					last = Some(b);
					match r {
						Res::T(text, _) if clean => must.push((text, stream.len())),
						Res::T(..) => {}
						_ => {
							clean = false;
							x.count(K::skipped);
						}
					}
				}
				1 => {
					let mut b = gen::packet(&mut x.ch, &t, Want::Any).bytes;
					let w = Weather { rate: 1000, ..w.clone() };
					line::damage(x, &w, &mut b);
					x.note(|| format!("sent, damaged: {}", hex(&b)));
					stream.extend(&b);
					clean = false;
				}
				2 => {
					x.fault(K::f_noise);
					let b = line::noise(&mut x.ch, 30);
					x.note(|| format!("noise: {}", hex(&b)));
					stream.extend(&b);
					clean = false;
				}
				4 => {
					// an echo of what came last
					let n = stream.len();
					let k = (x.ch.pick(&[1, 2, 1, 5, 9]) as usize).min(n);
					if k > 0 {
						x.fault(K::f_dup);
						let b = stream[n - k..].to_vec();
						x.note(|| format!("echo: {}", hex(&b)));
						stream.extend(&b);
						clean = false;
					}
				}
				_ => {
					// the start of a telegram whose sender dies
					let b = gen::packet(&mut x.ch, &t, Want::Any).bytes;
					let k = x.ch.idx(b.len());
					x.fault(K::f_dead);
					x.note(|| format!("sent, sender dies: {}", hex(&b[..k])));
					stream.extend(&b[..k]);
					if k > 0 {
						clean = false;
					}
				}
			}
		}
		if must.len() > 1 {
			x.nontrivial = true;
		}
		x.mix_bytes(&stream);
		x.state(must.len() as u64 | (clean as u64) << 4 | items << 8 | (rx.rescan as u64) << 12);
		// everything at hand at once: one telegram after the other
		let mut at = 0;
		for (text, end) in &must {
			let r = x.ended(&stream[at..])?;
			if r != Res::T(text.clone(), end - at) {
				return fail(
					"not-separated",
					format!("decoding from {}\nexpected {} bytes: {text}\ngot {}", hex(&stream[at..]), end - at, r.short()),
				);
			}
			at = *end;
		}
		// delivered in pieces
		let mut heard: Vec<Heard> = Vec::new();
		let mut k = 0;
		for piece in line::pieces(&mut x.ch, stream.len()) {
			rx.buf.extend(&stream[k..k + piece]);
			k += piece;
			x.now += piece as u64 * BYTE_NS;
			x.count(K::f_split);
			rx.poll(x, &mut heard)?;
			let due = must.iter().filter(|m| m.1 <= k).count();
			if heard.len() < due {
				return fail(
					"late-or-lost",
					format!("{due} telegrams have arrived, {} were decoded, {k} bytes of {}", heard.len(), hex(&stream)),
				);
			}
		}
		x.now += 500_000_000;
		rx.pause(x, &mut heard)?;
		for (i, h) in heard.iter().enumerate() {
			x.note(|| format!("heard: {}", h.text));
			let alone = x.whole(&h.bytes)?;
			if decode::link(&h.bytes) != Link::Valid(h.bytes.len()) || alone != Res::T(h.text.clone(), h.bytes.len()) {
				return fail(
					"consumption",
					format!("{} bytes {} were taken for {}\nalone they are {}", h.bytes.len(), hex(&h.bytes), h.text, alone.short()),
				);
			}
			if let Some(m) = must.get(i) {
				x.count(K::checked);
				if m.0 != h.text {
					return fail(
						"wrong-order",
						format!("telegram {i} should be {}\nbut is {}\nin {}", m.0, h.text, hex(&stream)),
					);
				}
			} else if !clean {
				x.count(K::deferred);
			}
		}
		if heard.len() < must.len() {
			return fail("late-or-lost", format!("{} of {} telegrams decoded from {}", heard.len(), must.len(), hex(&stream)));
		}
		if clean && heard.len() != must.len() {
			return fail("twice", format!("{} telegrams decoded, {} sent: {}", heard.len(), must.len(), hex(&stream)));
		}
	}
	Ok(())
}

// ---------------------------------------------------------------------------------------------

/// Something is right behind the telegram `b`
fn c09_behind(x: &mut Ctx, b: &[u8], next: &[u8]) -> Run {
	let alone = x.whole(b)?;
	let Res::T(text, _) = &alone else {
		x.count(K::skipped);
		return Ok(());
	};
	let mut stream = b.to_vec();
	stream.extend(next);
	let mut heard = Vec::new();
	let mut rx = Receiver::new(false);
	rx.buf.extend(&stream);
	rx.poll(x, &mut heard)?;
	x.count(K::checked);
	let finished = x.ended(&stream)?;
	let expected = Res::T(text.clone(), b.len());
	if heard.first().is_none_or(|h| h.text != *text || h.bytes != b) || finished != expected {
		return fail(
			"not-separated",
			format!(
				"{} bytes followed by more: {}
alone: {text}
streaming: {}
finished: {}",
				b.len(),
				hex(&stream),
				heard.first().map_or("nothing", |h| &h.text),
				finished.short()
			),
		);
	}
	Ok(())
}

/// Number of records and which of them are marked how
pub fn marks(report: &str) -> Option<Vec<String>> {
	let n = text::parse(report)?;
	let mut out = Vec::new();
	walk(&n, &mut out);
	Some(out)
}

fn walk(n: &text::Node, out: &mut Vec<String>) {
	use text::Node;
	match n {
		Node::Atom(_) => {}
		Node::Named(name, fields) => {
			if name == "Record" {
				let get = |node: &Node, key: &str| -> Option<Node> {
					match node {
						Node::Named(_, f) => f.iter().find(|x| x.0 == key).map(|x| x.1.clone()),
						_ => None,
					}
				};
				let mut m = String::new();
				if let Some(v) = get(n, "vib").and_then(|v| get(&v, "value_type")) {
					if let Node::Tuple(k, _) = &v {
						if ["ReservedCode", "RetiredCode", "Invalid"].contains(&k.as_str()) {
							m += &format!("{v:?}");
						}
					}
				}
				if let Some(v) = get(n, "data") {
					if let Node::Tuple(k, _) = &v {
						if ["ErrorValue", "Invalid"].contains(&k.as_str()) {
							m += &format!("{v:?}");
						}
					}
				}
				out.push(m);
			}
			for f in fields {
				walk(&f.1, out);
			}
		}
		Node::Tuple(_, v) | Node::List(v) => {
			for c in v {
				walk(c, out);
			}
		}
	}
}

fn c13_judge(x: &mut Ctx, b: &[u8], what: &str, expected: Option<String>, got: Option<String>, err: &str) -> Run {
	x.count(K::checked);
	match (expected, got) {
		(None, None) => x.count(K::illegal),
		(None, Some(g)) => {
			return fail("illegal-reported", format!("{what} {}\nhas no legal meaning but is reported as {g}", hex(b)))
		}
		(Some(e), None) => {
			return fail("legal-rejected", format!("{what} {}\nis legal: {e}\nbut was rejected: {err}", hex(b)))
		}
		(Some(e), Some(g)) => {
			x.count(K::legal);
			if e == g {
				return Ok(());
			}
			let (Some(me), Some(mg)) = (marks(&e), marks(&g)) else {
				return broken(format!("cannot read report {g}"));
			};
			if me.iter().any(|m| !m.is_empty()) {
				x.count(K::marked);
			}
			if me != mg {
				return fail("mark", format!("{what} {}\nexpected {e}\nreported {g}", hex(b)));
			}
		}
	}
	Ok(())
}

pub fn c13(x: &mut Ctx) -> Run {
	let mut t = Taste::draw(&mut x.ch);
	let n = x.ch.range(8, 50);
	for _ in 0..n {
		x.ch.segment();
		t.max_records = x.ch.pick(&[2, 1, 3, 8]);
		if x.ch.chance(20) {
			let t = sim_worn::taste(x);
			if x.ch.chance(250) {
				sim_worn::fields(x, &mut |x, b, e, got| match (e, got) {
					(None, Ok((g, _))) => fail("illegal-reported", format!("field {} has no legal meaning but is reported as {g}", hex(b))),
					(Some((e, _)), Err(err)) => fail("legal-rejected", format!("field {} is legal: {e}, but was rejected: {err}", hex(b))),
					(None, Err(_)) => {
						x.count(K::illegal);
						Ok(())
					}
					_ => {
						x.count(K::legal);
						Ok(())
					}
				})?;
			} else if x.ch.chance(500) {
				let alone = x.ch.chance(300);
				sim_worn::wear_record(x, &t, &mut |x, r| {
					if alone {
						// as the record decoder sees it
						let e = decode::record(r).map(|r| format!("{:?}", r.0));
						let got = x.lib("record decode", || match mbdrive::record(seam::put(r)) {
							Ok((r, _)) => Ok(format!("{r:?}")),
							Err(e) => Err(format!("{e}")),
						})?;
						return c13_judge(x, r, "record", e, got.clone().ok(), &got.err().unwrap_or_default());
					}
					let e = decode::frame(r).map(|f| format!("{f:?}"));
					let got = x.lib("frame decode", || match mbdrive::frame(seam::put(r)) {
						Ok((f, _)) => Ok(format!("{f:?}")),
						Err(e) => Err(format!("{e}")),
					})?;
					c13_judge(x, r, "frame", e, got.clone().ok(), &got.err().unwrap_or_default())
				})?;
			} else {
				let m = gen::meter(&mut x.ch, &t);
				sim_worn::wear(x, &t, Want::Any, sim_worn::Where::Anywhere, &m, &mut |x, b| {
					let e = decode::packet(b).map(|p| format!("{p:?}"));
					let r = x.whole(b)?;
					let (got, err) = match &r {
						Res::T(t, _) => (Some(t.clone()), String::new()),
						Res::R(e) => (None, e.clone()),
						Res::I(_) => (None, "incomplete".into()),
					};
					c13_judge(x, b, "telegram", e, got, &err)
				})?;
			}
			continue;
		}
		if x.ch.chance(450) {
			// one record in a meter's memory
			let Some(mut r) = gen::record(&mut x.ch, &t, 200).map(|r| r.bytes) else { continue };
			if x.ch.chance(850) {
				line::corrupt(x, &mut r);
				x.nontrivial = true;
			}
			x.mix_bytes(&r);
			let e = decode::frame(&r).map(|f| format!("{f:?}"));
			let got = x.lib("frame decode", || match mbdrive::frame(seam::put(&r)) {
				Ok((f, _)) => Ok(format!("{f:?}")),
				Err(e) => Err(format!("{e}")),
			})?;
			x.note(|| format!("records {}: {}", hex(&r), if e.is_some() { "legal" } else { "not legal" }));
			c13_judge(x, &r, "frame", e, got.clone().ok(), &got.err().unwrap_or_default())?;
			continue;
		}
		let mut b = gen::packet(&mut x.ch, &t, Want::Any).bytes;
		if x.ch.chance(100) {
			b = line::corpus()[x.ch.idx(line::corpus().len())].to_vec();
		}
		if x.ch.chance(850) {
			x.nontrivial = true;
			if b.len() > 8 {
				let mut p = b[6..b.len() - 2].to_vec();
				let mut ctl = b[4];
				match x.ch.weighted(&[75, 10, 15]) {
					0 => line::corrupt(x, &mut p),
					1 => {
						ctl = x.ch.u8();
						x.fault(K::f_memory);
					}
					_ => {
						// the kind of message
						p[0] = x.ch.u8();
						x.fault(K::f_memory);
					}
				}
				b = gen::wrap_long(ctl, b[5], &p);
			} else if b.len() == 5 {
				b = gen::wrap_short(x.ch.u8(), b[2]);
				x.fault(K::f_memory);
			}
		}
		x.count(K::telegrams);
		x.now += b.len() as u64 * BYTE_NS;
		x.mix_bytes(&b);
		let e = decode::packet(&b);
		x.state(e.is_some() as u64 | (b.get(6).copied().unwrap_or(0) as u64) << 1 | (b.len().min(20) as u64) << 10);
		let e = e.map(|p| format!("{p:?}"));
		x.note(|| format!("telegram {}: {}", hex(&b), if e.is_some() { "legal" } else { "not legal" }));
		let r = x.whole(&b)?;
		let (got, err) = match &r {
			Res::T(t, _) => (Some(t.clone()), String::new()),
			Res::R(e) => (None, e.clone()),
			Res::I(_) => (None, "incomplete".into()),
		};
		c13_judge(x, &b, "telegram", e.clone(), got, &err)?;
		if x.ch.chance(100) {
			let r = x.partial(&b)?;
			let got = match &r {
				Res::T(t, _) => Some(t.clone()),
				_ => None,
			};
			c13_judge(x, &b, "streamed telegram", e, got, &r.short())?;
		}
	}
	Ok(())
}
