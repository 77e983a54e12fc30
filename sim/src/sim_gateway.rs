//! Contents without a telegram around them: messages and record lists that a gateway collects and
//! sends on in fragments over a network that loses, repeats and reorders them. C17.
use crate::ctx::*;
use crate::line;
use crate::model::decode::{self, ci_kind, Cur};
use crate::model::gen::{self, Enc, Taste, Want};
use crate::model::text;
use crate::model::types::{Frame, MBusMessage, Record};
use crate::seam;
use crate::sim_seek::{self, Shape};
use crate::sim_worn;

/// nothing generated is longer than this
const LONGEST_RECORD: usize = 1300;

/// A record list of roughly `target` bytes, and where its records are
struct List {
	bytes: Vec<u8>,
	/// start, end and meaning of every record
	records: Vec<(usize, usize, Record)>,
	/// end of the records, where the end mark is, if there is one
	end: usize,
	means: Frame,
}

fn list(c: &mut crate::choice::Ch, t: &Taste, target: usize) -> List {
	let mut bytes = Vec::new();
	let mut records: Vec<(usize, usize, Record)> = Vec::new();
	let mut pool: Vec<Enc<Record>> = Vec::new();
	let fresh = c.pick(&[1000, 1000, 100, 20]);
	let mut dry = 0;
	while bytes.len() < target && dry < 50 {
		if c.chance(t.filler) {
			let n = c.pick(&[1, 2, 4, 16, 300]);
			bytes.extend(std::iter::repeat(0x2F).take(n));
		}
		let r = if pool.is_empty() || (pool.len() < 400 && c.chance(fresh)) {
			match gen::record(c, t, LONGEST_RECORD) {
				Some(r) => {
					pool.push(r.clone());
					r
				}
				None => {
					dry += 1;
					continue;
				}
			}
		} else {
			pool[c.idx(pool.len())].clone()
		};
		let start = bytes.len();
		bytes.extend(&r.bytes);
		records.push((start, bytes.len(), r.means));
	}
	if c.chance(t.filler) {
		bytes.push(0x2F);
	}
	let end = bytes.len();
	let mut tail = Vec::new();
	let more = c.chance(200);
	let marked = more || c.chance(t.manufacturer_tail);
	if marked {
		bytes.push(if more { 0x1F } else { 0x0F });
		if c.chance(t.manufacturer_tail) {
			let n = c.range(0, 300) as usize;
			tail = c.bytes(n);
			if c.chance(200) {
				let k = c.pick(&[1usize, 10, 100]);
				tail = tail.repeat(k);
			}
		}
	}
	bytes.extend(&tail);
	let means = Frame {
		records: records.iter().map(|r| r.2.clone()).collect(),
		more_data_follows: more,
		manufacturer_specific: tail,
	};
	List { bytes, records, end, means }
}

fn size(c: &mut crate::choice::Ch) -> usize {
	let n = match c.weighted(&[50, 35, 12, 3]) {
		0 => c.range(0, 250),
		1 => c.range(200, 3000),
		2 => c.range(3000, 20_000),
		_ => c.range(20_000, 60_000),
	};
	n as usize
}

pub fn c17(x: &mut Ctx) -> Run {
	let mut t = Taste::draw(&mut x.ch);
	if x.ch.chance(200) {
		// records that do not fit into a telegram
		t.max_vifes = x.ch.pick(&[700, 260]);
		t.max_text = 255;
	}
	for _ in 0..x.ch.range(1, 5) {
		x.ch.segment();
		match x.ch.weighted(&[50, 25, 25, 2, 1]) {
			0 => forwarded(x, &t)?,
			1 => alone(x, &t)?,
			3 => steered(x)?,
			4 => huge(x, &t)?,
			_ => inside(x, &t)?,
		}
	}
	Ok(())
}

fn frame(x: &mut Ctx, b: &[u8]) -> Result<Result<(String, usize), String>, Fail> {
	let b = seam::put(b);
	let r = x.lib("decode of a record list", || match mbdrive::frame(b) {
		Ok((f, n)) => Ok((format!("{f:?}"), n)),
		Err(e) => Err(format!("{e}")),
	})?;
	x.count(if r.is_ok() { K::accepted } else { K::rejected });
	Ok(r)
}

fn record(x: &mut Ctx, b: &[u8]) -> Result<Result<(String, usize), String>, Fail> {
	let b = seam::put(b);
	let r = x.lib("decode of a record", || match mbdrive::record(b) {
		Ok((f, n)) => Ok((format!("{f:?}"), n)),
		Err(e) => Err(format!("{e}")),
	})?;
	x.count(if r.is_ok() { K::accepted } else { K::rejected });
	Ok(r)
}

fn message(x: &mut Ctx, b: &[u8]) -> Result<Result<(String, usize), String>, Fail> {
	let b = seam::put(b);
	let r = x.lib("decode of a message", || match mbdrive::message(b) {
		Ok((f, n)) => Ok((format!("{f:?}"), n)),
		Err(e) => Err(format!("{e}")),
	})?;
	x.count(if r.is_ok() { K::accepted } else { K::rejected });
	Ok(r)
}

fn short(r: &Result<(String, usize), String>) -> String {
	match r {
		Ok((t, n)) => format!("{n} bytes used for {}", t.chars().take(400).collect::<String>()),
		Err(e) => format!("rejected: {}", e.replace('\n', " / ")),
	}
}

/// A record list on its way through a network of datagrams; the receiver reads the records off
/// its front as they become complete, and the whole when it is there or the sender has gone
fn forwarded(x: &mut Ctx, t: &Taste) -> Run {
	let target = size(&mut x.ch);
	let l = list(&mut x.ch, t, target);
	let b = &l.bytes;
	x.count(K::telegrams);
	x.mix_bytes(b);
	if b.len() > 1000 {
		x.count(K::big);
	}
	x.note(|| format!("list of {} records, {} bytes: {}", l.records.len(), b.len(), hex(b)));
	let c = &mut x.ch;
	let each = c.pick(&[244usize, 1, 16, 64, 1400]).max(b.len().div_ceil(300)).max(1);
	let n = b.len().div_ceil(each);
	let (loss, dup, order) = (c.pick(&[0, 50, 300]), c.pick(&[0, 50, 300]), c.pick(&[0, 100, 1000]));
	let gone_at = if c.chance(350) { c.range(0, 2 * n as u64 + 1) } else { u64::MAX };
	let mut have = vec![false; n];
	let mut flying: Vec<usize> = Vec::new();
	let (mut steps, mut there, mut at, mut next) = (0u64, 0usize, 0usize, 0usize);
	let mut gone = false;
	while there < b.len() {
		if flying.is_empty() {
			flying = (0..n).filter(|i| !have[*i]).collect();
			x.now += 500_000_000;
		}
		if steps >= gone_at {
			// nothing more comes
			x.fault(K::f_dead);
			gone = true;
			break;
		}
		steps += 1;
		x.now += 20_000_000;
		let k = if x.ch.chance(order) { x.ch.idx(flying.len()) } else { 0 };
		if k > 0 {
			x.fault(K::f_swap);
		}
		// after a while the network is at its best
		let f = if steps < 3 * n as u64 + 20 && x.ch.chance(dup) {
			x.fault(K::f_dup);
			flying[k]
		} else {
			flying.remove(k)
		};
		if steps < 3 * n as u64 + 20 && x.ch.chance(loss) {
			x.fault(K::f_drop);
			continue;
		}
		have[f] = true;
		let mut first = there / each;
		while first < n && have[first] {
			first += 1;
		}
		let now = (first * each).min(b.len());
		if now == there {
			continue;
		}
		there = now;
		if there < b.len() {
			x.fault(K::f_split);
			x.nontrivial = true;
		}
		// as far as it goes
		loop {
			while at < there.min(l.end) && b[at] == 0x2F && l.records.get(next).is_none_or(|r| at < r.0) {
				at += 1;
			}
			let Some((start, end, means)) = l.records.get(next) else { break };
			if at < *start || at >= there {
				break;
			}
			let window = if x.ch.chance(20) { there } else { there.min(at + LONGEST_RECORD) };
			let r = record(x, &b[at..window])?;
			x.count(K::checked);
			let complete = *end <= there;
			let right = match &r {
				Ok((s, used)) => complete && *used == end - start && text::same(s, &format!("{means:?}")),
				Err(_) => !complete,
			};
			if !right {
				return fail(
					if complete { "record-wrong" } else { "record-early" },
					format!(
						"record {next} at {start} of {} bytes, {} of them there: {}\nwas sent as {means:?}\nread from {}",
						end - start,
						there - start,
						short(&r),
						hex(&b[at..window.min(at + 300)])
					),
				);
			}
			x.count(K::records);
			x.state(1 | (complete as u64) << 4 | (b[at] as u64 & 15) << 5 | ((end - start).min(63) as u64) << 9 | ((there - start).min(63) as u64) << 15);
			if !complete {
				break;
			}
			at = *end;
			next += 1;
		}
	}
	let r = frame(x, &b[..there])?;
	x.count(K::checked);
	x.note(|| format!("{there} of {} bytes came over, the receiver has read {next} records: {}", b.len(), short(&r)));
	// what has come over completely
	let whole = l.records.iter().take_while(|r| r.1 <= there).count();
	let torn = l.records.get(whole).is_some_and(|r| r.0 < there);
	x.state(2 | (gone as u64) << 4 | (torn as u64) << 5 | (whole.min(1023) as u64) << 6 | ((there > l.end) as u64) << 16 | (there.checked_ilog2().unwrap_or(0) as u64) << 17);
	let expected = Frame {
		records: l.means.records[..whole].to_vec(),
		more_data_follows: there > l.end && l.means.more_data_follows,
		manufacturer_specific: if there > l.end { b[l.end + 1..there].to_vec() } else { vec![] },
	};
	let right = match &r {
		Ok((s, used)) => !torn && *used == there && text::same(s, &format!("{expected:?}")),
		Err(_) => torn,
	};
	if !right {
		return fail(
			if torn { "list-torn" } else { "list-wrong" },
			format!(
				"{there} of {} bytes with {whole} of {} records complete{}: {}\n{}\nfrom {}",
				b.len(),
				l.records.len(),
				if torn { " and one in part" } else { "" },
				short(&r),
				r.as_ref().map_or(String::new(), |(s, _)| text::difference(&format!("{expected:?}"), s)),
				hex(&b[..there])
			),
		);
	}
	Ok(())
}

/// A message by itself, of any size
fn alone(x: &mut Ctx, t: &Taste) -> Run {
	let meter = gen::meter(&mut x.ch, t);
	let room = match x.ch.weighted(&[50, 40, 10]) {
		0 => gen::MAX_PAYLOAD,
		1 => x.ch.range(250, 3000) as usize,
		_ => x.ch.range(3000, 20_000) as usize,
	};
	let m = if x.ch.chance(400) {
		// a readout
		let codes = gen::all_ci(Want::Readout);
		let ci = x.ch.pick(&codes);
		let h = gen::header(&mut x.ch, ci_kind(ci).expect("known").1, &meter);
		let l = list(&mut x.ch, t, room);
		let mut bytes = vec![ci];
		bytes.extend(h.bytes);
		bytes.extend(l.bytes);
		Enc { bytes, means: MBusMessage::ResponseFromDevice(h.means, l.means) }
	} else {
		gen::message_in(&mut x.ch, t, Want::Any, &meter, None, room)
	};
	let b = &m.bytes;
	x.count(K::telegrams);
	x.mix_bytes(b);
	if b.len() > 1000 {
		x.count(K::big);
		x.nontrivial = true;
	}
	let r = message(x, b)?;
	x.count(K::checked);
	x.note(|| format!("message of {} bytes: {}\n{}", b.len(), hex(b), short(&r)));
	x.state(3 | (b[0] as u64) << 4 | (b.len().ilog2() as u64) << 12 | (r.is_ok() as u64) << 17);
	let expected = format!("{:?}", m.means);
	match &r {
		Ok((s, _)) if text::same(s, &expected) => Ok(()),
		Ok((s, _)) => fail("message-wrong", format!("message of {} bytes: {}\nfrom {}", b.len(), text::difference(&expected, s), hex(b))),
		Err(e) => fail("message-rejected", format!("message of {} bytes: {e}\n{expected}\nfrom {}", b.len(), hex(b))),
	}
}

/// A message around and beyond the sizes at which a count in 16 bits ends
fn huge(x: &mut Ctx, t: &Taste) -> Run {
	let meter = gen::meter(&mut x.ch, t);
	let codes = gen::all_ci(x.ch.pick(&[Want::Readout, Want::Any]));
	let ci = x.ch.pick(&codes);
	let h = gen::header(&mut x.ch, ci_kind(ci).expect("known").1, &meter);
	let mut b = vec![ci];
	b.extend(h.bytes);
	let c = &mut x.ch;
	let n = match c.idx(4) {
		0 => c.pick(&[65_535usize, 65_536, 65_537, 131_072, 131_073]),
		1 => 65_536 + c.range(0, 300) as usize,
		_ => c.range(20_000, 150_000) as usize,
	};
	// each step per byte leaves a mark on the stack, if it is taken by recursion
	let n = if c.chance(200) { 400_000 } else { n };
	let end = b.len() + n;
	let pattern = match c.idx(6) {
		0 => vec![0x2F],
		1 => vec![0x00, c.pick(&[0x13, 0x78, 0x03])],
		2 => {
			// one record of a very long description
			b.extend([0x00, 0x93]);
			vec![0xA1]
		}
		3 => {
			b.push(c.pick(&[0x0F, 0x1F]));
			vec![c.u8()]
		}
		_ => {
			b.push(c.pick(&[0x0F, 0x1F, 0x2F]));
			let k = c.range(1, 40) as usize;
			c.bytes(k)
		}
	};
	while b.len() < end {
		b.extend(&pattern);
	}
	if c.chance(500) {
		b.truncate(end);
	}
	if pattern == [0xA1] && c.chance(800) {
		b.push(0x21);
	}
	x.count(K::telegrams);
	x.count(K::big);
	x.nontrivial = true;
	x.mix_bytes(&b);
	let expected = decode::message(&b).map(|m| format!("{m:?}"));
	let r = message(x, &b)?;
	x.count(K::checked);
	let start = hex(&b[..b.len().min(60)]);
	x.note(|| format!("message of {} bytes that begins {start}: {}", b.len(), short(&r)));
	x.state(5 | (ci as u64) << 4 | (b.len().ilog2() as u64) << 12 | (r.is_ok() as u64) << 17 | (pattern.len() as u64) << 18);
	match (&r, &expected) {
		(Ok((s, _)), Some(e)) if text::same(s, e) => Ok(()),
		(_, None) => Ok(()),
		(Ok((s, _)), Some(e)) => fail("message-wrong", format!("message of {} bytes: {}\nbeginning {start}", b.len(), text::difference(e, s))),
		(Err(e), Some(_)) => fail("message-rejected", format!("message of {} bytes: {e}\nbeginning {start}", b.len())),
	}
}

/// The same content by itself and inside a telegram, corrupted or not
fn inside(x: &mut Ctx, t: &Taste) -> Run {
	let meter = gen::meter(&mut x.ch, t);
	let mut b = gen::message(&mut x.ch, t, Want::Any, &meter, None).bytes;
	if x.ch.chance(600) {
		for _ in 0..x.ch.range(1, 3) {
			line::corrupt(x, &mut b);
		}
		b.truncate(gen::MAX_PAYLOAD);
		x.nontrivial = true;
	}
	if b.is_empty() {
		return Ok(());
	}
	let control = gen::control_any(&mut x.ch).bytes[0];
	let address = gen::address(&mut x.ch);
	either_way(x, control, address, &b)
}

/// Contents that drift towards what the decoder looks for
fn steered(x: &mut Ctx) -> Run {
	let t = sim_worn::taste(x);
	let m = gen::meter(&mut x.ch, &t);
	if x.ch.chance(500) {
		let b = sim_worn::start(x, &t, Want::Any, sim_worn::Where::Anywhere, &m);
		return sim_seek::seek(x, b, Shape::Telegram, &mut |x, b| {
			if b.len() > 8 {
				either_way(x, 0x08, b[5], &b[6..b.len() - 2])
			} else {
				Ok(())
			}
		});
	}
	// lists of any length
	let mut b = Vec::new();
	for _ in 0..x.ch.range(1, 3) {
		if let Some(r) = gen::record(&mut x.ch, &t, 60) {
			b.extend(r.bytes);
		}
	}
	let max = x.ch.pick(&[200, 1000, 6000]);
	sim_seek::seek(x, b, Shape::Raw(max), &mut |x, b| {
		let r = frame(x, b)?;
		let e = decode::frame(b).map(|f| format!("{f:?}"));
		x.count(K::checked);
		match (&e, &r) {
			(Some(e), Ok((s, used))) if *used == b.len() && text::same(e, s) => Ok(()),
			// what is made of records that mean nothing is the business of C13
			(None, Err(_)) => Ok(()),
			(None, Ok((s, _))) => one_by_one(x, b, s),
			(Some(e), _) => fail("list-wrong", format!("{}
meant {e}
from {}", short(&r), hex(b))),
		}
	})
}

fn either_way(x: &mut Ctx, control: u8, address: u8, b: &[u8]) -> Run {
	let telegram = gen::wrap_long(control, address, b);
	x.count(K::telegrams);
	x.mix_bytes(&telegram);
	let r = message(x, b)?;
	let w = x.whole(&telegram)?;
	x.count(K::checked);
	x.note(|| format!("content {}: {}\nin a telegram: {}", hex(b), short(&r), w.short()));
	x.state(4 | (b[0] as u64) << 4 | (b.len() as u64) << 12 | (r.is_ok() as u64) << 20);
	let same = match (&r, &w) {
		(Ok((s, _)), crate::common::Res::T(p, _)) => p.contains(&s[..]),
		(Err(_), crate::common::Res::R(_)) => true,
		_ => false,
	};
	if !same {
		return fail("layers-differ", format!("content {}\nby itself: {}\nin a telegram: {}", hex(b), short(&r), w.short()));
	}
	// and so do the records in it, one by one
	if let Some((decode::Kind::Readout, h)) = ci_kind(b[0]) {
		let at = 1 + match h {
			decode::HeaderKind::None => 0,
			decode::HeaderKind::Short => 4,
			decode::HeaderKind::Long => 12,
		};
		if let (Ok((s, _)), Some(rest)) = (&r, b.get(at..)) {
			one_by_one(x, rest, s)?;
		}
	}
	Ok(())
}

/// The records of a list, taken off its front one after the other, are those of `report`
fn one_by_one(x: &mut Ctx, b: &[u8], report: &str) -> Run {
	let mut at = 0;
	let mut texts = Vec::new();
	while at < b.len() && !matches!(b[at], 0x0F | 0x1F) {
		if b[at] == 0x2F {
			at += 1;
			continue;
		}
		let mut cur = Cur::new(&b[at..]);
		if decode::record_next(&mut cur).is_none() {
			// not a list of records; that it was accepted is the business of C13
			x.count(K::skipped);
			return Ok(());
		}
		match record(x, &b[at..])? {
			Ok((s, used)) if used > 0 => {
				texts.push(s);
				at += used;
			}
			r => return fail("layers-differ", format!("record at {at} of {} which is accepted as part of a message: {}", hex(b), short(&r))),
		}
	}
	let all = format!("records: [{}]", texts.join(", "));
	if !report.contains(&all) {
		return fail("layers-differ", format!("records of {} one by one: {all}\nin the message: {report}", hex(b)));
	}
	Ok(())
}
