//! Several senders on one line, one listener: C04, C05 and C06.
//!
//! Transmissions are put on a line of byte-wide slots at simulated times. What overlaps collides,
//! what the weather hits is damaged, what arrives clean after a pause must be reported exactly as
//! its sender meant it.
use crate::ctx::*;
use crate::seam;
use crate::line::{self, Weather};
use crate::model::decode::{self, HeaderKind, Link};
use crate::model::gen::{self, Meter, Taste, Want};
use crate::model::text::{self, Node};
use crate::model::types::*;
use crate::common::*;
use crate::sim_link::{Receiver, BYTE_NS};
use crate::sim_worn::{self, Where};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Topic {
	Readings,
	Attribution,
	Messages,
}

const PAUSE_SLOTS: u64 = 12;

struct Tx {
	at: u64,
	sender: usize,
	bytes: Vec<u8>,
	/// as sent, undamaged
	clean: bool,
	meant: String,
}

/// The part of a report a property is about; `None` if it is not about this report at all
fn part(topic: Topic, n: &Node) -> Option<Node> {
	let field = |n: &Node, k: &str| match n {
		Node::Named(_, f) => f.iter().find(|x| x.0 == k).map(|x| x.1.clone()),
		_ => None,
	};
	let message = field(n, "message");
	let is_long = matches!(n, Node::Named(name, _) if name == "Long");
	match topic {
		Topic::Readings => {
			let Some(Node::Tuple(kind, args)) = message.filter(|_| is_long) else { return None };
			if kind == "ResponseFromDevice" {
				args.into_iter().nth(1)
			} else {
				None
			}
		}
		Topic::Attribution => {
			let mut v = vec![field(n, "control")?, field(n, "address")?];
			if is_long {
				v.push(match message? {
					Node::Tuple(_, args) => args
						.into_iter()
						.find(|a| match a {
							Node::Atom(a) => a == "None",
							Node::Tuple(n, _) => n == "Long" || n == "Short",
							_ => false,
						})
						.unwrap_or(Node::Atom("no header".into())),
					_ => Node::Atom("no header".into()),
				});
			}
			Some(Node::List(v))
		}
		Topic::Messages => {
			if let Some(Node::Tuple(kind, _)) = &message {
				if is_long && kind == "ResponseFromDevice" {
					// whatever the records are, it is reported as a readout
					return Some(Node::Atom("readout".into()));
				}
			}
			Some(n.clone())
		}
	}
}

fn same_part(topic: Topic, expected: &str, got: &str) -> Result<bool, Fail> {
	if expected == got {
		return Ok(true);
	}
	let (Some(e), Some(g)) = (text::parse(expected), text::parse(got)) else {
		return broken(format!("cannot read report {got}"));
	};
	Ok(match part(topic, &e) {
		None => true,
		Some(pe) => part(topic, &g) == Some(pe),
	})
}

fn content(x: &mut Ctx, topic: Topic, t: &Taste, meters: &[Meter]) -> (usize, gen::Enc<Packet>) {
	let m = x.ch.idx(meters.len());
	let address = match x.ch.idx(3) {
		0 => gen::address(&mut x.ch),
		_ => m as u8 + 1,
	};
	let c = &mut x.ch;
	match topic {
		Topic::Readings => {
			let ctl = gen::secondary(c);
			let msg = gen::message(c, t, Want::Readout, &meters[m], None);
			(m + 1, gen::long(ctl, address, msg))
		}
		Topic::Attribution => {
			if c.chance(150) {
				let ctl = gen::control_any(c);
				return (m + 1, gen::short(ctl, address));
			}
			let ctl = gen::control_any(c);
			let want = if c.chance(600) { Want::Readout } else { Want::Other };
			let mut msg = gen::message(c, t, want, &meters[m], None);
			if msg.bytes.len() > 120 && c.chance(700) {
				msg = gen::message(c, t, Want::Readout, &meters[m], Some(false));
			}
			(m + 1, gen::long(ctl, address, msg))
		}
		Topic::Messages => match c.weighted(&[65, 25, 5, 5]) {
			0 => {
				let ctl = gen::control_any(c);
				let msg = gen::message(c, t, Want::Other, &meters[m], None);
				(m + 1, gen::long(ctl, address, msg))
			}
			1 => {
				let ctl = gen::control_any(c);
				(if matches!(ctl.means, Control::Primary { .. }) { 0 } else { m + 1 }, gen::short(ctl, address))
			}
			2 => (m + 1, gen::ack()),
			_ => {
				let ctl = gen::secondary(c);
				let msg = gen::message(c, t, Want::Readout, &meters[m], None);
				(m + 1, gen::long(ctl, address, msg))
			}
		},
	}
}

pub fn c04(x: &mut Ctx) -> Run {
	bus(x, Topic::Readings)
}
pub fn c05(x: &mut Ctx) -> Run {
	bus(x, Topic::Attribution)
}
pub fn c06(x: &mut Ctx) -> Run {
	bus(x, Topic::Messages)
}

fn bus(x: &mut Ctx, topic: Topic) -> Run {
	let mut t = Taste::draw(&mut x.ch);
	if topic != Topic::Readings {
		t.max_records = x.ch.pick(&[1, 0, 2]);
		t.known_maker = x.ch.pick(&[800, 300, 950]);
		if topic == Topic::Attribution {
			t.manufacturer_tail = t.manufacturer_tail.min(150);
		}
	}
	let w = Weather::draw(&mut x.ch);
	let n_meters = x.ch.range(1, 5) as usize;
	let mut meters: Vec<Meter> = (0..n_meters).map(|_| gen::meter(&mut x.ch, &t)).collect();
	let overlap = x.ch.pick(&[60, 0, 200]);
	let dup = x.ch.pick(&[80, 0, 300]);
	let drop = x.ch.pick(&[40, 0, 200]);
	let mut txs: Vec<Tx> = Vec::new();
	let mut slot = PAUSE_SLOTS;
	let rounds = x.ch.range(3, 24);
	for _ in 0..rounds {
		x.ch.segment();
		if x.ch.chance(300) {
			// another meter takes this one's place
			let i = x.ch.idx(n_meters);
			meters[i] = gen::meter(&mut x.ch, &t);
		}
		let (sender, e) = content(x, topic, &t, &meters);
		let meant = format!("{:?}", e.means);
		// the model has to agree with itself before it judges anybody
		match decode::packet(&e.bytes) {
			Some(p) if format!("{p:?}") == meant => {}
			other => {
				return broken(format!(
					"model disagrees with itself: {} is meant to be {meant}, decoded as {other:?}",
					hex(&e.bytes)
				))
			}
		}
		x.count(K::telegrams);
		if x.ch.chance(drop) {
			x.fault(K::f_drop);
			continue;
		}
		let start = match x.ch.weighted(&[1000 - 2 * overlap as u32, 150, overlap as u32]) {
			0 => slot + PAUSE_SLOTS + x.ch.below(40),
			1 => slot,
			_ => {
				x.fault(K::f_collide);
				slot.saturating_sub(x.ch.range(1, 60)).max(1)
			}
		};
		let mut bytes = e.bytes.clone();
		let damaged = line::damage(x, &w, &mut bytes);
		slot = slot.max(start + bytes.len() as u64);
		x.note(|| {
			format!("slot {start}: {sender} sends {}{}: {meant}", hex(&bytes), if damaged { " (damaged)" } else { "" })
		});
		txs.push(Tx { at: start, sender, bytes, clean: !damaged, meant: meant.clone() });
		if x.ch.chance(dup) {
			// sent once more, right away or later
			x.fault(K::f_dup);
			let at = if x.ch.chance(500) { slot } else { slot + PAUSE_SLOTS + x.ch.below(100) };
			slot = at + e.bytes.len() as u64;
			txs.push(Tx { at, sender, bytes: e.bytes.clone(), clean: true, meant: meant.clone() });
			x.note(|| format!("slot {at}: {sender} repeats"));
		}
		if topic == Topic::Readings && x.ch.chance(60) {
			direct(x, &t)?;
		}
	}
	if x.ch.chance(120) {
		counting(x, topic, &meters)?;
	}
	listen(x, topic, &mut txs)
}

/// One register of a meter runs through all of its values
fn counting(x: &mut Ctx, topic: Topic, meters: &[Meter]) -> Run {
	if topic == Topic::Readings && x.ch.chance(200) {
		return sim_worn::fields(x, &mut |_, b, e, got| match (e, got) {
			(Some(e), Ok(g)) if e != g => {
				fail("reported-wrong", format!("field {}: {} in {} bytes, reported as {} in {}", hex(b), e.0, e.1, g.0, g.1))
			}
			(Some(e), Err(err)) => fail("not-reported", format!("field {} rejected ({err}), meant {}", hex(b), e.0)),
			_ => Ok(()),
		});
	}
	let t = sim_worn::taste(x);
	let m = meters[x.ch.idx(meters.len())].clone();
	let (want, at) = match topic {
		Topic::Readings => (Want::Readout, Where::Content),
		Topic::Attribution => (Want::Any, Where::Link),
		Topic::Messages => (Want::Other, Where::Anywhere),
	};
	sim_worn::wear(x, &t, want, at, &m, &mut |x, b| {
		// values without a legal meaning are not this property's business
		let Some(p) = decode::packet(b) else { return Ok(()) };
		let meant = format!("{p:?}");
		x.count(K::checked);
		match x.whole(b)? {
			Res::T(got, _) => {
				if !same_part(topic, &meant, &got)? {
					return fail(
						"reported-wrong",
						format!("telegram {}\n{}", hex(b), text::difference(&meant, &got)),
					);
				}
			}
			_ if excused(x, topic, b)? => x.count(K::skipped),
			other => {
				return fail(
					"not-reported",
					format!("undamaged telegram {} was not reported ({}), meant: {meant}", hex(b), other.short()),
				)
			}
		}
		Ok(())
	})
}

/// Put the transmissions on the line and judge what the listener reports
fn listen(x: &mut Ctx, topic: Topic, txs: &mut [Tx]) -> Run {
	txs.sort_by_key(|t| (t.at, t.sender));
	let mut wire: BTreeMap<u64, (u8, usize)> = BTreeMap::new();
	for (i, t) in txs.iter().enumerate() {
		for (k, b) in t.bytes.iter().enumerate() {
			wire.entry(t.at + k as u64)
				.and_modify(|e| {
					e.0 &= b;
					e.1 = usize::MAX;
				})
				.or_insert((*b, i));
		}
	}
	for i in 0..txs.len() {
		let t = &txs[i];
		let hit = (0..t.bytes.len() as u64).any(|k| wire[&(t.at + k)].1 != i);
		if hit && t.clean {
			txs[i].clean = false;
			x.nontrivial = true;
		}
		if !txs[i].clean {
			x.nontrivial = true;
		}
	}
	let mut rx = Receiver::new(x.ch.chance(500));
	let slots: Vec<(u64, u8)> = wire.iter().map(|(k, v)| (*k, v.0)).collect();
	let mut i = 0;
	while i < slots.len() {
		let mut j = i + 1;
		while j < slots.len() && slots[j].0 - slots[j - 1].0 < PAUSE_SLOTS {
			j += 1;
		}
		let burst: Vec<u8> = slots[i..j].iter().map(|s| s.1).collect();
		let (lo, hi) = (slots[i].0, slots[j - 1].0);
		i = j;
		// gaps inside a burst do not matter, but nothing that was hit may come before
		let mut must: Vec<(&Tx, usize)> = Vec::new();
		let mut all_clean = true;
		let mut at = 0;
		for t in txs.iter().filter(|t| t.at >= lo && t.at <= hi && !t.bytes.is_empty()) {
			if !t.clean {
				all_clean = false;
			}
			at += t.bytes.len();
			if all_clean {
				must.push((t, at));
			}
		}
		x.now = x.now.max(lo * BYTE_NS);
		let mut heard = Vec::new();
		let mut k = 0;
		for p in line::pieces(&mut x.ch, burst.len()) {
			rx.buf.extend(&burst[k..k + p]);
			k += p;
			x.now += p as u64 * BYTE_NS;
			rx.poll(x, &mut heard)?;
		}
		rx.pause(x, &mut heard)?;
		x.mix_bytes(&burst);
		x.mix(heard.len() as u64);
		x.state(must.len() as u64 | (all_clean as u64) << 4 | (heard.len().min(15) as u64) << 5 | (burst.get(6).copied().unwrap_or(0) as u64) << 9);
		for h in &heard {
			x.note(|| format!("heard {}: {}", hex(&h.bytes), h.text));
		}
		// the undamaged telegrams, one by one
		for (n, (t, _)) in must.iter().enumerate() {
			x.count(K::checked);
			let Some(h) = heard.get(n) else {
				if excused(x, topic, &t.bytes)? {
					x.count(K::skipped);
					break;
				}
				return fail(
					"not-reported",
					format!("undamaged telegram {} was not reported, meant: {}", hex(&t.bytes), t.meant),
				);
			};
			if h.bytes != t.bytes {
				if excused(x, topic, &t.bytes)? {
					x.count(K::skipped);
					break;
				}
				return fail(
					"not-reported",
					format!("undamaged telegram {} was not reported, but {}, meant: {}", hex(&t.bytes), h.text, t.meant),
				);
			}
			if !same_part(topic, &t.meant, &h.text)? {
				return fail(
					"reported-wrong",
					format!("telegram {}\n{}", hex(&t.bytes), text::difference(&t.meant, &h.text)),
				);
			}
		}
		if all_clean && heard.len() > must.len() {
			return fail("added", format!("reported but never sent: {}", heard[must.len()].text));
		}
		// everything else that was taken for a telegram
		for h in heard.iter().skip(must.len()) {
			let original = txs.iter().find(|t| t.clean && t.bytes == h.bytes);
			let meant = match original {
				Some(t) => Some(t.meant.clone()),
				None => {
					if decode::link(&h.bytes) != Link::Valid(h.bytes.len()) {
						return fail("added", format!("damaged bytes {} reported as {}", hex(&h.bytes), h.text));
					}
					x.count(K::collisions_pass);
					decode::packet(&h.bytes).map(|p| format!("{p:?}"))
				}
			};
			if let Some(meant) = meant {
				x.count(K::checked);
				if !same_part(topic, &meant, &h.text)? {
					return fail(
						"reported-wrong",
						format!("telegram {}\n{}", hex(&h.bytes), text::difference(&meant, &h.text)),
					);
				}
			}
		}
	}
	Ok(())
}

/// A telegram that is not reported at all is a matter of attribution only if its control, address
/// and header are to blame, and of messages only if it is not a readout
fn excused(x: &mut Ctx, topic: Topic, b: &[u8]) -> Result<bool, Fail> {
	if b[0] != 0x68 {
		return Ok(false);
	}
	let (kind, hk) = match decode::ci_kind(b[6]) {
		Some(k) => k,
		None => return broken("unknown control information sent"),
	};
	let readout = kind == decode::Kind::Readout;
	match topic {
		Topic::Readings => Ok(false),
		Topic::Messages => Ok(readout),
		Topic::Attribution => {
			// the same with nothing behind the header
			let n = match hk {
				HeaderKind::None => 0,
				HeaderKind::Short => 4,
				HeaderKind::Long => 12,
			};
			let ci = match hk {
				HeaderKind::None => 0x78,
				HeaderKind::Short => 0x7A,
				HeaderKind::Long => 0x72,
			};
			let mut p = vec![ci];
			p.extend(&b[7..7 + n]);
			let bare = gen::wrap_long(b[4], b[5], &p);
			Ok(x.whole(&bare)?.accepted())
		}
	}
}

/// The record decoder on its own, as it can be called by anyone
fn direct(x: &mut Ctx, t: &Taste) -> Run {
	let mut all = Vec::new();
	let mut meant = Vec::new();
	for _ in 0..x.ch.range(1, 4) {
		if let Some(r) = gen::record(&mut x.ch, t, 120) {
			meant.push((r.bytes.len(), format!("{:?}", r.means)));
			all.extend(r.bytes);
		}
	}
	let mut at = 0;
	for (n, m) in meant {
		let rest = &all[at..];
		let got = x.lib("record decode", || match mbdrive::record(seam::put(rest)) {
			Ok((r, used)) => Ok((format!("{r:?}"), used)),
			Err(e) => Err(format!("{e}")),
		})?;
		x.count(K::records);
		match got {
			Ok((r, used)) if used == n && text::same(&m, &r) => {}
			Ok((r, used)) => {
				return fail(
					"reported-wrong",
					format!("record {}, {n} bytes, {used} used\n{}", hex(rest), text::difference(&m, &r)),
				)
			}
			Err(e) => return fail("not-reported", format!("record {} rejected ({e}), meant {m}", hex(rest))),
		}
		at += n;
	}
	Ok(())
}
