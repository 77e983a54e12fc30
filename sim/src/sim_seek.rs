//! A meter whose memory drifts towards what the decoder looks for: after each transmission one
//! of the values the decoder compared with something is changed into what it was compared with
//! (or a list grows to a length that was asked about), and the meter goes on from there whenever
//! that led to a place in the decoder that had not been reached before. So single unusual values, and
//! several of them that have to come together, are met that blind chance would not find.
//!
//! What is sent is recorded byte by byte among the decisions, so that a replay does not depend on
//! what the decoder compares.
use crate::choice::mix;
use crate::ctx::*;
use crate::model::decode;
use crate::model::gen;
use crate::seam::{self, Cmp, Seen};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{BuildHasher, Hasher};

/// The same in every run
#[derive(Default, Clone, Copy)]
struct Plainly(u64);
impl BuildHasher for Plainly {
	type Hasher = Plainly;
	fn build_hasher(&self) -> Plainly {
		Plainly(0)
	}
}
impl Hasher for Plainly {
	fn finish(&self) -> u64 {
		self.0
	}
	fn write(&mut self, b: &[u8]) {
		for v in b {
			self.write_u64(*v as u64);
		}
	}
	fn write_u32(&mut self, v: u32) {
		self.write_u64(v as u64);
	}
	fn write_u64(&mut self, v: u64) {
		self.0 = mix(self.0.rotate_left(7) ^ v);
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape {
	/// a telegram that stays intact as far as the link is concerned
	Telegram,
	/// any bytes, up to that many
	Raw(usize),
}

struct Rng(u64);
impl Rng {
	fn below(&mut self, n: usize) -> usize {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		((mix(self.0) as u128 * n as u128) >> 64) as usize
	}
	fn chance(&mut self, per_mille: usize) -> bool {
		self.below(1000) < per_mille
	}
	fn pick<T: Copy>(&mut self, v: &[T]) -> T {
		v[self.below(v.len())]
	}
}

/// the part of the bytes that may change freely
fn region(b: &[u8], shape: Shape) -> (usize, usize) {
	match shape {
		Shape::Raw(_) => (0, b.len()),
		Shape::Telegram if b.len() > 8 => (4, b.len() - 2),
		Shape::Telegram => (1, b.len().saturating_sub(2).max(1).min(b.len())),
	}
}

fn little(b: &[u8]) -> u64 {
	b.iter().rev().fold(0, |a, v| a << 8 | *v as u64)
}

fn big(b: &[u8]) -> u64 {
	b.iter().fold(0, |a, v| a << 8 | *v as u64)
}

fn decimal(out: &mut [u8], mut v: u64) {
	for o in out {
		*o = (v % 10) as u8 | ((v / 10 % 10) as u8) << 4;
		v /= 100;
	}
}

fn signed(v: u64, size: u8) -> i64 {
	let s = 64 - 8 * (size as u32).min(8);
	(v << s) as i64 >> s
}

fn digits(b: &[u8]) -> Option<u64> {
	b.iter().rev().try_fold(0u64, |a, v| {
		if v >> 4 > 9 || v & 15 > 9 {
			return None;
		}
		Some(a * 100 + (v >> 4) as u64 * 10 + (v & 15) as u64)
	})
}

/// `v` as `w` bytes, if it fits with or without a sign
fn fits(v: u64, w: usize, size: u8) -> bool {
	if w >= size as usize {
		return w == size as usize || v < 1 << (8 * size as u32).min(63);
	}
	let rest = v >> (8 * w);
	let all = if size >= 8 { u64::MAX >> (8 * w) } else { ((1u64 << (8 * size)) - 1) >> (8 * w) };
	rest == 0 || (rest == all && v >> (8 * w - 1) & 1 == 1)
}

struct Edit {
	at: usize,
	bytes: [u8; 9],
	n: usize,
}

fn matches(b: &[u8], lo: usize, hi: usize, have: u64, want: u64, size: u8) -> (Vec<Edit>, Vec<Edit>) {
	let mut wide = Vec::new();
	let mut narrow = Vec::new();
	let mut put = |at: usize, v: &[u8]| {
		let mut e = Edit { at, bytes: [0; 9], n: v.len() };
		e.bytes[..v.len()].copy_from_slice(v);
		if v.len() > 1 {
			wide.push(e);
		} else {
			narrow.push(e);
		}
	};
	let (less, minus) = (signed(have, size), signed(want, size));
	let widths: Vec<usize> =
		[1usize, 2, 3, 4, 6, 8].into_iter().filter(|w| fits(have, *w, size) && fits(want, *w, size)).collect();
	// which numbers of digits can hold both of them
	let negative = less < 0 && less > -100_000_000_000_000_000;
	let positive = !negative && have < 100_000_000_000_000_000;
	let below: Vec<usize> = (1..=9usize)
		.filter(|w| minus.unsigned_abs() < 10u64.pow(2 * *w as u32 - 1) && (negative || minus < 0))
		.filter(|w| if negative { less.unsigned_abs() < 10u64.pow(2 * *w as u32 - 1) } else { *w == 9 || have < 100u64.pow(*w as u32) })
		.collect();
	let above: Vec<usize> =
		(1..=9usize).filter(|w| (*w == 9 || want < 100u64.pow(*w as u32)) && (*w == 9 || have < 100u64.pow(*w as u32))).collect();
	for at in lo..hi {
		for w in &widths {
			let w = *w;
			if at + w > hi {
				break;
			}
			let mask = if w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
			let s = &b[at..at + w];
			if little(s) == have & mask {
				put(at, &want.to_le_bytes()[..w]);
			} else if w > 1 && big(s) == have & mask {
				put(at, &want.to_be_bytes()[8 - w..]);
			}
		}
		if negative {
			for w in &below {
				let w = *w;
				if at + w > hi || b[at + w - 1] < 0xF0 {
					continue;
				}
				let mut d = [0u8; 9];
				d[..w].copy_from_slice(&b[at..at + w]);
				d[w - 1] &= 0x0F;
				if digits(&d[..w]) == Some(less.unsigned_abs()) {
					let mut out = [0u8; 9];
					decimal(&mut out[..w], minus.unsigned_abs());
					if minus < 0 {
						out[w - 1] |= 0xF0;
					}
					put(at, &out[..w]);
				}
			}
		} else if positive && (b[at] & 15) as u64 == have % 10 && (b[at] >> 4) as u64 == have / 10 % 10 {
			for w in &below {
				let w = *w;
				if at + w <= hi && digits(&b[at..at + w]) == Some(have) {
					let mut out = [0u8; 9];
					decimal(&mut out[..w], minus.unsigned_abs());
					out[w - 1] |= 0xF0;
					put(at, &out[..w]);
				}
			}
			for w in &above {
				let w = *w;
				if at + w <= hi && digits(&b[at..at + w]) == Some(have) {
					let mut out = [0u8; 9];
					decimal(&mut out[..w], want);
					put(at, &out[..w]);
				}
			}
		}
		if have < 128 && want < 128 {
			for (shift, mask) in [(0, 0x7Fu8), (0, 0x3F), (0, 0x1F), (0, 0x0F), (4, 0x0F), (5, 7), (6, 3), (4, 3), (0, 3), (3, 15)] {
				if (b[at] >> shift & mask) as u64 == have && want <= mask as u64 {
					put(at, &[b[at] & !(mask << shift) | (want as u8) << shift]);
				}
			}
		}
	}
	// fields that are scattered
	for at in lo..hi.saturating_sub(1) {
		if have < 128 && want < 128 && (b[at] >> 5 | b[at + 1] >> 4 << 3) as u64 == have {
			// the year of a date
			put(at, &[b[at] & 0x1F | (want as u8) << 5, b[at + 1] & 0x0F | (want as u8) >> 3 << 4]);
		}
	}
	for at in lo..hi {
		// storage number, tariff and device of a record
		let mut n = 0;
		while at + n + 1 < hi && n < 10 && b[at + n] & 0x80 != 0 {
			n += 1;
		}
		let d = &b[at + 1..at + 1 + n];
		let gather = |bits: u32, shift: u32, first: u64, offset: u32| {
			d.iter().enumerate().fold(first, |a, (i, v)| {
				let k = i as u32 * bits + offset;
				if k >= 64 {
					return a;
				}
				a | ((v >> shift) as u64 & ((1 << bits) - 1)) << k
			})
		};
		for (bits, shift, first, offset) in [(4u32, 0u32, (b[at] >> 6 & 1) as u64, 1u32), (2, 4, 0, 0), (1, 6, 0, 0)] {
			if gather(bits, shift, first, offset) != have || (n == 0 && offset == 0) {
				continue;
			}
			let room = n as u32 * bits + offset;
			if room < 64 && want >> room != 0 {
				continue;
			}
			let mut v = [0u8; 11];
			v[0] = b[at];
			if offset == 1 {
				v[0] = v[0] & !0x40 | ((want & 1) as u8) << 6;
			}
			for i in 0..n {
				let k = i as u32 * bits + offset;
				let part = if k >= 64 { 0 } else { (want >> k) as u8 & ((1 << bits) - 1) };
				v[i + 1] = d[i] & !(((1 << bits) - 1) << shift) | part << shift;
			}
			if n < 9 {
				put(at, &v[..n + 1]);
			}
		}
	}
	(wide, narrow)
}

/// A record at `at` gets more room for its storage number, tariff and device
fn widen(b: &mut Vec<u8>, at: usize, n: usize) {
	let mut end = at;
	while end + 1 < b.len() && b[end] & 0x80 != 0 {
		end += 1;
	}
	b[end] |= 0x80;
	for k in 0..n {
		b.insert(end + 1, if k == 0 { 0 } else { 0x80 });
	}
}

/// The decoder compared `have` with `want`, which is not in the bytes: perhaps it is about how
/// much there is
fn stretch(r: &mut Rng, b: &[u8], shape: Shape, have: u64, want: u64) -> Vec<u8> {
	let (lo, hi) = match shape {
		Shape::Telegram if b.len() > 8 => (6 + 1 + head(b), b.len() - 2),
		_ => region(b, shape),
	};
	let lo = lo.min(hi);
	let mut v = b[lo..hi].to_vec();
	let cap = match shape {
		Shape::Raw(n) => n,
		Shape::Telegram => gen::MAX_PAYLOAD.saturating_sub(lo - 6.min(lo)),
	};
	let want = want.min(5000) as usize;
	let more = want.saturating_sub(have.min(5000) as usize);
	let at = r.below(v.len() + 1);
	match r.below(8) {
		6 if !v.is_empty() => {
			let n = 1 + r.below(4);
			widen(&mut v, if r.chance(500) { 0 } else { at.min(b.len()) }.min(hi - lo - 1), n);
		}
		7 => {
			// the very thing
			let w = r.pick(&[1usize, 2, 3, 4, 6, 8]);
			let s = &(want as u64).to_le_bytes()[..w];
			if r.chance(500) && at + w <= v.len() {
				v[at..at + w].copy_from_slice(s);
			} else {
				v.splice(at..at, s.iter().copied());
			}
		}
		0 => {
			// as long as that, in one sense or another
			let n = want.saturating_sub(r.pick(&[0, 0, 0, 1, 2, 4, 5, 6, 12, 13, 14, 16, 17, 19]));
			let fill = if r.chance(500) { 0x2F } else { v.last().copied().unwrap_or(0) };
			if n >= v.len() && r.chance(500) {
				let k = (n - v.len()).min(cap);
				v.splice(0..0, std::iter::repeat(0x2F).take(k));
			} else {
				v.resize(n.min(cap), fill);
			}
		}
		1 => {
			// as many of them
			let one: &[u8] = r.pick(&[&[0x00, 0x13], &[0x01, 0x13, 0x07], &[0x2F], &[0x01, 0xFD, 0x17, 0x00]]);
			let k = more.min(cap / one.len());
			v.splice(0..0, one.repeat(k));
		}
		2 if !v.is_empty() => {
			let n = 1 + r.below(8.min(v.len()));
			let at = r.below(v.len() - n + 1);
			let k = if r.chance(500) { more } else { 1 + r.below(4) };
			let s = v[at..at + n].repeat(k.min(cap / n + 1));
			v.splice(at..at, s);
		}
		3 if !v.is_empty() => {
			let n = 1 + r.below(8.min(v.len()));
			let at = r.below(v.len() - n + 1);
			v.drain(at..at + n);
		}
		4 => v.insert(at, want as u8),
		_ => {
			if let Some(p) = v.get_mut(at) {
				*p = want as u8;
			}
		}
	}
	v.truncate(cap);
	let mut out = b[..lo].to_vec();
	out.extend(v);
	out.extend(&b[hi..]);
	out
}

fn head(b: &[u8]) -> usize {
	match b.get(6).and_then(|c| decode::ci_kind(*c)) {
		Some((_, decode::HeaderKind::Short)) => 4,
		Some((_, decode::HeaderKind::Long)) => 12,
		_ => 0,
	}
}

/// Length and checksum as they have to be
fn intact(b: Vec<u8>, shape: Shape) -> Vec<u8> {
	match shape {
		Shape::Raw(_) => b,
		Shape::Telegram if b.len() > 8 => {
			let end = (b.len() - 2).min(6 + gen::MAX_PAYLOAD);
			gen::wrap_long(b[4], b[5], &b[6..end])
		}
		Shape::Telegram if b.len() == 5 => gen::wrap_short(b[1], b[2]),
		Shape::Telegram => b,
	}
}

struct Search {
	rng: Rng,
	tried: HashSet<(u32, u64, u64), Plainly>,
	/// when an edge of the decoder was reached first
	found: Vec<Option<u32>>,
	reached: u64,
	/// how often, in powers of two
	often: Vec<u32>,
	/// what was looked for and found
	met: HashSet<(u32, u64), Plainly>,
	latest: u32,
	/// which comparisons (place, what was looked for) a change of the byte there makes a difference to
	moves: Vec<Vec<(u32, u64)>>,
}

fn seen_nothing(s: &Seen) -> bool {
	s.cmps.is_empty() && s.strings.is_empty()
}

/// What was compared, in order
struct View {
	keys: Vec<(u32, u64, u64)>,
	/// which comparisons there were at each place
	sites: Vec<(u32, Vec<usize>)>,
	/// those at places found last, at that time
	news: Option<(u32, Vec<usize>)>,
}

impl View {
	fn of(s: &Seen) -> View {
		let mut all: Vec<usize> = (0..s.cmps.len()).collect();
		all.sort_by_key(|i| s.cmps[*i].site);
		let mut sites: Vec<(u32, Vec<usize>)> = Vec::new();
		for i in all {
			match sites.last_mut() {
				Some((at, v)) if *at == s.cmps[i].site => v.push(i),
				_ => sites.push((s.cmps[i].site, vec![i])),
			}
		}
		View { keys: keys(s), sites, news: None }
	}
}

impl Search {
	fn propose(&mut self, b: &[u8], seen: &Seen, view: &mut View, shape: Shape) -> Vec<u8> {
		let (lo, hi) = region(b, shape);
		for _ in 0..12 {
			if seen_nothing(seen) || hi <= lo {
				break;
			}
			if !seen.strings.is_empty() && self.rng.chance(if seen.cmps.is_empty() { 1000 } else { 150 }) {
				if let Some(v) = self.strings(b, seen, lo, hi) {
					return intact(v, shape);
				}
				continue;
			}
			if seen.cmps.is_empty() {
				continue;
			}
			if let Some(v) = self.numbers(b, &seen.cmps, view, shape, lo, hi) {
				return intact(v, shape);
			}
		}
		let r = &mut self.rng;
		let mut out = b.to_vec();
		if hi > lo {
			let at = lo + r.below(hi - lo);
			out[at] = if r.chance(500) { out[at] ^ 1 << r.below(8) } else { r.below(256) as u8 };
		}
		intact(out, shape)
	}

	#[allow(clippy::too_many_arguments)]
	fn numbers(&mut self, b: &[u8], seen: &[Cmp], view: &mut View, shape: Shape, lo: usize, hi: usize) -> Option<Vec<u8>> {
		let r = &mut self.rng;
		let mut e = seen[r.below(seen.len())];
		if r.chance(500) {
			// all places alike
			let there = &view.sites[r.below(view.sites.len())].1;
			e = seen[there[r.below(there.len())]];
		}
		if self.latest > 0 && r.chance(600) {
			// first of all what has been found last
			if view.news.as_ref().map(|n| n.0) != Some(self.latest) {
				let found = |e: &Cmp| self.found.get(e.site as usize).copied().flatten() == Some(self.latest);
				let v = seen.iter().enumerate().filter(|(_, e)| found(e)).map(|(i, _)| i).collect();
				view.news = Some((self.latest, v));
			}
			let news = &view.news.as_ref().expect("just put there").1;
			if !news.is_empty() {
				e = seen[news[r.below(news.len())]];
			}
		}
		let max = if e.size >= 8 { u64::MAX } else { (1 << (8 * e.size)) - 1 };
		let want = match r.below(8) {
			0 => e.want.wrapping_add(1) & max,
			1 => e.want.wrapping_sub(1) & max,
			_ => e.want,
		};
		if !self.tried.insert((e.site, want, e.have)) && r.chance(800) {
			return None;
		}
		let (wide, narrow) = matches(b, lo, hi, e.have, want, e.size);
		let any = wide.len() + narrow.len();
		if e.have < 256 && want < 256 && shape == Shape::Telegram && r.chance(if any == 0 { 400 } else { 30 }) {
			// perhaps it is about the checksum
			let mut out = b.to_vec();
			let at = lo + r.below(hi - lo);
			out[at] = out[at].wrapping_add((want as u8).wrapping_sub(e.have as u8));
			return Some(out);
		}
		if any == 0 || (e.have < 256 && r.chance(250)) {
			if want > 5000 && any == 0 && r.chance(700) {
				return None;
			}
			return Some(stretch(r, b, shape, e.have, want));
		}
		let mut from = if wide.is_empty() || (!narrow.is_empty() && r.chance(300)) { narrow } else { wide };
		if self.moves.len() == b.len() && r.chance(850) {
			// where it comes from, if that is known: the bytes that matter to the fewest others
			let key = (e.site, e.want);
			let rank = |e: &Edit| {
				self.moves[e.at..e.at + e.n].iter().filter(|m| m.binary_search(&key).is_ok()).map(|m| m.len()).min().unwrap_or(usize::MAX)
			};
			let mut ranked: Vec<(usize, Edit)> = from.into_iter().map(|e| (rank(&e), e)).collect();
			ranked.sort_by_key(|e| e.0);
			let (best, any) = (ranked[0].0, ranked.iter().filter(|e| e.0 < usize::MAX).count());
			if any == 0 {
				return None;
			}
			let few = r.chance(700);
			from = ranked.into_iter().filter(|e| if few { e.0 == best } else { e.0 < usize::MAX }).map(|e| e.1).collect();
		}
		let e = &from[r.below(from.len())];
		let mut out = b.to_vec();
		out[e.at..e.at + e.n].copy_from_slice(&e.bytes[..e.n]);
		Some(out)
	}

	/// One string becomes the other, in one direction or the other of the line
	fn strings(&mut self, b: &[u8], seen: &Seen, lo: usize, hi: usize) -> Option<Vec<u8>> {
		let r = &mut self.rng;
		let s = seen.strings[r.below(seen.strings.len())];
		let mut pairs = Vec::new();
		for (have, want) in [(&s.a[..s.n], &s.b[..s.n]), (&s.b[..s.n], &s.a[..s.n])] {
			pairs.push((have.to_vec(), want.to_vec()));
			pairs.push((have.iter().rev().copied().collect(), want.iter().rev().copied().collect()));
			if let (Some(h), Some(w)) = (maker(have), maker(want)) {
				pairs.push((h.to_le_bytes().to_vec(), w.to_le_bytes().to_vec()));
			}
		}
		let mut all = Vec::new();
		for (have, want) in &pairs {
			for at in lo..hi.saturating_sub(have.len() - 1) {
				if b[at..at + have.len()] == have[..] {
					all.push((at, want));
				}
			}
		}
		let mut out = b.to_vec();
		if all.is_empty() || r.chance(100) {
			let (_, want) = &pairs[r.below(pairs.len())];
			let at = lo + r.below(hi - lo);
			let n = want.len().min(hi - at);
			out[at..at + n].copy_from_slice(&want[..n]);
		} else {
			let (at, want) = all[r.below(all.len())];
			out[at..at + want.len()].copy_from_slice(want);
		}
		Some(out)
	}
}

/// Three letters as they are packed into two bytes
fn maker(s: &[u8]) -> Option<u16> {
	if s.len() != 3 || !s.iter().all(|c| (64..96).contains(c)) {
		return None;
	}
	Some(s.iter().fold(0, |a, c| a << 5 | (c - 64) as u16))
}

/// From `start` on, judging everything that is sent
pub fn seek(x: &mut Ctx, start: Vec<u8>, shape: Shape, judge: &mut dyn FnMut(&mut Ctx, &[u8]) -> Run) -> Run {
	let steps: u32 = x.ch.pick(&[100, 20, 200, 400]);
	let mut s = Search {
		rng: Rng(x.ch.below(1 << 32)),
		tried: HashSet::default(),
		found: Vec::new(),
		reached: 0,
		often: Vec::new(),
		met: HashSet::default(),
		latest: 0,
		moves: Vec::new(),
	};
	x.nontrivial = true;
	x.mix_bytes(&start);
	x.note(|| format!("starting from {}", hex(&start)));
	let mut base = start;
	let mut seen = traced(x, &base, judge, &mut s, 0)?.0;
	let mut view = View::of(&seen);
	// the bytes of the telegram of which it is still to be found out what hangs on them
	let mut ask: Vec<usize> = Vec::new();
	let mut known = false;
	let mut asked_for = 0;
	for step in 1..=steps {
		if x.ch.room() < 100_000 {
			break;
		}
		let (lo, hi) = region(&base, shape);
		if !known && asked_for < 2 && hi - lo <= 60 && s.rng.chance(700) {
			asked_for += 1;
			known = true;
			s.moves = vec![Vec::new(); base.len()];
			ask = (lo..hi).rev().collect();
		}
		let asked = ask.pop();
		let next = match asked {
			Some(i) => {
				let mut b = base.clone();
				b[i] ^= s.rng.pick(&[1, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80]);
				intact(b, shape)
			}
			None => s.propose(&base, &seen, &mut view, shape),
		};
		let ((now, new), sent) = send(x, next, judge, &mut s, step)?;
		if let Some(i) = asked {
			s.moves[i] = differences(&view.keys, &keys(&now));
		} else if new || s.rng.chance(5) {
			if sent.len() != base.len() {
				s.moves.clear();
				known = false;
			}
			base = sent;
			seen = now;
			view = View::of(&seen);
			x.count(K::deeper);
		}
	}
	x.state(6 << 20 | s.reached);
	Ok(())
}

fn keys(s: &Seen) -> Vec<(u32, u64, u64)> {
	let mut v: Vec<_> = s.cmps.iter().map(|c| (c.site, c.want, c.have)).collect();
	v.sort_unstable();
	v.dedup();
	v
}

/// Where the comparisons that only one of them made were, and with what
fn differences(a: &[(u32, u64, u64)], b: &[(u32, u64, u64)]) -> Vec<(u32, u64)> {
	let mut v = Vec::new();
	let (mut i, mut j) = (0, 0);
	while i < a.len() || j < b.len() {
		let way = match (a.get(i), b.get(j)) {
			(Some(x), Some(y)) => x.cmp(y),
			(Some(_), None) => Ordering::Less,
			_ => Ordering::Greater,
		};
		if way == Ordering::Less {
			v.push((a[i].0, a[i].1));
		} else if way == Ordering::Greater {
			v.push((b[j].0, b[j].1));
		}
		i += (way != Ordering::Greater) as usize;
		j += (way != Ordering::Less) as usize;
	}
	v.dedup();
	v
}

/// One more transmission
#[allow(clippy::type_complexity)]
fn send(
	x: &mut Ctx,
	next: Vec<u8>,
	judge: &mut dyn FnMut(&mut Ctx, &[u8]) -> Run,
	s: &mut Search,
	step: u32,
) -> Result<((Seen, bool), Vec<u8>), Fail> {
	x.ch.segment();
	let n = x.ch.directed(next.len() as u64, 8192) as usize;
	let mut b = Vec::with_capacity(n);
	for i in 0..n {
		b.push(x.ch.directed(next.get(i).copied().unwrap_or(0) as u64, 256) as u8);
	}
	x.fault(K::f_steered);
	x.mix_bytes(&b);
	x.now += b.len() as u64 * crate::sim_link::BYTE_NS;
	x.note(|| format!("next {}", hex(&b)));
	if b.is_empty() {
		return Ok(((Seen::default(), false), b));
	}
	Ok((traced(x, &b, judge, s, step)?, b))
}

fn traced(
	x: &mut Ctx,
	b: &[u8],
	judge: &mut dyn FnMut(&mut Ctx, &[u8]) -> Run,
	s: &mut Search,
	step: u32,
) -> Result<(Seen, bool), Fail> {
	seam::record_comparisons();
	let r = judge(x, b);
	let seen = seam::comparisons();
	r?;
	let mut new = false;
	let mut reach = |s: &mut Search, e: u32| {
		if s.found.len() <= e as usize {
			s.found.resize(e as usize + 1, None);
			s.often.resize(e as usize + 1, 0);
		}
		if s.found[e as usize].is_none() {
			s.found[e as usize] = Some(step);
			s.reached += 1;
			s.latest = step;
		}
	};
	for m in &seen.met {
		if s.met.insert(*m) {
			new = true;
			reach(s, m.0);
			s.found[m.0 as usize] = Some(step);
			s.latest = step;
		}
	}
	for (e, times) in &seen.edges {
		reach(s, *e);
		let bit = 1 << times.ilog2();
		let bits = &mut s.often[*e as usize];
		if *bits & bit == 0 {
			*bits |= bit;
			new = true;
		}
	}
	Ok((seen, new))
}
