//! The line between master and meters: how bytes get damaged, cut up, delayed and mixed.
use crate::choice::Ch;
use crate::ctx::{Ctx, K};
use crate::model::{decode, gen};

pub fn corpus() -> &'static [&'static [u8]] {
	static DATA: &[u8] = include_bytes!("../corpus/telegrams.bin");
	static INDEX: std::sync::OnceLock<Vec<&'static [u8]>> = std::sync::OnceLock::new();
	INDEX.get_or_init(|| {
		let mut v = Vec::new();
		let mut i = 0;
		while i < DATA.len() {
			let n = DATA[i] as usize | (DATA[i + 1] as usize) << 8;
			v.push(&DATA[i + 2..i + 2 + n]);
			i += 2 + n;
		}
		v
	})
}

/// Which faults this run's line has, and how often (swarm style: drawn once per run)
#[derive(Clone, Debug)]
pub struct Weather {
	pub rate: u64,
	pub weights: [u32; 13],
}

const FLIP: usize = 0;
const ALTER: usize = 1;
const LOSE: usize = 2;
const REPEAT: usize = 3;
const INSERT: usize = 4;
const CUT: usize = 5;
const SWAP: usize = 6;
const BALANCE: usize = 7;
const FIELD: usize = 8;
const BURST: usize = 9;
const COLLIDE: usize = 10;
const NOISE: usize = 11;
const SPLICE: usize = 12;

impl Weather {
	pub fn draw(c: &mut Ch) -> Weather {
		let rate = c.pick(&[300, 0, 100, 600, 1000]);
		let mut weights = [0; 13];
		for w in &mut weights {
			*w = c.pick(&[4, 0, 1, 10]);
		}
		if weights.iter().all(|w| *w == 0) {
			weights = [1; 13];
		}
		Weather { rate, weights }
	}
}

/// One sender's bytes after the line had its way with them. Returns whether anything changed.
pub fn damage(x: &mut Ctx, w: &Weather, b: &mut Vec<u8>) -> bool {
	if !x.ch.chance(w.rate) {
		return false;
	}
	let before = b.clone();
	let n = x.ch.range(1, 3);
	for _ in 0..n {
		let kind = x.ch.weighted(&w.weights);
		damage_once(x, kind, b);
	}
	*b != before
}

pub fn damage_once(x: &mut Ctx, kind: usize, b: &mut Vec<u8>) {
	let len = b.len();
	if len == 0 {
		return;
	}
	let c = &mut x.ch;
	// often where it hurts: the link layer's own fields
	let spot = |c: &mut Ch| -> usize {
		match c.idx(4) {
			0 => c.idx(len.min(8)),
			1 => len - 1 - c.idx(len.min(3)),
			_ => c.idx(len),
		}
	};
	let k = match kind {
		FLIP => {
			for _ in 0..c.range(1, 2) {
				let i = spot(c);
				b[i] ^= 1 << c.below(8);
			}
			K::f_flip
		}
		ALTER => {
			let i = spot(c);
			b[i] = c.edgy();
			K::f_alter
		}
		LOSE => {
			let i = spot(c);
			let n = c.range(1, 3) as usize;
			b.drain(i..(i + n).min(len));
			K::f_lose
		}
		REPEAT => {
			let i = spot(c);
			let n = (c.range(1, 3) as usize).min(len - i);
			let r = b[i..i + n].to_vec();
			for (k, v) in r.into_iter().enumerate() {
				b.insert(i + n + k, v);
			}
			K::f_repeat
		}
		INSERT => {
			let i = c.idx(len + 1);
			let n = c.range(1, 3) as usize;
			for v in c.bytes(n) {
				b.insert(i, v);
			}
			K::f_insert
		}
		CUT => {
			let keep = c.idx(len);
			if c.chance(200) {
				b.drain(..keep.max(1));
			} else {
				b.truncate(keep);
			}
			K::f_cut
		}
		SWAP => {
			let i = spot(c);
			let j = if c.chance(500) { (i + 1) % len } else { spot(c) };
			b.swap(i, j);
			K::f_swap
		}
		BALANCE => {
			// two alterations that leave the sum as it was
			if len > 9 && b[0] == 0x68 {
				let i = 4 + c.idx(len - 6);
				let j = 4 + c.idx(len - 6);
				let d = c.pick(&[1u8, 0x10, 0x40, 0x80, 3, 0xFF]);
				b[i] = b[i].wrapping_add(d);
				b[j] = b[j].wrapping_sub(d);
			} else if len == 5 {
				let d = c.pick(&[1u8, 0x20, 0xFF]);
				b[1] = b[1].wrapping_add(d);
				b[2] = b[2].wrapping_sub(d);
			}
			K::f_balance
		}
		FIELD => {
			// length, length pair, markers, checksum, tail: a plausible other value
			match c.idx(8) {
				0 if len > 2 => {
					let v = b[1].wrapping_add(c.pick(&[1, 255, 2, 254, 128]));
					b[1] = v;
					b[2] = v;
				}
				1 if len > 2 => b[1 + c.idx(2)] = c.edgy(),
				2 => b[0] = c.pick(&[0x68, 0x10, 0xE5, 0x69, 0x60, 0x00, 0x11, 0xE4]),
				3 if len > 3 => b[3] = c.pick(&[0x00, 0x69, 0x10, 0xE5, 0x16, 0xFF]),
				4 if len > 1 => {
					let v = b[len - 2];
					b[len - 2] = match c.idx(5) {
						0 => !v,
						1 => v.wrapping_neg(),
						2 => v.wrapping_add(1),
						3 => v.wrapping_sub(1),
						_ => 0,
					};
				}
				5 => b[len - 1] = c.pick(&[0x00, 0x15, 0x17, 0x68, 0x10, 0xE5, 0x96, 0x1E]),
				6 if len > 8 => {
					// another kind of sum over the same bytes, or over other bytes
					let alt = match c.idx(5) {
						0 => b[4..len - 2].iter().fold(0, |a, v| a ^ v),
						1 => decode::sum(&b[..len - 2]),
						2 => decode::sum(&b[6..len - 2]),
						3 => decode::sum(&b[5..len - 2]),
						_ => decode::sum(&b[4..len - 3]),
					};
					b[len - 2] = alt;
				}
				_ => {
					b.push(c.pick(&[0x16, 0x00, 0xE5]));
				}
			}
			K::f_field
		}
		BURST => {
			let i = spot(c);
			let n = c.range(1, 16) as usize;
			let style = c.idx(3);
			for v in b.iter_mut().skip(i).take(n) {
				*v = match style {
					0 => 0x00,
					1 => 0xFF,
					_ => c.u8(),
				};
			}
			K::f_burst
		}
		COLLIDE => {
			// somebody else sends at the same time; a mark on the line is 1, a space wins
			let other = other_bytes(c);
			let at = spot(c);
			for (k, v) in other.iter().enumerate() {
				if at + k < b.len() {
					b[at + k] &= v;
				} else if c.chance(500) {
					b.push(*v);
				} else {
					break;
				}
			}
			K::f_collide
		}
		NOISE => {
			let n = c.range(1, 6) as usize;
			let v = c.bytes(n);
			if c.chance(500) {
				b.extend(v);
			} else {
				b.splice(0..0, v);
			}
			K::f_noise
		}
		SPLICE => {
			// the rest of another telegram
			let other = other_bytes(c);
			if !other.is_empty() {
				let i = spot(c);
				let j = c.idx(other.len());
				b.truncate(i);
				b.extend(&other[j..]);
			}
			K::f_collide
		}
		_ => return,
	};
	x.fault(k);
}

fn other_bytes(c: &mut Ch) -> Vec<u8> {
	if c.chance(300) {
		corpus()[c.idx(corpus().len())].to_vec()
	} else {
		let t = gen::Taste {
			dife: 10,
			vife: 10,
			ext: 10,
			dates: 10,
			lvar: 10,
			bad_bcd: 0,
			filler: 0,
			manufacturer_tail: 0,
			known_maker: 0,
			max_records: 2,
			max_vifes: 60,
			max_text: 220,
		};
		gen::packet(c, &t, gen::Want::Any).bytes
	}
}

/// Pure noise, sometimes looking like the start of something
pub fn noise(c: &mut Ch, max: u64) -> Vec<u8> {
	let n = match c.idx(3) {
		0 => c.range(1, 8.min(max)),
		_ => c.range(1, max),
	} as usize;
	match c.idx(6) {
		0 => vec![c.pick(&[0x00, 0xFF, 0x55, 0x68, 0x10, 0xE5, 0x16]); n],
		5 => (0..n).map(|_| c.pick(&[0x16, 0x16, 0x68, 0x10, 0xE5])).collect(),
		1 => {
			let mut v = vec![0x68];
			let l = c.edgy();
			v.extend([l, if c.chance(800) { l } else { c.edgy() }, 0x68]);
			v.extend(c.bytes(n));
			v
		}
		2 => {
			let mut v = vec![0x10];
			v.extend(c.bytes(n.min(4)));
			v
		}
		_ => c.bytes(n),
	}
}

/// Where a meter's memory is corrupted before it computes the checksum
pub fn corrupt(x: &mut Ctx, payload: &mut Vec<u8>) {
	let n = match x.ch.idx(3) {
		0 => 1,
		_ => x.ch.range(1, 4),
	};
	for _ in 0..n {
		let c = &mut x.ch;
		let len = payload.len();
		if len == 0 {
			payload.push(c.edgy());
			continue;
		}
		// the first bytes decide most
		let i = if c.chance(400) { c.idx(len.min(20)) } else { c.idx(len) };
		match c.idx(9) {
			0 => payload[i] ^= 1 << c.below(8),
			1 => payload[i] = c.edgy(),
			2 => {
				payload.remove(i);
			}
			3 => {
				let v = c.edgy();
				payload.insert(i, v);
			}
			4 => payload.truncate(i),
			5 => payload[i] |= 0x80,
			6 => {
				let j = c.idx(len);
				payload.swap(i, j);
			}
			7 => {
				let v = payload[i];
				let k = c.range(1, 12) as usize;
				for _ in 0..k {
					payload.insert(i, v);
				}
			}
			_ => {
				let o = corpus()[c.idx(corpus().len())];
				if o.len() > 20 {
					let s = 6 + c.idx(o.len() - 14);
					let e = (s + c.range(1, 8) as usize).min(o.len() - 2);
					payload.splice(i..i, o[s..e].iter().copied());
				}
			}
		}
	}
	payload.truncate(gen::MAX_PAYLOAD);
	x.fault(K::f_memory);
}

/// Cut `n` bytes into pieces as a driver would deliver them
pub fn pieces(c: &mut Ch, n: usize) -> Vec<usize> {
	let mut v = Vec::new();
	let mut left = n;
	let style = c.idx(5);
	while left > 0 {
		let k = match style {
			0 => left,
			1 => 1,
			2 => c.range(1, 3) as usize,
			3 => c.range(1, 64) as usize,
			_ => c.range(1, left as u64) as usize,
		}
		.min(left);
		v.push(k);
		left -= k;
	}
	v
}
