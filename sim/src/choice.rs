//! The only source of decisions in a simulated run.
//!
//! A run is a pure function of a sequence of segments of numbers. When exploring they come from a
//! seeded generator and are recorded as they are drawn (in memory shared with the parent, so that
//! the record survives a crash of the run); when replaying they are read back, and zero - always
//! the least eventful decision - is drawn once a segment is used up.

pub const SEG: u64 = u64::MAX;

#[repr(C)]
pub struct Rec {
	pub len: u64,
	pub overflow: u64,
	pub data: [u64; CAP],
}
pub const CAP: usize = 1 << 18;

enum Src {
	Gen([u64; 4]),
	Replay { data: Vec<u64>, pos: usize, in_seg: bool },
}

pub struct Ch {
	src: Src,
	rec: *mut Rec,
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E3779B97F4A7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
	z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
	let mut h = h ^ 0xcbf29ce484222325;
	for x in b {
		h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
	}
	mix(h)
}

impl Ch {
	pub fn generate(seed: u64, rec: *mut Rec) -> Ch {
		let mut s = seed;
		let mut st = [0; 4];
		for x in &mut st {
			s = mix(s);
			*x = s;
		}
		unsafe {
			(*rec).len = 0;
			(*rec).overflow = 0;
		}
		Ch { src: Src::Gen(st), rec }
	}

	pub fn replay(data: Vec<u64>, rec: *mut Rec) -> Ch {
		unsafe {
			(*rec).len = 0;
			(*rec).overflow = 0;
		}
		Ch { src: Src::Replay { data, pos: 0, in_seg: true }, rec }
	}

	fn push(&mut self, v: u64) {
		unsafe {
			let r = &mut *self.rec;
			if (r.len as usize) < CAP {
				r.data[r.len as usize] = v;
				r.len += 1;
			} else {
				r.overflow = 1;
			}
		}
	}

	/// How many more decisions can be recorded
	pub fn room(&self) -> usize {
		CAP - unsafe { (*self.rec).len as usize }
	}

	/// Decisions up to the next call belong together and can be dropped together
	pub fn segment(&mut self) {
		if let Src::Replay { data, pos, in_seg } = &mut self.src {
			while *pos < data.len() && data[*pos] != SEG {
				*pos += 1;
			}
			*in_seg = *pos < data.len();
			*pos += 1;
		}
		self.push(SEG);
	}

	pub fn below(&mut self, n: u64) -> u64 {
		if n <= 1 {
			return 0;
		}
		let v = match &mut self.src {
			Src::Gen(s) => {
				// xoshiro256**
				let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
				let t = s[1] << 17;
				s[2] ^= s[0];
				s[3] ^= s[1];
				s[1] ^= s[2];
				s[0] ^= s[3];
				s[2] ^= t;
				s[3] = s[3].rotate_left(45);
				((r as u128 * n as u128) >> 64) as u64
			}
			Src::Replay { data, pos, in_seg } => {
				if *in_seg && *pos < data.len() && data[*pos] != SEG {
					let v = data[*pos];
					*pos += 1;
					v.min(n - 1)
				} else {
					0
				}
			}
		};
		self.push(v);
		v
	}

	/// A decision that is made elsewhere and only recorded (and read back) here
	pub fn directed(&mut self, v: u64, n: u64) -> u64 {
		if let Src::Gen(_) = self.src {
			let v = v.min(n - 1);
			self.push(v);
			return v;
		}
		self.below(n)
	}

	pub fn idx(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}

	/// true in `per_mille` of 1000 cases
	pub fn chance(&mut self, per_mille: u64) -> bool {
		self.below(1000) >= 1000 - per_mille.min(1000)
	}

	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}

	pub fn pick<T: Copy>(&mut self, items: &[T]) -> T {
		items[self.idx(items.len())]
	}

	pub fn weighted(&mut self, w: &[u32]) -> usize {
		let total: u64 = w.iter().map(|x| *x as u64).sum();
		let mut v = self.below(total);
		for (i, x) in w.iter().enumerate() {
			if v < *x as u64 {
				return i;
			}
			v -= *x as u64;
		}
		0
	}

	pub fn u8(&mut self) -> u8 {
		self.below(256) as u8
	}

	/// a byte, often one on the edge of something
	pub fn edgy(&mut self) -> u8 {
		const EDGES: [u8; 24] = [
			0x00, 0x01, 0x02, 0x09, 0x0A, 0x0F, 0x10, 0x16, 0x1F, 0x2F, 0x55, 0x68, 0x7F, 0x80, 0x81, 0x99,
			0x9A, 0xBF, 0xC0, 0xE5, 0xEF, 0xF0, 0xFE, 0xFF,
		];
		if self.chance(350) {
			self.pick(&EDGES)
		} else {
			self.u8()
		}
	}

	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.edgy()).collect()
	}
}
