//! Meter content, meaning first: every generator decides what is meant, says how the library
//! should report it, and encodes it for the line.
use super::decode::{self, ci_kind, HeaderKind, Kind};
use super::tables::{self, Table};
use super::types::*;
use crate::choice::Ch;

/// How content is chosen in one run; drawn once per run so that runs differ in character
#[derive(Clone, Debug)]
pub struct Taste {
	pub dife: u32,
	pub vife: u32,
	pub ext: u32,
	pub dates: u32,
	pub lvar: u32,
	pub bad_bcd: u64,
	pub filler: u64,
	pub manufacturer_tail: u64,
	pub known_maker: u64,
	pub max_records: u64,
	/// most value information extensions and longest unit text of a record
	pub max_vifes: u64,
	pub max_text: usize,
}

impl Taste {
	pub fn draw(c: &mut Ch) -> Taste {
		Taste {
			dife: c.pick(&[10, 2, 40, 80]),
			vife: c.pick(&[10, 2, 40, 80]),
			ext: c.pick(&[40, 10, 80]),
			dates: c.pick(&[12, 0, 60]),
			lvar: c.pick(&[12, 0, 60]),
			bad_bcd: c.pick(&[100, 0, 400]),
			filler: c.pick(&[60, 0, 300]),
			manufacturer_tail: c.pick(&[150, 0, 500]),
			known_maker: c.pick(&[500, 900, 100]),
			max_records: c.pick(&[6, 1, 12, 40]),
			max_vifes: c.pick(&[60, 60, 60, 220]),
			max_text: 220,
		}
	}
}

#[derive(Clone, Debug)]
pub struct Enc<T> {
	pub bytes: Vec<u8>,
	pub means: T,
}

fn some_bits(c: &mut Ch, bits: u32) -> u64 {
	if bits == 0 {
		return 0;
	}
	let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
	match c.idx(5) {
		0 => c.below(bits.min(8) as u64 + 1),
		1 => max - c.below(3).min(max),
		2 => 1u64 << c.below(bits as u64),
		3 => (1u64 << (bits - 1)).wrapping_sub(c.below(2)),
		_ => {
			let hi = c.below(1 << 32);
			let lo = c.below(1 << 32);
			(hi << 32 | lo) & max
		}
	}
}

fn dib(c: &mut Ch, t: &Taste, nibble: u8, raw_type: RawDataType) -> Enc<DataInfoBlock> {
	let n = match c.weighted(&[100 - t.dife.min(99), t.dife, t.dife / 2, t.dife / 4]) {
		0 => 0,
		1 => 1,
		2 => c.range(2, 4) as u32,
		_ => c.range(5, 10) as u32,
	};
	let function = c.idx(4);
	let storage = if n == 0 { c.below(2) } else { some_bits(c, 1 + 4 * n) };
	let tariff = some_bits(c, 2 * n) as u32;
	let device = some_bits(c, n) as u16;
	let obis = c.chance(80) && n < 10;
	let mut bytes = vec![nibble | (function as u8) << 4 | ((storage & 1) as u8) << 6];
	for k in 0..n {
		let d = ((storage >> (1 + 4 * k)) & 15) as u8
			| (((tariff >> (2 * k)) & 3) as u8) << 4
			| (((device >> k) & 1) as u8) << 6;
		bytes.push(d);
	}
	let mut is_obis = obis;
	if obis {
		bytes.push(0);
	} else if n > 0 && bytes[n as usize] == 0 {
		// an empty last extension is how register numbers are marked
		is_obis = true;
	}
	let last = bytes.len() - 1;
	for b in &mut bytes[..last] {
		*b |= 0x80;
	}
	Enc {
		bytes,
		means: DataInfoBlock {
			raw_type,
			function: match function {
				0 => DataFunction::InstantaneousValue,
				1 => DataFunction::MaximumValue,
				2 => DataFunction::MinimumValue,
				_ => DataFunction::ValueDuringErrorState,
			},
			storage,
			tariff,
			device,
			is_obis,
		},
	}
}

const LETTERS: &[&str] = &["a", "Z", "°", " ", "é", "€", "0", "/", "\"", "\\", "\n", "µ", "😀", "\u{301}"];

/// value information: bytes, meaning, signedness, and the primary/extension code if there is one
fn vib(c: &mut Ch, t: &Taste) -> (Enc<ValueInfoBlock>, bool, Option<(Table, u8)>) {
	let kind = c.weighted(&[60, t.ext, t.ext, t.ext / 8 + 1, 4, 4, 4, 3, t.dates]);
	let n_vife = match c.weighted(&[100 - t.vife.min(99), t.vife, t.vife / 3, 1]) {
		0 => 0,
		1 => 1,
		2 => c.range(2, 5),
		_ => c.range(t.max_vifes.min(6), t.max_vifes),
	};
	let mut unsigned = false;
	let mut code = None;
	let mut bytes;
	let value_type;
	let mut n_vife = n_vife;
	let mut table = |c: &mut Ch, tab: Table, fixed: Option<u8>, lo: u64, hi: u64| {
		let v = fixed.unwrap_or_else(|| c.range(lo, hi) as u8);
		unsigned = tables::is_unsigned(tab, v);
		code = Some((tab, v));
		(v, tables::value_type(tab, v))
	};
	match kind {
		0 => {
			let (v, m) = table(c, Table::Primary, None, 0, 0x7A);
			bytes = vec![v];
			value_type = m;
		}
		1 => {
			let (v, m) = table(c, Table::Ext2, None, 0, 0x7C);
			let v2 = if v == 0x7C && c.chance(500) { (0x7F, tables::value_type(Table::Ext2, 0x7F)) } else { (v, m) };
			if v2.0 != v {
				code = Some((Table::Ext2, v2.0));
				unsigned = tables::is_unsigned(Table::Ext2, v2.0);
			}
			bytes = vec![0xFD, v2.0];
			value_type = v2.1;
		}
		2 => {
			let (v, m) = table(c, Table::Ext1, None, 0, 0x7F);
			bytes = vec![0xFB, v];
			value_type = m;
		}
		3 => {
			let hi = c.pick(&[7, 127]);
			let (v, m) = table(c, Table::Ext2Ext2, None, 0, hi);
			bytes = vec![0xFD, 0xFD, v];
			value_type = m;
		}
		4 => {
			// plain text unit, sent last character first
			let n = match c.weighted(&[80, 14, 6]) {
				0 => c.range(0, 8),
				1 => c.range(9, 40),
				_ => c.range(41, (t.max_text as u64).max(120)),
			};
			let mut chars = Vec::new();
			let mut taken = 0;
			for _ in 0..n {
				let l = c.pick(LETTERS).chars().next().unwrap();
				taken += l.len_utf8();
				if taken > t.max_text {
					break;
				}
				chars.push(l);
			}
			let text: String = chars.iter().collect();
			let sent: String = chars.iter().rev().collect();
			bytes = vec![0x7C];
			let ext = n_vife > 0;
			if ext {
				bytes[0] |= 0x80;
			}
			bytes.push(sent.len() as u8);
			bytes.extend_from_slice(sent.as_bytes());
			value_type = ValueType::PlainText(text);
			let mut vifes = None;
			if ext {
				vifes = Some(push_vifes(c, &mut bytes, n_vife as usize));
			}
			return (
				Enc { bytes, means: ValueInfoBlock { value_type, extra_vifes: vifes } },
				false,
				None,
			);
		}
		5 => {
			bytes = vec![0x7E];
			value_type = ValueType::Any;
		}
		6 => {
			bytes = vec![0x7F];
			value_type = ValueType::ManufacturerSpecific;
		}
		7 => {
			// announces an extension that is not there
			let v = c.pick(&[0x7B, 0x7D]);
			bytes = vec![v];
			value_type = ValueType::Invalid(v);
			n_vife = 0;
		}
		_ => {
			let which = c.idx(3);
			if which == 2 {
				let (v, m) = table(c, Table::Ext2, Some(0x72), 0, 0);
				bytes = vec![0xFD, v];
				value_type = m;
			} else {
				let (v, m) = table(c, Table::Primary, Some([0x6C, 0x6D][which]), 0, 0);
				bytes = vec![v];
				value_type = m;
			}
		}
	}
	let mut vifes = None;
	if n_vife > 0 {
		*bytes.last_mut().unwrap() |= 0x80;
		vifes = Some(push_vifes(c, &mut bytes, n_vife as usize));
	}
	(Enc { bytes, means: ValueInfoBlock { value_type, extra_vifes: vifes } }, unsigned, code)
}

fn push_vifes(c: &mut Ch, bytes: &mut Vec<u8>, n: usize) -> Vec<u8> {
	let mut v = Vec::new();
	for i in 0..n {
		let e = (c.edgy() & 0x7F) | if i + 1 < n { 0x80 } else { 0 };
		bytes.push(e);
		v.push(e & 0x7F);
	}
	v
}

fn le(v: u64, n: usize) -> Vec<u8> {
	v.to_le_bytes()[..n].to_vec()
}

fn integer(c: &mut Ch, n: usize, unsigned: bool) -> Enc<DataType> {
	if n == 0 {
		let means = if unsigned { DataType::Unsigned(0) } else { DataType::Signed(0) };
		return Enc { bytes: vec![], means };
	}
	let raw = some_bits(c, 8 * n as u32);
	if unsigned {
		return Enc { bytes: le(raw, n), means: DataType::Unsigned(raw) };
	}
	// the value is what matters; two's complement is how it travels
	let half = 1i128 << (8 * n - 1);
	let value = raw as i128 - if c.chance(500) { half } else { 0 };
	let value = if value >= half { value - 2 * half } else { value };
	Enc { bytes: le(value as i64 as u64, n), means: DataType::Signed(value as i64) }
}

/// `n` bytes of decimal digits; value and, if `bad` digits got in, the text showing them
fn decimal(c: &mut Ch, n: usize, bad: u64, sign: bool) -> (Vec<u8>, Result<i64, String>) {
	if n == 0 {
		return (vec![], Ok(0));
	}
	let style = c.idx(3);
	let mut digits: Vec<u8> = (0..2 * n)
		.map(|_| match style {
			0 => c.pick(&[0, 9, 1]),
			_ => c.below(10) as u8,
		})
		.collect();
	let neg = sign && c.chance(200);
	let mut is_bad = false;
	if c.chance(bad) {
		for _ in 0..c.range(1, 3) {
			let i = c.idx(2 * n);
			digits[i] = c.range(10, 15) as u8;
		}
	}
	// most significant digit first
	if neg {
		digits[0] = 15;
	}
	for (i, d) in digits.iter().enumerate() {
		if *d > 9 && !(i == 0 && *d == 15) {
			is_bad = true;
		}
	}
	let bytes: Vec<u8> = digits.chunks(2).rev().map(|p| p[0] << 4 | p[1]).collect();
	let means = if is_bad {
		Err(digits
			.iter()
			.enumerate()
			.map(|(i, d)| if i == 0 && *d == 15 { '-' } else { b"0123456789ABCDEF"[*d as usize] as char })
			.collect())
	} else {
		let minus = digits[0] == 15;
		let v = digits[minus as usize..].iter().fold(0i64, |a, d| a * 10 + *d as i64);
		Ok(if minus { -v } else { v })
	};
	(bytes, means)
}

fn day(c: &mut Ch) -> (u8, u8, u8, [u8; 2]) {
	loop {
		let day = c.below(32) as u8;
		let month = if c.chance(100) { 15 } else { c.below(13) as u8 };
		let year = match c.idx(4) {
			0 => c.pick(&[0, 1, 79, 80, 81, 98, 99, 63, 64]),
			1 => 127,
			_ => c.below(100) as u8,
		};
		if day == 31 && month == 15 && year == 127 {
			continue; // means "no valid date"
		}
		return (day, month, year, [day | (year & 7) << 5, month | (year >> 3) << 4]);
	}
}

fn hms(c: &mut Ch, limit: u64, every: u8) -> u8 {
	match c.idx(4) {
		0 => every,
		1 => c.pick(&[0, limit as u8 - 1]),
		_ => c.below(limit) as u8,
	}
}

fn date_g(c: &mut Ch) -> Enc<DataType> {
	let (day, month, year, b) = day(c);
	Enc { bytes: b.to_vec(), means: DataType::Date(TypeGDate { day, month, year }) }
}

fn date_f(c: &mut Ch) -> Enc<DataType> {
	let minute = hms(c, 60, 63);
	let hour = hms(c, 24, 31);
	let (day, month, year, b) = day(c);
	let in_dst = c.chance(300);
	let sent_hundred = c.below(4) as u8;
	// years 00 to 80 without a century are taken as 2000 to 2080
	let hundred_year = if sent_hundred == 0 && year < 81 { 1 } else { sent_hundred };
	Enc {
		bytes: vec![minute, hour | sent_hundred << 5 | (in_dst as u8) << 7, b[0], b[1]],
		means: DataType::DateTimeF(TypeFDateTime { minute, hour, day, month, year, hundred_year, in_dst }),
	}
}

fn date_i(c: &mut Ch) -> Enc<DataType> {
	let second = hms(c, 60, 63);
	let minute = hms(c, 60, 63);
	let hour = hms(c, 24, 31);
	let (day, month, year, b) = day(c);
	let in_dst = c.chance(300);
	let leap_year = c.chance(300);
	let plus = c.chance(500);
	let off = c.below(4) as u8;
	let day_of_week = c.below(8) as u8;
	let week = c.below(54) as u8;
	Enc {
		bytes: vec![
			second | (in_dst as u8) << 6 | (leap_year as u8) << 7,
			minute | (plus as u8) << 6,
			hour | day_of_week << 5,
			b[0],
			b[1],
			week | off << 6,
		],
		means: DataType::DateTimeI(TypeIDateTime {
			second,
			minute,
			hour,
			day,
			month,
			year,
			day_of_week,
			week,
			in_dst,
			leap_year,
			dst_offset: if plus { off as i8 } else { -(off as i8) },
		}),
	}
}

fn time_j(c: &mut Ch) -> Enc<DataType> {
	let second = hms(c, 60, 63);
	let minute = hms(c, 60, 63);
	let hour = hms(c, 24, 31);
	Enc {
		bytes: vec![second, minute, hour],
		means: DataType::Time(TypeJTime { second, minute, hour }),
	}
}

fn dst_k(c: &mut Ch) -> Enc<DataType> {
	let starts_hour = hms(c, 24, 31);
	let starts_day = c.range(1, 31) as u8;
	let ends_day = c.range(1, 31) as u8;
	let starts_month = c.range(1, 12) as u8;
	let ends_month = c.range(1, 12) as u8;
	let enable = c.chance(500);
	let plus = c.chance(500);
	let dev = c.below(4) as u8;
	let local = hms(c, 24, 31);
	Enc {
		bytes: vec![
			starts_hour | (local & 7) << 5,
			starts_day | (local >> 3) << 5 | (enable as u8) << 7,
			ends_day | dev << 5 | (plus as u8) << 7,
			starts_month | ends_month << 4,
		],
		means: DataType::DST(TypeKDST {
			starts_hour,
			starts_day,
			starts_month,
			ends_day,
			ends_month,
			enable,
			dst_deviation: if plus { dev as i8 } else { -(dev as i8) },
			local_deviation: local,
		}),
	}
}

fn real(c: &mut Ch) -> Enc<DataType> {
	const SPECIAL: [u32; 10] = [
		0, 0x8000_0000, 0x3F80_0000, 0xBF80_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 1, 0x7F7F_FFFF,
		0x0080_0000,
	];
	let bits = if c.chance(300) { c.pick(&SPECIAL) } else { c.below(1 << 32) as u32 };
	Enc { bytes: bits.to_le_bytes().to_vec(), means: DataType::Real(f32::from_bits(bits)) }
}

fn lvar(c: &mut Ch, t: &Taste, unsigned: bool, room: usize) -> Enc<DataType> {
	let mut e = match c.weighted(&[40, 10, 10, 12, 6, 6, 3]) {
		0 => {
			let n = match c.idx(4) {
				0 => c.below(4),
				1 => c.below(0xC0),
				_ => c.below(24),
			} as usize;
			let sent = c.bytes(n);
			let text = sent.iter().rev().map(|b| tables::cp1252(*b)).collect();
			let mut bytes = vec![n as u8];
			bytes.extend(sent);
			Enc { bytes, means: DataType::String(text) }
		}
		1 => {
			let n = c.below(10) as usize;
			let (b, v) = decimal(c, n, 0, false);
			let mut bytes = vec![0xC0 + n as u8];
			bytes.extend(b);
			Enc { bytes, means: DataType::Signed(v.unwrap()) }
		}
		2 => {
			let n = c.below(10) as usize;
			let (b, v) = decimal(c, n, 0, true);
			let mut bytes = vec![0xD0 + n as u8];
			bytes.extend(b);
			// the code says negative, whatever sign the digits carry
			let v = v.unwrap();
			Enc { bytes, means: DataType::Signed(if v > 0 { -v } else { v }) }
		}
		3 => {
			let n = c.below(9) as usize;
			let i = integer(c, n, unsigned);
			let mut bytes = vec![0xE0 + n as u8];
			bytes.extend(i.bytes);
			Enc { bytes, means: i.means }
		}
		4 => {
			let n = c.range(9, 15) as usize;
			let data = c.bytes(n);
			let mut bytes = vec![0xE0 + n as u8];
			bytes.extend(&data);
			Enc { bytes, means: DataType::VariableLengthNumber(data) }
		}
		5 => {
			let k = c.below(5) as usize;
			let data = c.bytes(16 + 4 * k);
			let mut bytes = vec![0xF0 + k as u8];
			bytes.extend(&data);
			Enc { bytes, means: DataType::VariableLengthNumber(data) }
		}
		_ => {
			let big = c.idx(2);
			let data = c.bytes([48, 64][big]);
			let mut bytes = vec![0xF5 + big as u8];
			bytes.extend(&data);
			Enc { bytes, means: DataType::VariableLengthNumber(data) }
		}
	};
	if e.bytes.len() > room {
		e = Enc { bytes: vec![0], means: DataType::String(String::new()) };
	}
	let _ = t;
	e
}

/// A legal record (or one that is to be marked reserved or invalid)
pub fn record(c: &mut Ch, t: &Taste, room: usize) -> Option<Enc<Record>> {
	let (nibble, raw) = match c.weighted(&[60, 20, 6, 4, t.lvar]) {
		0 => c.pick(&[
			(1, Raw::Bin(1)),
			(2, Raw::Bin(2)),
			(3, Raw::Bin(3)),
			(4, Raw::Bin(4)),
			(6, Raw::Bin(6)),
			(7, Raw::Bin(8)),
		]),
		1 => c.pick(&[
			(9, Raw::Bcd(1)),
			(10, Raw::Bcd(2)),
			(11, Raw::Bcd(3)),
			(12, Raw::Bcd(4)),
			(14, Raw::Bcd(6)),
		]),
		2 => (5, Raw::Real),
		3 => (0, Raw::None),
		_ => (13, Raw::Lvar),
	};
	let raw_type = match raw {
		Raw::Bin(n) => RawDataType::Binary(n),
		Raw::Bcd(n) => RawDataType::BCD(n),
		Raw::Real => RawDataType::Real,
		Raw::None => RawDataType::None,
		Raw::Lvar => RawDataType::LVAR,
	};
	let d = dib(c, t, nibble, raw_type);
	let (mut v, unsigned, code) = vib(c, t);
	let used = d.bytes.len() + v.bytes.len();
	if used + 1 > room {
		return None;
	}
	let special = match code {
		Some((Table::Primary, 0x6C)) => Some(match raw {
			Raw::Bin(2) => (ValueType::TypeGDate, Some(date_g as fn(&mut Ch) -> Enc<DataType>)),
			_ => (ValueType::Invalid(0x6C), None),
		}),
		Some((Table::Primary, 0x6D)) => Some(match raw {
			Raw::Bin(3) => (ValueType::TypeJTime, Some(time_j as _)),
			Raw::Bin(4) => (ValueType::TypeFDateTime, Some(date_f as _)),
			Raw::Bin(6) => (ValueType::TypeIDateTime, Some(date_i as _)),
			Raw::Lvar => (ValueType::TypeMDatetime, None),
			_ => (ValueType::Invalid(0x6D), None),
		}),
		Some((Table::Ext2, 0x72)) => Some(match raw {
			Raw::Bin(4) => (ValueType::DSTTypeK, Some(dst_k as _)),
			_ => (ValueType::Invalid(0x72), None),
		}),
		_ => None,
	};
	let mut make = None;
	if let Some((vt, f)) = special {
		v.means.value_type = vt;
		make = f;
	}
	let data = match make {
		Some(f) => f(c),
		None => match raw {
			Raw::None => Enc { bytes: vec![], means: DataType::None },
			Raw::Bin(n) => integer(c, n, unsigned),
			Raw::Bcd(n) => {
				let (bytes, r) = decimal(c, n, t.bad_bcd, true);
				Enc {
					bytes,
					means: match r {
						Ok(v) => DataType::Signed(v),
						Err(s) => DataType::ErrorValue(s),
					},
				}
			}
			Raw::Real => real(c),
			Raw::Lvar => lvar(c, t, unsigned, room - used),
		},
	};
	if used + data.bytes.len() > room {
		return None;
	}
	let mut bytes = d.bytes;
	bytes.extend(v.bytes);
	bytes.extend(data.bytes);
	Some(Enc { bytes, means: Record { dib: d.means, vib: v.means, data: data.means } })
}

/// Two or three bytes
fn tiny_record(c: &mut Ch, room: usize) -> Option<Enc<Record>> {
	let calm = Taste {
		dife: 0,
		vife: 0,
		ext: 0,
		dates: 0,
		lvar: 0,
		bad_bcd: 0,
		filler: 0,
		manufacturer_tail: 0,
		known_maker: 0,
		max_records: 1,
		max_vifes: 0,
		max_text: 0,
	};
	for _ in 0..4 {
		match record(c, &calm, room) {
			Some(r) if r.bytes.len() <= 3 => return Some(r),
			_ => {}
		}
	}
	let code = c.below(0x60) as u8;
	let bytes = vec![0, code];
	if room < 3 {
		return None;
	}
	let mut cur = decode::Cur::new(&bytes);
	let means = decode::record_next(&mut cur)?;
	Some(Enc { bytes, means })
}

#[derive(Clone, Copy)]
enum Raw {
	None,
	Bin(usize),
	Bcd(usize),
	Real,
	Lvar,
}

/// A readout: records, filler, end mark, manufacturer data. `more`: force the end mark
pub fn frame(c: &mut Ch, t: &Taste, room: usize, more: Option<bool>) -> Enc<Frame> {
	let mut bytes = Vec::new();
	let mut records = Vec::new();
	let mut want = c.below(t.max_records + 1);
	let mut tiny = 0;
	if t.max_records > 5 && c.chance(40) {
		// as many as fit
		want = 126;
		tiny = c.pick(&[1000, 900]);
	}
	let mut last: Option<Enc<Record>> = None;
	let fill = |c: &mut Ch, bytes: &mut Vec<u8>| {
		if c.chance(t.filler) {
			let n = c.range(1, 4) as usize;
			if bytes.len() + n < room {
				bytes.extend(std::iter::repeat(0x2F).take(n));
			}
		}
	};
	for _ in 0..want {
		fill(c, &mut bytes);
		let left = (room - 1).saturating_sub(bytes.len());
		let r = match &last {
			// the same reading once more
			Some(l) if l.bytes.len() <= left && c.chance(70) => Some(l.clone()),
			_ if c.chance(tiny) => tiny_record(c, left),
			_ => record(c, t, left),
		};
		if let Some(r) = r {
			bytes.extend(&r.bytes);
			records.push(r.means.clone());
			last = Some(r);
		}
	}
	fill(c, &mut bytes);
	if t.filler > 0 && c.chance(40) {
		// up to the last byte, which is left to the end mark
		let n = (room - 1).saturating_sub(bytes.len());
		bytes.extend(std::iter::repeat(0x2F).take(n));
	}
	let more_data_follows = more.unwrap_or_else(|| c.chance(200));
	let mut tail = Vec::new();
	if more_data_follows {
		bytes.push(0x1F);
		if c.chance(t.manufacturer_tail) {
			tail = tail_bytes(c, room - bytes.len());
		}
	} else if c.chance(t.manufacturer_tail) {
		bytes.push(0x0F);
		tail = tail_bytes(c, room - bytes.len());
	}
	bytes.extend(&tail);
	Enc { bytes, means: Frame { records, more_data_follows, manufacturer_specific: tail } }
}

fn tail_bytes(c: &mut Ch, room: usize) -> Vec<u8> {
	let max = if c.chance(100) { room } else { room.min(20) };
	let n = c.below(max as u64 + 1) as usize;
	c.bytes(n)
}

/// Fixed properties of one meter, as they go into every header it sends
#[derive(Clone, Debug)]
pub struct Meter {
	pub digits: [u8; 8],
	pub maker: [u8; 3],
	pub soft: bool,
	pub version: u8,
	pub device: u8,
}

pub fn meter(c: &mut Ch, t: &Taste) -> Meter {
	let mut digits = [0u8; 8];
	let style = c.idx(4);
	for d in &mut digits {
		*d = match style {
			0 => c.pick(&[0, 9]),
			_ => c.below(10) as u8,
		};
	}
	let mut version = c.u8();
	let mut device = match c.idx(3) {
		0 => c.below(0x11) as u8,
		1 => c.below(0x41) as u8,
		_ => c.edgy(),
	};
	let mut maker = [0; 3];
	if c.chance(t.known_maker) {
		let p = &tables::PRODUCTS[c.idx(tables::PRODUCTS.len())];
		maker.copy_from_slice(p.0.as_bytes());
		version = match c.idx(6) {
			0 => p.1,
			1 => p.2,
			2 => p.1.wrapping_sub(1),
			3 => p.2.wrapping_add(1),
			4 => c.range(p.1 as u64, p.2 as u64) as u8,
			_ => version,
		};
		if let tables::Only::Type(d) = p.3 {
			if c.chance(600) {
				device = d;
			} else if c.chance(700) {
				// a relative of it
				device = c.pick(&[0x06, 0x07, 0x10, 0x15, 0x16, 0x17, 0x28, 0x02, 0x0F, 0x00, 0x04, 0xFF]);
			}
		}
		if tables::VERSION_IN_ID.contains(&p.0) {
			// these keep the version in the first two digits of the number
			if version >> 4 < 10 && version & 15 < 10 && c.chance(800) {
				digits[0] = version >> 4;
				digits[1] = version & 15;
				version = c.u8();
			}
		}
	} else {
		for m in &mut maker {
			*m = b'A' + c.below(26) as u8;
		}
	}
	Meter { digits, maker, soft: c.chance(50), version, device }
}

pub fn short_header(c: &mut Ch) -> Enc<ShortHeader> {
	let access_number = c.u8();
	short_header_with(c, access_number)
}

pub fn short_header_with(c: &mut Ch, access_number: u8) -> Enc<ShortHeader> {
	let flags: Vec<bool> = (0..6).map(|_| c.chance(300)).collect();
	let app = c.below(4) as u8;
	let mut st = app;
	// from bit 7 down to bit 2
	for (i, f) in flags.iter().enumerate() {
		st |= (*f as u8) << (7 - i);
	}
	let (cf, sec) = if c.chance(200) {
		const MODES: [u8; 20] =
			[6, 11, 12, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31];
		let mode = c.pick(&MODES);
		let raw = (c.u8() as u16) | (mode as u16) << 8 | (c.below(8) as u16) << 13;
		(raw, SecurityMode::Reserved(raw))
	} else {
		(0, SecurityMode::None)
	};
	Enc {
		bytes: vec![access_number, st, cf as u8, (cf >> 8) as u8],
		means: ShortHeader {
			access_number,
			status: MeterStatus {
				manufacturer_2: flags[0],
				manufacturer_1: flags[1],
				manufacturer_0: flags[2],
				temporary_error: flags[3],
				permanent_error: flags[4],
				power_low: flags[5],
				application: match app {
					0 => ApplicationError::None,
					1 => ApplicationError::Busy,
					2 => ApplicationError::Error,
					_ => ApplicationError::Alarm,
				},
			},
			configuration_field: sec,
			extra_header: None,
		},
	}
}

pub fn long_header(m: &Meter, s: Enc<ShortHeader>) -> Enc<LongHeader> {
	let mut identifier = 0u32;
	for d in m.digits {
		identifier = identifier * 10 + d as u32;
	}
	let raw_id: Vec<u8> = m.digits.chunks(2).rev().map(|p| p[0] << 4 | p[1]).collect();
	let raw_id: [u8; 4] = raw_id.try_into().unwrap();
	let letters = String::from_utf8(m.maker.to_vec()).unwrap();
	let code = m.maker.iter().fold(0u16, |a, l| a * 32 + (l - b'A' + 1) as u16)
		| (m.soft as u16) << 15;
	let mut bytes = raw_id.to_vec();
	bytes.extend(code.to_le_bytes());
	bytes.push(m.version);
	bytes.push(m.device);
	bytes.extend(s.bytes);
	let device_name =
		if m.soft { None } else { tables::product(&letters, &raw_id, m.version, m.device) };
	Enc {
		bytes,
		means: LongHeader {
			identifier,
			manufacturer: letters,
			device_name,
			version: m.version,
			device_type: tables::device_type(m.device),
			access_number: s.means.access_number,
			status: s.means.status,
			configuration_field: s.means.configuration_field,
			extra_header: None,
		},
	}
}

pub fn header(c: &mut Ch, kind: HeaderKind, m: &Meter) -> Enc<TPLHeader> {
	match kind {
		HeaderKind::None => Enc { bytes: vec![], means: TPLHeader::None },
		HeaderKind::Short => {
			let s = short_header(c);
			Enc { bytes: s.bytes, means: TPLHeader::Short(s.means) }
		}
		HeaderKind::Long => {
			let s = short_header(c);
			let l = long_header(m, s);
			Enc { bytes: l.bytes, means: TPLHeader::Long(l.means) }
		}
	}
}

/// `None` means reset (or a selection of nothing)
fn application(c: &mut Ch, must: bool) -> Enc<Option<ApplicationMessage>> {
	if !must && c.chance(300) {
		return Enc { bytes: vec![], means: None };
	}
	let n = match c.idx(3) {
		0 => 1,
		1 => c.range(1, 3),
		_ => c.range(1, 10),
	} as usize;
	let blocks: Vec<u8> = (0..n).map(|_| c.below(16) as u8).collect();
	// application number: spread over the digits, or 15 first and then ignored digits
	let target = if c.chance(400) && n >= 2 { c.range(26, 45.min(15 * n as u64)) } else { c.below(16) };
	let mut apps = vec![0u8; n];
	let mut left = target;
	let mut finished = false;
	for (i, a) in apps.iter_mut().enumerate() {
		if finished {
			// nothing after a digit of fifteen counts
			*a = c.below(16) as u8;
			continue;
		}
		let rest_max = 15 * (n - i - 1) as u64;
		let lo = left.saturating_sub(rest_max);
		let hi = left.min(15);
		let lo = lo.min(hi);
		// fifteen ends the sum, so it may only be used for the last part
		let mut d = if i + 1 == n { left } else { c.range(lo, hi) };
		if d == 15 && left > 15 {
			d = 14;
		}
		*a = d.min(15) as u8;
		left -= *a as u64;
		if *a == 15 {
			finished = true;
		}
	}
	// (the digits can fail to reach the target; what counts is what they add up to)
	let mut total = 0u64;
	for a in &apps {
		total += *a as u64;
		if *a == 15 {
			break;
		}
	}
	use MessageApplication as A;
	let message_application = match total {
		0 => A::All,
		1 => A::UserData,
		2 => A::SimpleBilling,
		3 => A::EnhancedBilling,
		4 => A::MultiTariffBilling,
		5 => A::InstantaneousValues,
		6 => A::LoadProfileValuesForManagement,
		7 => A::StaticContent,
		8 => A::InstallationAndStartup,
		9 => A::Testing,
		10 => A::Calibration,
		11 => A::Manufacturing,
		12 => A::Development,
		13 => A::SelfTest,
		14 => A::ConfigurationData,
		15 => A::UserDefinedData,
		26..=45 => A::ManufacturerSpecific(total as u8),
		_ => {
			// 16 to 25 are reserved: not a legal selection, send the simplest one instead
			return Enc {
				bytes: vec![0],
				means: Some(ApplicationMessage { message_application: A::All, block_number: 0 }),
			};
		}
	};
	let block_number = blocks.iter().fold(0u64, |a, b| a << 4 | *b as u64);
	Enc {
		bytes: apps.iter().zip(&blocks).map(|(a, b)| a << 4 | b).collect(),
		means: Some(ApplicationMessage { message_application, block_number }),
	}
}

fn application_error(c: &mut Ch, t: &Taste, room: usize) -> Enc<ApplicationErrorMessage> {
	match c.weighted(&[10, 60, 15, 15]) {
		0 => Enc { bytes: vec![], means: ApplicationErrorMessage::Unspecified },
		1 => {
			let (code, make) = decode::ERROR_CODES[c.idx(decode::ERROR_CODES.len())];
			let mut bytes = vec![code];
			behind(c, &mut bytes, room - 1);
			Enc { bytes, means: make() }
		}
		2 => match record(c, t, room - 1) {
			Some(r) => {
				let mut bytes = vec![0xF0];
				bytes.extend(r.bytes);
				Enc { bytes, means: ApplicationErrorMessage::DynamicError(r.means) }
			}
			None => Enc { bytes: vec![0], means: ApplicationErrorMessage::Unspecified },
		},
		_ => {
			let code = c.range(0xF1, 0xFF) as u8;
			let data = tail_bytes(c, room - 1);
			let mut bytes = vec![code];
			bytes.extend(&data);
			Enc { bytes, means: ApplicationErrorMessage::ManufacturerSpecific(code, data) }
		}
	}
}

/// Which messages to generate
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
	Any,
	Readout,
	Other,
}

pub const MAX_PAYLOAD: usize = 253;

pub fn all_ci(want: Want) -> Vec<u8> {
	(0..=255u8)
		.filter(|ci| match ci_kind(*ci) {
			None => false,
			Some((k, _)) => match want {
				Want::Any => true,
				Want::Readout => k == Kind::Readout,
				Want::Other => k != Kind::Readout,
			},
		})
		.collect()
}

/// control information, header and content of a long telegram
pub fn message(c: &mut Ch, t: &Taste, want: Want, m: &Meter, more: Option<bool>) -> Enc<MBusMessage> {
	message_in(c, t, want, m, more, MAX_PAYLOAD)
}

/// the same with room for so many bytes
pub fn message_in(c: &mut Ch, t: &Taste, want: Want, m: &Meter, more: Option<bool>, room: usize) -> Enc<MBusMessage> {
	use MBusMessage as M;
	let kinds: &[Kind] = &[
		Kind::ResetOrSelect,
		Kind::SelectedRequest,
		Kind::SelectedResponse,
		Kind::SelectionOfDevice,
		Kind::SetBaudRate,
		Kind::Synchronise,
		Kind::TimeAdjust,
		Kind::TimeSync,
		Kind::Alarm,
		Kind::AppError,
		Kind::Command,
		Kind::Auth,
		Kind::Dlms,
		Kind::Image,
		Kind::Manufacturer,
		Kind::Security,
		Kind::Specific,
		Kind::Wireless,
	];
	let readout = match want {
		Want::Readout => true,
		Want::Other => false,
		Want::Any => !c.chance(350),
	};
	let kind = if readout { Kind::Readout } else { c.pick(kinds) };
	let codes: Vec<u8> = (0..=255u8).filter(|ci| ci_kind(*ci).is_some_and(|k| k.0 == kind)).collect();
	let ci = c.pick(&codes);
	let hk = ci_kind(ci).unwrap().1;
	let h = header(c, hk, m);
	let mut bytes = vec![ci];
	bytes.extend(h.bytes);
	let h = h.means;
	let room = room - bytes.len();
	let payload = |c: &mut Ch, bytes: &mut Vec<u8>| {
		let d = tail_bytes(c, room);
		bytes.extend(&d);
		d
	};
	let means = match kind {
		Kind::Readout => {
			let f = frame(c, t, room, more);
			bytes.extend(f.bytes);
			M::ResponseFromDevice(h, f.means)
		}
		Kind::ResetOrSelect => {
			let a = application(c, false);
			bytes.extend(a.bytes);
			match a.means {
				None => M::ApplicationReset(h),
				Some(a) => M::ApplicationSelect(h, a),
			}
		}
		Kind::SelectedRequest => {
			behind(c, &mut bytes, room);
			M::SelectedApplicationRequest(h)
		}
		Kind::SelectedResponse => {
			let a = application(c, true);
			bytes.extend(a.bytes);
			M::SelectedApplicationResponse(h, a.means.unwrap())
		}
		Kind::SelectionOfDevice => M::SelectionOfDevice(payload(c, &mut bytes)),
		Kind::SetBaudRate => {
			behind(c, &mut bytes, room);
			M::SetBaudRate(decode::baud(ci))
		}
		Kind::Synchronise => {
			behind(c, &mut bytes, room);
			M::SynchroniseAction
		}
		Kind::TimeAdjust => M::TimeAdjustmentToDevice(h, payload(c, &mut bytes)),
		Kind::TimeSync => M::TimeSyncToDevice(h, payload(c, &mut bytes)),
		Kind::Alarm => M::AlarmFromDevice(h, payload(c, &mut bytes)),
		Kind::AppError => {
			let e = application_error(c, t, room);
			bytes.extend(e.bytes);
			M::ApplicationErrorFromDevice(h, e.means)
		}
		Kind::Command => M::CommandToDevice(h, payload(c, &mut bytes)),
		Kind::Auth => M::AuthenticationAndFrgamentation(payload(c, &mut bytes)),
		Kind::Dlms => M::Dlms(ci, h, payload(c, &mut bytes)),
		Kind::Image => M::ImageTransfer(ci, h, payload(c, &mut bytes)),
		Kind::Manufacturer => M::ManufacturerSpecific(ci, payload(c, &mut bytes)),
		Kind::Security => M::SecurityTransfer(ci, h, payload(c, &mut bytes)),
		Kind::Specific => M::SpecificUsage(ci, h, payload(c, &mut bytes)),
		Kind::Wireless => {
			behind(c, &mut bytes, room);
			M::Wireless(ci, h)
		}
	};
	Enc { bytes, means }
}

/// Bytes behind a message that is complete without them; they change nothing of what it says
fn behind(c: &mut Ch, bytes: &mut Vec<u8>, room: usize) {
	if c.chance(300) {
		bytes.extend(tail_bytes(c, room));
	}
}

pub fn secondary(c: &mut Ch) -> Enc<Control> {
	use SecondaryControlMessage as S;
	let (f, message) = match c.idx(7) {
		0 => (8, S::UserData),
		1 => (0, S::ACK),
		2 => (1, S::NACK),
		3 => (9, S::UserDataUnavailable),
		4 => (11, S::Status),
		5 => (14, S::LinkNotFunctioning),
		_ => (15, S::LinkNotImplemented),
	};
	let acd = c.chance(300);
	let dfc = c.chance(300);
	Enc {
		bytes: vec![f | (acd as u8) << 5 | (dfc as u8) << 4],
		means: Control::Secondary {
			access_demand: acd,
			data_flow_control: if dfc { DataFlowControl::Pause } else { DataFlowControl::Continue },
			message,
		},
	}
}

pub fn primary_with(message: PrimaryControlMessage, fcb: bool) -> Enc<Control> {
	use PrimaryControlMessage as P;
	let f = match message {
		P::ResetRemoteLink => 0x40,
		P::ResetUserProcess => 0x41,
		P::SendUserDataConfirmed => 0x53,
		P::SendUserDataUnconfirmed => 0x44,
		P::RequestAccessDemand => 0x48,
		P::RequestLinkStatus => 0x49,
		P::RequestUserData1 => 0x5A,
		P::RequestUserData2 => 0x5B,
	};
	Enc {
		bytes: vec![f | (fcb as u8) << 5],
		means: Control::Primary { frame_count_bit: fcb, message },
	}
}

pub fn primary(c: &mut Ch) -> Enc<Control> {
	use PrimaryControlMessage as P;
	let m = match c.idx(8) {
		0 => P::RequestUserData2,
		1 => P::ResetRemoteLink,
		2 => P::ResetUserProcess,
		3 => P::SendUserDataConfirmed,
		4 => P::SendUserDataUnconfirmed,
		5 => P::RequestAccessDemand,
		6 => P::RequestLinkStatus,
		_ => P::RequestUserData1,
	};
	let fcb = c.chance(500);
	primary_with(m, fcb)
}

pub fn control_any(c: &mut Ch) -> Enc<Control> {
	if c.chance(400) {
		primary(c)
	} else {
		secondary(c)
	}
}

pub fn address(c: &mut Ch) -> u8 {
	match c.idx(3) {
		0 => c.pick(&[0, 1, 2, 250, 251, 252, 253, 254, 255]),
		_ => c.u8(),
	}
}

pub fn wrap_long(control: u8, address: u8, payload: &[u8]) -> Vec<u8> {
	let l = payload.len() + 2;
	assert!(l <= 255);
	let mut b = vec![0x68, l as u8, l as u8, 0x68, control, address];
	b.extend(payload);
	let s: u32 = b[4..].iter().map(|x| *x as u32).sum();
	b.push(s as u8);
	b.push(0x16);
	b
}

pub fn wrap_short(control: u8, address: u8) -> Vec<u8> {
	vec![0x10, control, address, (control as u16 + address as u16) as u8, 0x16]
}

pub fn long(control: Enc<Control>, address: u8, m: Enc<MBusMessage>) -> Enc<Packet> {
	Enc {
		bytes: wrap_long(control.bytes[0], address, &m.bytes),
		means: Packet::Long { control: control.means, address, message: m.means },
	}
}

pub fn short(control: Enc<Control>, address: u8) -> Enc<Packet> {
	Enc {
		bytes: wrap_short(control.bytes[0], address),
		means: Packet::Short { control: control.means, address },
	}
}

pub fn ack() -> Enc<Packet> {
	Enc { bytes: vec![0xE5], means: Packet::Ack }
}

/// Any legal telegram
pub fn packet(c: &mut Ch, t: &Taste, want: Want) -> Enc<Packet> {
	let k = match want {
		Want::Readout => 0,
		Want::Other => c.weighted(&[70, 25, 5]),
		Want::Any => c.weighted(&[85, 12, 3]),
	};
	match k {
		0 => {
			let m = meter(c, t);
			let ctl = if want == Want::Readout { secondary(c) } else { control_any(c) };
			let a = address(c);
			let msg = message(c, t, want, &m, None);
			long(ctl, a, msg)
		}
		1 => {
			let ctl = control_any(c);
			let a = address(c);
			short(ctl, a)
		}
		_ => ack(),
	}
}
