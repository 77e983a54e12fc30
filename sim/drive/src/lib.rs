//! The calls into the library under simulation, in one small crate that is compiled with the same
//! edge instrumentation as the library (its generic functions are instantiated here).
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::Record;
use libmbus::parse::error::MBusError;
use libmbus::parse::link_layer::Packet;
use libmbus::parse::transport_layer::MBusMessage;
use winnow::error::{ErrMode, Needed};
use winnow::stream::{Partial, StreamIsPartial};
use winnow::{Bytes, Parser};

pub enum Step {
	/// a telegram, and how many bytes it took
	Telegram(Packet, usize),
	Rejected(MBusError),
	/// more bytes needed (how many at least, if it says)
	Incomplete(Option<usize>),
}

/// Decode `b` as exactly one telegram
pub fn whole(b: &[u8]) -> Result<Packet, MBusError> {
	Packet::parse.parse(Bytes::new(b)).map_err(|e| e.into_inner())
}

/// Decode the telegram at the start of `b`, which is all there will ever be
pub fn ended(b: &[u8]) -> Step {
	let mut input = Bytes::new(b);
	step(Packet::parse(&mut input), || b.len() - input.len())
}

/// Decode the telegram at the start of `b`, to which more bytes may be added
pub fn partial(b: &[u8]) -> Step {
	let mut input = Partial::new(Bytes::new(b));
	step(Packet::parse(&mut input), || b.len() - input.len())
}

/// The same for a stream that was declared finished after `b`
pub fn finished(b: &[u8]) -> Step {
	let mut input = Partial::new(Bytes::new(b));
	let _ = input.complete();
	step(Packet::parse(&mut input), || b.len() - input.len())
}

/// `partial` and `ended` for plain byte slices
pub fn partial_slice(b: &[u8]) -> Step {
	let mut input = Partial::new(b);
	step(Packet::parse(&mut input), || b.len() - input.len())
}

pub fn ended_slice(b: &[u8]) -> Step {
	let mut input = b;
	step(Packet::parse(&mut input), || b.len() - input.len())
}

fn step(r: Result<Packet, ErrMode<MBusError>>, used: impl FnOnce() -> usize) -> Step {
	match r {
		Ok(p) => Step::Telegram(p, used()),
		Err(ErrMode::Incomplete(Needed::Unknown)) => Step::Incomplete(None),
		Err(ErrMode::Incomplete(Needed::Size(n))) => Step::Incomplete(Some(n.get())),
		Err(ErrMode::Backtrack(e)) | Err(ErrMode::Cut(e)) => Step::Rejected(e),
	}
}

/// Decode what follows the address of a long telegram, and say how many bytes were used
pub fn message(b: &[u8]) -> Result<(MBusMessage, usize), MBusError> {
	let mut input = Bytes::new(b);
	let m = MBusMessage::parse(&mut input)?;
	Ok((m, b.len() - input.len()))
}

pub fn frame(b: &[u8]) -> Result<(Frame, usize), MBusError> {
	let mut input = Bytes::new(b);
	let m = Frame::parse(&mut input)?;
	Ok((m, b.len() - input.len()))
}

pub fn record(b: &[u8]) -> Result<(Record, usize), MBusError> {
	let mut input = Bytes::new(b);
	let m = Record::parse(&mut input)?;
	Ok((m, b.len() - input.len()))
}

pub fn load(name: &str) -> Result<Vec<u8>, String> {
	libmbus::utils::read_test_file(name).map_err(|e| e.to_string())
}

/// The decoders of single fields, numbered; `n` is the size given to those that take one
pub const FIELDS: u64 = 12;

pub fn field(which: u64, n: usize, b: &[u8]) -> Result<(String, usize), MBusError> {
	use libmbus::parse::types::{date::*, number::*, string::*};
	let mut input = Bytes::new(b);
	let s = match which {
		0 => format!("{:?}", parse_bcd(n).parse_next(&mut input)?),
		1 => format!("{:?}", parse_invalid_bcd(n).parse_next(&mut input)?),
		2 => format!("{:?}", parse_binary_signed(n).parse_next(&mut input)?),
		3 => format!("{:?}", parse_binary_unsigned(n).parse_next(&mut input)?),
		4 => format!("{:?}", parse_real(&mut input)?.to_bits()),
		5 => format!("{:?}", TypeFDateTime::parse(&mut input)?),
		6 => format!("{:?}", TypeGDate::parse(&mut input)?),
		7 => format!("{:?}", TypeIDateTime::parse(&mut input)?),
		8 => format!("{:?}", TypeJTime::parse(&mut input)?),
		9 => format!("{:?}", TypeKDST::parse(&mut input)?),
		10 => format!("{:?}", parse_length_prefix_ascii(&mut input)?),
		_ => format!("{:?}", parse_latin1(n).parse_next(&mut input)?),
	};
	Ok((s, b.len() - input.len()))
}
