//! Reference decoder: bytes to meaning, or `None` where the content is not legal.
//!
//! Written byte by byte from the published telegram layout, with the library's documented
//! leniencies; shares no code with the library and none with the encoder in `gen.rs`.
use super::tables::{self, Table};
use super::types::*;

pub struct Cur<'a> {
	pub b: &'a [u8],
	pub i: usize,
}

impl<'a> Cur<'a> {
	pub fn new(b: &'a [u8]) -> Self {
		Cur { b, i: 0 }
	}
	fn u8(&mut self) -> Option<u8> {
		let v = *self.b.get(self.i)?;
		self.i += 1;
		Some(v)
	}
	fn peek(&self) -> Option<u8> {
		self.b.get(self.i).copied()
	}
	fn take(&mut self, n: usize) -> Option<&'a [u8]> {
		if self.b.len() - self.i < n {
			return None;
		}
		let s = &self.b[self.i..self.i + n];
		self.i += n;
		Some(s)
	}
	fn rest(&mut self) -> Vec<u8> {
		let v = self.b[self.i..].to_vec();
		self.i = self.b.len();
		v
	}
}

pub fn control(b: u8) -> Option<Control> {
	if b & 0x80 != 0 {
		return None;
	}
	let x20 = b & 0x20 != 0;
	let x10 = b & 0x10 != 0;
	let f = b & 0x0F;
	if b & 0x40 != 0 {
		use PrimaryControlMessage as P;
		// bit 4 (frame count bit valid) is fixed for each function
		let message = match f {
			0 if !x10 => P::ResetRemoteLink,
			1 if !x10 => P::ResetUserProcess,
			3 if x10 => P::SendUserDataConfirmed,
			4 if !x10 => P::SendUserDataUnconfirmed,
			8 if !x10 => P::RequestAccessDemand,
			9 if !x10 => P::RequestLinkStatus,
			10 if x10 => P::RequestUserData1,
			11 if x10 => P::RequestUserData2,
			_ => return None,
		};
		Some(Control::Primary { frame_count_bit: x20, message })
	} else {
		use SecondaryControlMessage as S;
		let message = match f {
			0 => S::ACK,
			1 => S::NACK,
			8 => S::UserData,
			9 => S::UserDataUnavailable,
			11 => S::Status,
			14 => S::LinkNotFunctioning,
			15 => S::LinkNotImplemented,
			_ => return None,
		};
		Some(Control::Secondary {
			access_demand: x20,
			data_flow_control: if x10 { DataFlowControl::Pause } else { DataFlowControl::Continue },
			message,
		})
	}
}

/// What the link layer rules say about the bytes at the start of a stream
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Link {
	/// a whole telegram of this many bytes
	Valid(usize),
	/// could still become a telegram; this many bytes are known to be missing at least
	Unfinished(usize),
	/// can never become a telegram
	Broken,
}

pub fn sum(b: &[u8]) -> u8 {
	b.iter().fold(0u8, |a, x| a.wrapping_add(*x))
}

/// Link layer rules only (framing, length, checksum, control byte); payload not considered
pub fn link(b: &[u8]) -> Link {
	match b.first() {
		None => Link::Unfinished(1),
		Some(0xE5) => Link::Valid(1),
		Some(0x10) => {
			if b.len() >= 2 && control(b[1]).is_none() {
				return Link::Broken;
			}
			if b.len() >= 5 {
				if b[3] == b[1].wrapping_add(b[2]) && b[4] == 0x16 {
					Link::Valid(5)
				} else {
					Link::Broken
				}
			} else {
				Link::Unfinished(5 - b.len())
			}
		}
		Some(0x68) => {
			if b.len() >= 2 && b[1] < 2 {
				return Link::Broken;
			}
			if b.len() >= 3 && b[2] != b[1] {
				return Link::Broken;
			}
			if b.len() >= 4 && b[3] != 0x68 {
				return Link::Broken;
			}
			if b.len() >= 5 && control(b[4]).is_none() {
				return Link::Broken;
			}
			let total = match b.get(1) {
				None => 8,
				Some(l) => *l as usize + 6,
			};
			if b.len() < total {
				return Link::Unfinished(total - b.len());
			}
			let l = total - 6;
			if b[4 + l] == sum(&b[4..4 + l]) && b[5 + l] == 0x16 {
				Link::Valid(total)
			} else {
				Link::Broken
			}
		}
		Some(_) => Link::Broken,
	}
}

/// The telegram at the start of `b` and its length, if link layer and content are legal
pub fn packet_prefix(b: &[u8]) -> Option<(Packet, usize)> {
	let Link::Valid(n) = link(b) else { return None };
	let p = match b[0] {
		0xE5 => Packet::Ack,
		0x10 => Packet::Short { control: control(b[1])?, address: b[2] },
		_ => Packet::Long {
			control: control(b[4])?,
			address: b[5],
			message: message(&b[6..n - 2])?,
		},
	};
	Some((p, n))
}

/// `b` as exactly one telegram
pub fn packet(b: &[u8]) -> Option<Packet> {
	match packet_prefix(b) {
		Some((p, n)) if n == b.len() => Some(p),
		_ => None,
	}
}

fn status(b: u8) -> MeterStatus {
	MeterStatus {
		manufacturer_2: b & 0x80 != 0,
		manufacturer_1: b & 0x40 != 0,
		manufacturer_0: b & 0x20 != 0,
		temporary_error: b & 0x10 != 0,
		permanent_error: b & 0x08 != 0,
		power_low: b & 0x04 != 0,
		application: match b & 3 {
			0 => ApplicationError::None,
			1 => ApplicationError::Busy,
			2 => ApplicationError::Error,
			_ => ApplicationError::Alarm,
		},
	}
}

fn configuration(lo: u8, hi: u8) -> Option<SecurityMode> {
	match hi & 0x1F {
		0 if lo == 0 && hi == 0 => Some(SecurityMode::None),
		6 | 11 | 12 | 14 | 16..=31 => Some(SecurityMode::Reserved(lo as u16 | (hi as u16) << 8)),
		_ => None,
	}
}

fn short_header(c: &mut Cur) -> Option<ShortHeader> {
	let b = c.take(4)?;
	Some(ShortHeader {
		access_number: b[0],
		status: status(b[1]),
		configuration_field: configuration(b[2], b[3])?,
		extra_header: None,
	})
}

fn long_header(c: &mut Cur) -> Option<LongHeader> {
	let b = c.take(8)?;
	let id = bcd(&b[..4])?;
	if id < 0 {
		return None;
	}
	let raw_man = b[4] as u16 | (b[5] as u16) << 8;
	let mut man = String::new();
	for shift in [10, 5, 0] {
		let l = ((raw_man >> shift) & 0x1F) as u8;
		if !(1..=26).contains(&l) {
			return None;
		}
		man.push((b'A' + l - 1) as char);
	}
	let raw_id = [b[0], b[1], b[2], b[3]];
	// with the top bit set the code is not that of the registered manufacturer
	let name = if raw_man & 0x8000 == 0 { tables::product(&man, &raw_id, b[6], b[7]) } else { None };
	let s = short_header(c)?;
	Some(LongHeader {
		identifier: id as u32,
		manufacturer: man,
		device_name: name,
		version: b[6],
		device_type: tables::device_type(b[7]),
		access_number: s.access_number,
		status: s.status,
		configuration_field: s.configuration_field,
		extra_header: None,
	})
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HeaderKind {
	None,
	Short,
	Long,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
	ResetOrSelect,
	SelectedRequest,
	SelectedResponse,
	SelectionOfDevice,
	SetBaudRate,
	Synchronise,
	TimeAdjust,
	TimeSync,
	Alarm,
	AppError,
	Command,
	Readout,
	Auth,
	Dlms,
	Image,
	Manufacturer,
	Security,
	Specific,
	Wireless,
}

/// The kind of message and header each control information code announces
pub fn ci_kind(ci: u8) -> Option<(Kind, HeaderKind)> {
	use HeaderKind::{Long as L, None as N, Short as S};
	use Kind::*;
	Some(match ci {
		0x00..=0x1F => (Dlms, N),
		0x50 => (ResetOrSelect, N),
		0x51 => (Command, N),
		0x52 => (SelectionOfDevice, N),
		0x53 => (ResetOrSelect, L),
		0x54 => (SelectedRequest, N),
		0x55 => (SelectedRequest, L),
		0x5A => (Command, S),
		0x5B => (Command, L),
		0x5C => (Synchronise, N),
		0x5F => (Specific, L),
		0x60 => (Dlms, L),
		0x61 => (Dlms, S),
		0x66 => (SelectedResponse, N),
		0x67 => (SelectedResponse, S),
		0x68 => (SelectedResponse, L),
		0x6C => (TimeSync, L),
		0x6D => (TimeAdjust, L),
		0x6E => (AppError, S),
		0x6F => (AppError, L),
		0x70 => (AppError, N),
		0x71 => (Alarm, N),
		0x72 => (Readout, L),
		0x74 => (Alarm, S),
		0x75 => (Alarm, L),
		0x78 => (Readout, N),
		0x7A => (Readout, S),
		0x7C => (Dlms, L),
		0x7D => (Dlms, S),
		0x80 => (Wireless, L),
		0x81 => (Wireless, N),
		0x82 => (Wireless, L),
		0x83 => (Wireless, N),
		0x86 => (Wireless, N),
		0x87 => (Wireless, L),
		0x88 => (Wireless, S),
		0x89 => (Wireless, N),
		0x8A => (Wireless, S),
		0x8B => (Wireless, L),
		0x8C..=0x8F => (Wireless, N),
		0x90 => (Auth, N),
		0x9E => (Specific, S),
		0x9F => (Specific, L),
		0xA0..=0xB7 => (Manufacturer, N),
		0xB8..=0xBF => (SetBaudRate, N),
		0xC0 => (Image, L),
		0xC1 => (Image, S),
		0xC2 => (Image, L),
		0xC3 => (Security, L),
		0xC4 => (Security, S),
		0xC5 => (Security, L),
		_ => return None,
	})
}

pub fn baud(ci: u8) -> BaudRate {
	match ci {
		0xB8 => BaudRate::Rate300,
		0xB9 => BaudRate::Rate600,
		0xBA => BaudRate::Rate1200,
		0xBB => BaudRate::Rate2400,
		0xBC => BaudRate::Rate4800,
		0xBD => BaudRate::Rate9600,
		0xBE => BaudRate::Rate19200,
		_ => BaudRate::Rate38400,
	}
}

/// Everything between the address and the checksum of a long telegram
pub fn message(b: &[u8]) -> Option<MBusMessage> {
	message_next(b).map(|m| m.0)
}

/// The message and how many bytes of it have a meaning (some kinds are not decoded any further)
pub fn message_next(b: &[u8]) -> Option<(MBusMessage, usize)> {
	use MBusMessage as M;
	let mut c = Cur::new(b);
	let ci = c.u8()?;
	let (kind, hk) = ci_kind(ci)?;
	let h = match hk {
		HeaderKind::None => TPLHeader::None,
		HeaderKind::Short => TPLHeader::Short(short_header(&mut c)?),
		HeaderKind::Long => TPLHeader::Long(long_header(&mut c)?),
	};
	let m = match kind {
		Kind::ResetOrSelect => match application(&mut c)? {
			None => M::ApplicationReset(h),
			Some(a) => M::ApplicationSelect(h, a),
		},
		Kind::SelectedRequest => M::SelectedApplicationRequest(h),
		Kind::SelectedResponse => M::SelectedApplicationResponse(h, application(&mut c)??),
		Kind::SelectionOfDevice => M::SelectionOfDevice(c.rest()),
		Kind::SetBaudRate => M::SetBaudRate(baud(ci)),
		Kind::Synchronise => M::SynchroniseAction,
		Kind::TimeAdjust => M::TimeAdjustmentToDevice(h, c.rest()),
		Kind::TimeSync => M::TimeSyncToDevice(h, c.rest()),
		Kind::Alarm => M::AlarmFromDevice(h, c.rest()),
		Kind::AppError => M::ApplicationErrorFromDevice(h, application_error(&mut c)?),
		Kind::Command => M::CommandToDevice(h, c.rest()),
		Kind::Readout => M::ResponseFromDevice(h, frame_next(&mut c)?),
		Kind::Auth => M::AuthenticationAndFrgamentation(c.rest()),
		Kind::Dlms => M::Dlms(ci, h, c.rest()),
		Kind::Image => M::ImageTransfer(ci, h, c.rest()),
		Kind::Manufacturer => M::ManufacturerSpecific(ci, c.rest()),
		Kind::Security => M::SecurityTransfer(ci, h, c.rest()),
		Kind::Specific => M::SpecificUsage(ci, h, c.rest()),
		Kind::Wireless => M::Wireless(ci, h),
	};
	let used = c.i;
	Some((m, used))
}

/// `None`: not legal, `Some(None)`: no selection. Up to ten (application, block) digit pairs; the
/// application digits are added up until one of them is fifteen, the block digits are joined.
fn application(c: &mut Cur) -> Option<Option<ApplicationMessage>> {
	if c.i == c.b.len() {
		return Some(None);
	}
	let mut app = 0u64;
	let mut done = false;
	let mut block = 0u64;
	for _ in 0..10 {
		let Some(b) = c.u8() else { break };
		if !done {
			app += (b >> 4) as u64;
			done = b >> 4 == 15;
		}
		block = block * 16 + (b & 15) as u64;
	}
	use MessageApplication as A;
	let message_application = match app {
		0 => A::All,
		1 => A::UserData,
		2 => A::SimpleBilling,
		3 => A::EnhancedBilling,
		4 => A::MultiTariffBilling,
		5 => A::InstantaneousValues,
		6 => A::LoadProfileValuesForManagement,
		7 => A::StaticContent,
		8 => A::InstallationAndStartup,
		9 => A::Testing,
		10 => A::Calibration,
		11 => A::Manufacturing,
		12 => A::Development,
		13 => A::SelfTest,
		14 => A::ConfigurationData,
		15 => A::UserDefinedData,
		26..=45 => A::ManufacturerSpecific(app as u8),
		_ => return None,
	};
	Some(Some(ApplicationMessage { message_application, block_number: block }))
}

pub const ERROR_CODES: &[(u8, fn() -> ApplicationErrorMessage)] = &[
	(0x00, || ApplicationErrorMessage::Unspecified),
	(0x01, || ApplicationErrorMessage::CIFieldError),
	(0x02, || ApplicationErrorMessage::BufferOverflow),
	(0x03, || ApplicationErrorMessage::RecordOverflow),
	(0x04, || ApplicationErrorMessage::RecordError),
	(0x05, || ApplicationErrorMessage::DIFEOverflow),
	(0x06, || ApplicationErrorMessage::VIFEOverflow),
	(0x08, || ApplicationErrorMessage::ApplicationBusy),
	(0x09, || ApplicationErrorMessage::CreditOverflow),
	(0x11, || ApplicationErrorMessage::NoFunction),
	(0x12, || ApplicationErrorMessage::DataError),
	(0x13, || ApplicationErrorMessage::RoutingOrRelayingError),
	(0x14, || ApplicationErrorMessage::AccessViolation),
	(0x15, || ApplicationErrorMessage::ParameterError),
	(0x16, || ApplicationErrorMessage::SizeError),
	(0x20, || ApplicationErrorMessage::SecurityError),
	(0x21, || ApplicationErrorMessage::SecurityMechanismNotSupported),
	(0x22, || ApplicationErrorMessage::InadequateSecurityMethod),
];

fn application_error(c: &mut Cur) -> Option<ApplicationErrorMessage> {
	let Some(code) = c.u8() else {
		return Some(ApplicationErrorMessage::Unspecified);
	};
	if let Some((_, make)) = ERROR_CODES.iter().find(|(k, _)| *k == code) {
		return Some(make());
	}
	match code {
		0xF0 => Some(ApplicationErrorMessage::DynamicError(record_next(c)?)),
		0xF1..=0xFF => Some(ApplicationErrorMessage::ManufacturerSpecific(code, c.rest())),
		_ => None,
	}
}

pub fn frame(b: &[u8]) -> Option<Frame> {
	frame_next(&mut Cur::new(b))
}

pub fn frame_next(c: &mut Cur) -> Option<Frame> {
	let mut records = Vec::new();
	let mut more = false;
	loop {
		match c.peek() {
			None => break,
			Some(0x0F) => {
				c.i += 1;
				break;
			}
			Some(0x1F) => {
				c.i += 1;
				more = true;
				break;
			}
			Some(0x2F) => c.i += 1,
			Some(_) => records.push(record_next(c)?),
		}
	}
	Some(Frame { records, more_data_follows: more, manufacturer_specific: c.rest() })
}

pub fn record(b: &[u8]) -> Option<(Record, usize)> {
	let mut c = Cur::new(b);
	let r = record_next(&mut c)?;
	Some((r, c.i))
}

fn dib(c: &mut Cur) -> Option<DataInfoBlock> {
	let dif = c.u8()?;
	let raw_type = match dif & 0x0F {
		0x0 => RawDataType::None,
		n @ (1 | 2 | 3 | 4 | 6) => RawDataType::Binary(n as usize),
		0x5 => RawDataType::Real,
		0x7 => RawDataType::Binary(8),
		n @ (9 | 10 | 11 | 12 | 14) => RawDataType::BCD(n as usize - 8),
		0xD => RawDataType::LVAR,
		_ => return None,
	};
	let function = match (dif >> 4) & 3 {
		0 => DataFunction::InstantaneousValue,
		1 => DataFunction::MaximumValue,
		2 => DataFunction::MinimumValue,
		_ => DataFunction::ValueDuringErrorState,
	};
	let mut storage = ((dif >> 6) & 1) as u64;
	let mut tariff = 0u32;
	let mut device = 0u16;
	let mut is_obis = false;
	let mut more = dif & 0x80 != 0;
	let mut k = 0u32;
	while more {
		if k == 10 {
			return None;
		}
		let e = c.u8()?;
		more = e & 0x80 != 0;
		if e == 0 {
			is_obis = true;
			break;
		}
		storage |= ((e & 0x0F) as u64) << (1 + 4 * k);
		tariff |= (((e >> 4) & 3) as u32) << (2 * k);
		device |= (((e >> 6) & 1) as u16) << k;
		k += 1;
	}
	Some(DataInfoBlock { raw_type, function, storage, tariff, device, is_obis })
}

/// Also returns whether binary integers are unsigned under this value code
fn vib(c: &mut Cur) -> Option<(ValueInfoBlock, bool)> {
	let vif = c.u8()?;
	let mut more = vif & 0x80 != 0;
	let code = vif & 0x7F;
	let mut unsigned = false;
	let mut from = |t: Table, code: u8| {
		unsigned = tables::is_unsigned(t, code);
		tables::value_type(t, code)
	};
	let value_type = match code {
		0x00..=0x7A => from(Table::Primary, code),
		0x7B if more => {
			let e = c.u8()?;
			more = e & 0x80 != 0;
			from(Table::Ext1, e & 0x7F)
		}
		0x7D if more => {
			let e = c.u8()?;
			more = e & 0x80 != 0;
			if e & 0x7F == 0x7D {
				if !more {
					return None;
				}
				let e = c.u8()?;
				more = e & 0x80 != 0;
				from(Table::Ext2Ext2, e & 0x7F)
			} else {
				from(Table::Ext2, e & 0x7F)
			}
		}
		0x7C => {
			let n = c.u8()?;
			let raw = c.take(n as usize)?;
			let text = std::str::from_utf8(raw).ok()?;
			ValueType::PlainText(text.chars().rev().collect())
		}
		0x7E => ValueType::Any,
		0x7F => ValueType::ManufacturerSpecific,
		other => ValueType::Invalid(other),
	};
	let mut vifes = None;
	if more {
		let mut v = Vec::new();
		loop {
			let e = c.u8()?;
			v.push(e & 0x7F);
			if e & 0x80 == 0 {
				break;
			}
		}
		vifes = Some(v);
	}
	Some((ValueInfoBlock { value_type, extra_vifes: vifes }, unsigned))
}

/// Least significant byte first; `None` if any digit is not decimal. A leading F means minus.
pub fn bcd(b: &[u8]) -> Option<i64> {
	let mut v = 0i64;
	let mut neg = false;
	for (i, x) in b.iter().rev().enumerate() {
		let (mut hi, lo) = (x >> 4, x & 15);
		if i == 0 && hi == 15 {
			neg = true;
			hi = 0;
		}
		if hi > 9 || lo > 9 {
			return None;
		}
		v = v * 100 + (hi * 10 + lo) as i64;
	}
	Some(if neg { -v } else { v })
}

fn bcd_text(b: &[u8]) -> String {
	let mut s = String::new();
	for (i, x) in b.iter().rev().enumerate() {
		let hi = x >> 4;
		if i == 0 && hi == 15 {
			s.push('-');
		} else {
			s.push(char::from_digit(hi as u32, 16).unwrap().to_ascii_uppercase());
		}
		s.push(char::from_digit((x & 15) as u32, 16).unwrap().to_ascii_uppercase());
	}
	s
}

fn integer(b: &[u8], unsigned: bool) -> DataType {
	let mut v = 0u64;
	for x in b.iter().rev() {
		v = v << 8 | *x as u64;
	}
	if unsigned {
		return DataType::Unsigned(v);
	}
	if !b.is_empty() && b.len() < 8 && b[b.len() - 1] & 0x80 != 0 {
		v |= u64::MAX << (8 * b.len());
	}
	DataType::Signed(v as i64)
}

fn day_month_year(b0: u8, b1: u8) -> Option<(u8, u8, u8)> {
	if b0 == 0xFF && b1 == 0xFF {
		return None;
	}
	let day = b0 & 0x1F;
	let month = b1 & 0x0F;
	let year = (b0 >> 5) | (b1 >> 4) << 3;
	if month > 12 && month != 15 {
		return None;
	}
	if year > 99 && year != 127 {
		return None;
	}
	Some((day, month, year))
}

fn sixty(v: u8) -> Option<u8> {
	(v < 60 || v == 63).then_some(v)
}

fn hour(v: u8) -> Option<u8> {
	(v < 24 || v == 31).then_some(v)
}

fn date_f(b: &[u8]) -> Option<TypeFDateTime> {
	if b[0] & 0xC0 != 0 {
		return None;
	}
	let minute = sixty(b[0] & 0x3F)?;
	let hour = hour(b[1] & 0x1F)?;
	let (day, month, year) = day_month_year(b[2], b[3])?;
	let mut hundred_year = (b[1] >> 5) & 3;
	if hundred_year == 0 && year <= 80 {
		hundred_year = 1;
	}
	Some(TypeFDateTime { minute, hour, day, month, year, hundred_year, in_dst: b[1] & 0x80 != 0 })
}

fn date_i(b: &[u8]) -> Option<TypeIDateTime> {
	let second = sixty(b[0] & 0x3F)?;
	if b[1] & 0x80 != 0 {
		return None;
	}
	let minute = sixty(b[1] & 0x3F)?;
	let hour = hour(b[2] & 0x1F)?;
	let (day, month, year) = day_month_year(b[3], b[4])?;
	let week = b[5] & 0x3F;
	if week > 53 {
		return None;
	}
	let off = (b[5] >> 6) as i8;
	Some(TypeIDateTime {
		second,
		minute,
		hour,
		day,
		month,
		year,
		day_of_week: b[2] >> 5,
		week,
		in_dst: b[0] & 0x40 != 0,
		leap_year: b[0] & 0x80 != 0,
		dst_offset: if b[1] & 0x40 != 0 { off } else { -off },
	})
}

fn time_j(b: &[u8]) -> Option<TypeJTime> {
	if b[0] & 0xC0 != 0 || b[1] & 0xC0 != 0 || b[2] & 0xE0 != 0 {
		return None;
	}
	Some(TypeJTime { second: sixty(b[0])?, minute: sixty(b[1])?, hour: hour(b[2])? })
}

fn dst_k(b: &[u8]) -> Option<TypeKDST> {
	let starts_hour = hour(b[0] & 0x1F)?;
	let starts_day = b[1] & 0x1F;
	let ends_day = b[2] & 0x1F;
	let starts_month = b[3] & 0x0F;
	let ends_month = b[3] >> 4;
	if starts_day == 0 || ends_day == 0 {
		return None;
	}
	if !(1..=12).contains(&starts_month) || !(1..=12).contains(&ends_month) {
		return None;
	}
	let local = (b[0] >> 5) | ((b[1] >> 5) & 3) << 3;
	if local > 23 && local != 31 {
		return None;
	}
	let dev = ((b[2] >> 5) & 3) as i8;
	Some(TypeKDST {
		starts_hour,
		starts_day,
		starts_month,
		ends_day,
		ends_month,
		enable: b[1] & 0x80 != 0,
		dst_deviation: if b[2] & 0x80 != 0 { dev } else { -dev },
		local_deviation: local,
	})
}

pub fn record_next(c: &mut Cur) -> Option<Record> {
	let dib = dib(c)?;
	let (mut vib, unsigned) = vib(c)?;
	vib.value_type = match (vib.value_type, &dib.raw_type) {
		(ValueType::TypeGDate, RawDataType::Binary(2)) => ValueType::TypeGDate,
		(ValueType::TypeGDate, _) => ValueType::Invalid(0x6C),
		(ValueType::VariableDateTime, RawDataType::LVAR) => ValueType::TypeMDatetime,
		(ValueType::VariableDateTime, RawDataType::Binary(3)) => ValueType::TypeJTime,
		(ValueType::VariableDateTime, RawDataType::Binary(4)) => ValueType::TypeFDateTime,
		(ValueType::VariableDateTime, RawDataType::Binary(6)) => ValueType::TypeIDateTime,
		(ValueType::VariableDateTime, _) => ValueType::Invalid(0x6D),
		(ValueType::DSTTypeK, RawDataType::Binary(4)) => ValueType::DSTTypeK,
		(ValueType::DSTTypeK, _) => ValueType::Invalid(0x72),
		(v, _) => v,
	};
	let data = match vib.value_type {
		ValueType::TypeGDate => {
			let b = c.take(2)?;
			let (day, month, year) = day_month_year(b[0], b[1])?;
			DataType::Date(TypeGDate { day, month, year })
		}
		ValueType::TypeJTime => DataType::Time(time_j(c.take(3)?)?),
		ValueType::TypeFDateTime => DataType::DateTimeF(date_f(c.take(4)?)?),
		ValueType::TypeIDateTime => DataType::DateTimeI(date_i(c.take(6)?)?),
		ValueType::DSTTypeK => DataType::DST(dst_k(c.take(4)?)?),
		_ => match dib.raw_type {
			RawDataType::None => DataType::None,
			RawDataType::Binary(n) => integer(c.take(n)?, unsigned),
			RawDataType::BCD(n) => {
				let b = c.take(n)?;
				match bcd(b) {
					Some(v) => DataType::Signed(v),
					None => DataType::ErrorValue(bcd_text(b)),
				}
			}
			RawDataType::Real => {
				let b = c.take(4)?;
				DataType::Real(f32::from_bits(u32::from_le_bytes([b[0], b[1], b[2], b[3]])))
			}
			RawDataType::LVAR => {
				let l = c.u8()? as usize;
				match l {
					0x00..=0xBF => {
						let b = c.take(l)?;
						DataType::String(b.iter().rev().map(|x| tables::cp1252(*x)).collect())
					}
					0xC0..=0xC9 => {
						let v = bcd(c.take(l - 0xC0)?)?;
						if v < 0 {
							return None;
						}
						DataType::Signed(v)
					}
					0xD0..=0xD9 => DataType::Signed(-bcd(c.take(l - 0xD0)?)?.abs()),
					0xE0..=0xE8 => integer(c.take(l - 0xE0)?, unsigned),
					0xE9..=0xEF => DataType::VariableLengthNumber(c.take(l - 0xE0)?.to_vec()),
					0xF0..=0xF4 => DataType::VariableLengthNumber(c.take(4 * (l - 0xEC))?.to_vec()),
					0xF5 => DataType::VariableLengthNumber(c.take(48)?.to_vec()),
					0xF6 => DataType::VariableLengthNumber(c.take(64)?.to_vec()),
					_ => return None,
				}
			}
		},
	};
	Some(Record { dib, vib, data })
}

/// Single fields, numbered as in the driver: their text and how many bytes they take
pub fn field(which: u64, n: usize, b: &[u8]) -> Option<(String, usize)> {
	let mut c = Cur::new(b);
	let s = match which {
		0 => format!("{:?}", bcd(c.take(n)?)?),
		1 => format!("{:?}", bcd_text(c.take(n)?)),
		2 | 3 => match integer(c.take(n)?, which == 3) {
			DataType::Signed(v) => format!("{v:?}"),
			DataType::Unsigned(v) => format!("{v:?}"),
			_ => return None,
		},
		4 => {
			let b = c.take(4)?;
			format!("{:?}", u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
		}
		5 => format!("{:?}", date_f(c.take(4)?)?),
		6 => {
			let b = c.take(2)?;
			let (day, month, year) = day_month_year(b[0], b[1])?;
			format!("{:?}", TypeGDate { day, month, year })
		}
		7 => format!("{:?}", date_i(c.take(6)?)?),
		8 => format!("{:?}", time_j(c.take(3)?)?),
		9 => format!("{:?}", dst_k(c.take(4)?)?),
		10 => {
			let n = c.u8()?;
			let t = std::str::from_utf8(c.take(n as usize)?).ok()?;
			format!("{:?}", t.chars().rev().collect::<String>())
		}
		_ => format!("{:?}", c.take(n)?.iter().rev().map(|x| tables::cp1252(*x)).collect::<String>()),
	};
	Some((s, c.i))
}
