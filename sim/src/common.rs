//! Library results in a comparable form
use crate::ctx::*;
use crate::seam;
use mbdrive::Step;

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
	/// report text and bytes used
	T(String, usize),
	/// error text
	R(String),
	I(Option<usize>),
}

impl Res {
	pub fn short(&self) -> String {
		match self {
			Res::T(t, n) => format!("telegram of {n} bytes: {t}"),
			Res::R(e) => format!("rejected: {}", e.replace('\n', " / ")),
			Res::I(n) => format!("more bytes needed: {n:?}"),
		}
	}
	pub fn accepted(&self) -> bool {
		matches!(self, Res::T(..))
	}
}

pub fn res(s: Step) -> Res {
	match s {
		Step::Telegram(p, n) => Res::T(format!("{p:?}"), n),
		Step::Rejected(e) => Res::R(format!("{e}")),
		Step::Incomplete(n) => Res::I(n),
	}
}

impl Ctx {
	fn tally(&mut self, r: &Res) {
		match r {
			Res::T(..) => self.count(K::accepted),
			Res::R(_) => self.count(K::rejected),
			Res::I(_) => self.count(K::incomplete),
		}
	}
	pub fn whole(&mut self, b: &[u8]) -> Result<Res, Fail> {
		let b = seam::put(b);
		let r = self.lib("whole telegram decode", || match mbdrive::whole(b) {
			Ok(p) => Res::T(format!("{p:?}"), b.len()),
			Err(e) => Res::R(format!("{e}")),
		})?;
		self.tally(&r);
		Ok(r)
	}
	pub fn ended(&mut self, b: &[u8]) -> Result<Res, Fail> {
		let b = seam::put(b);
		let r = self.lib("decode", || res(mbdrive::ended(b)))?;
		self.tally(&r);
		Ok(r)
	}
	pub fn finished(&mut self, b: &[u8]) -> Result<Res, Fail> {
		let b = seam::put(b);
		let r = self.lib("decode of a finished stream", || res(mbdrive::finished(b)))?;
		self.tally(&r);
		Ok(r)
	}
	pub fn partial(&mut self, b: &[u8]) -> Result<Res, Fail> {
		let b = seam::put(b);
		let r = self.lib("streaming decode", || res(mbdrive::partial(b)))?;
		self.tally(&r);
		Ok(r)
	}
}
