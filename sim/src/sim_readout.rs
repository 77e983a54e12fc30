//! Master and meters in conversation: C08.
//!
//! A discrete event simulation. The master reads meters one session at a time: it resets the link
//! (or selects the meter by its number), then requests telegram after telegram, toggling the frame
//! count bit, as long as the meter says that more records follow. Everybody understands the others
//! only through the library. Requests and answers get lost, damaged, repeated, split and late,
//! meters and the master go down and come back.
use crate::ctx::*;
use crate::seam;
use crate::line::{self, Weather};
use crate::model::decode::{self, Link};
use crate::model::gen::{self, Meter, Taste};
use crate::model::text::{self, Node};
use crate::model::types::*;
use crate::sim_link::BYTE_NS;
use mbdrive::Step;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

const MS: u64 = 1_000_000;
/// the master asks again if nothing came within this time; longer than any prompt answer takes
const ASK_AGAIN: u64 = 2_500 * MS;
/// no answer is later than this, so that waiting as long leaves nothing of the last session
const LATEST: u64 = 20_000 * MS;
const MAX_EVENTS: u64 = 6000;

/// What somebody understood
enum Said {
	Ack,
	/// function, frame count bit, address
	Request(String, bool, u8),
	/// an answer without data: function, address
	Status(String, u8),
	Select(u8, Vec<u8>),
	Answer(Answer),
	Other,
}

struct Answer {
	address: u8,
	/// identification number, if it said one
	identity: Option<String>,
	access: Option<u8>,
	parts: Vec<Node>,
	more: bool,
}

fn field<'a>(n: &'a Node, k: &str) -> Option<&'a Node> {
	match n {
		Node::Named(_, f) => f.iter().find(|x| x.0 == k).map(|x| &x.1),
		_ => None,
	}
}
fn atom(n: Option<&Node>) -> Option<&str> {
	match n {
		Some(Node::Atom(a)) => Some(a),
		_ => None,
	}
}
fn number<T: std::str::FromStr>(n: Option<&Node>) -> Option<T> {
	atom(n)?.parse().ok()
}

fn understand(n: &Node) -> Said {
	let Node::Named(name, _) = n else {
		return if *n == Node::Atom("Ack".into()) { Said::Ack } else { Said::Other };
	};
	let Some(address) = number::<u8>(field(n, "address")) else { return Said::Other };
	let Some(control) = field(n, "control") else { return Said::Other };
	let Some(function) = atom(field(control, "message")) else { return Said::Other };
	let primary = matches!(control, Node::Named(k, _) if k == "Primary");
	if name == "Short" {
		return if primary {
			Said::Request(function.into(), atom(field(control, "frame_count_bit")) == Some("true"), address)
		} else {
			Said::Status(function.into(), address)
		};
	}
	let Some(Node::Tuple(kind, args)) = field(n, "message") else { return Said::Other };
	match (kind.as_str(), primary) {
		("SelectionOfDevice", true) if function == "SendUserDataConfirmed" => {
			let Some(Node::List(v)) = args.first() else { return Said::Other };
			Said::Select(address, v.iter().filter_map(|b| number(Some(b))).collect())
		}
		("ResponseFromDevice", false) if function == "UserData" => {
			let header = match args.first() {
				Some(Node::Tuple(_, h)) => h.first(),
				_ => None,
			};
			let Some(frame) = args.get(1) else { return Said::Other };
			let mut parts = match field(frame, "records") {
				Some(Node::List(v)) => v.clone(),
				_ => return Said::Other,
			};
			match field(frame, "manufacturer_specific") {
				Some(Node::List(v)) if v.is_empty() => {}
				Some(m) => parts.push(m.clone()),
				None => {}
			}
			Said::Answer(Answer {
				address,
				identity: header.and_then(|h| atom(field(h, "identifier"))).map(|s| s.into()),
				access: header.and_then(|h| number(field(h, "access_number"))),
				parts,
				more: atom(field(frame, "more_data_follows")) == Some("true"),
			})
		}
		_ => Said::Other,
	}
}

/// One telegram of a readout as the meter has it
struct Page {
	records: Vec<u8>,
	parts: Vec<Node>,
}

struct Node_ {
	address: u8,
	fixed: Meter,
	long_header: bool,
	pages: Vec<Page>,
	/// how often the readings changed
	version: u64,
	/// survives a restart
	access: u8,
	up: bool,
	/// does not: where it is in a readout
	at: Option<Position>,
	selected: bool,
	delay: u64,
}

#[derive(Clone)]
struct Position {
	page: usize,
	/// nothing sent yet after a reset
	fresh: bool,
	fcb: bool,
	sent: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
	Idle,
	Ping,
	Link,
	Reading,
}

struct Master {
	up: bool,
	phase: Phase,
	meter: usize,
	by_number: bool,
	fcb: bool,
	access: Option<u8>,
	parts: Vec<Node>,
	pages: u64,
	exchanges: u64,
	tries: u64,
	/// distinguishes the timeout of this request from older ones
	ticket: u64,
	tainted: bool,
	boots: u64,
	/// cannot listen while it sends
	sends_until: u64,
}

enum Event {
	/// to one meter: bytes, as sent
	Request(usize, Vec<u8>, bool),
	/// to the master
	Answer(Vec<u8>, bool),
	Timeout(u64),
	/// begin a session, unless the master has restarted since
	Start(u64),
	MeterDown(usize),
	MeterUp(usize),
	MasterDown,
	MasterUp,
}

struct Sim {
	heap: BinaryHeap<Reverse<(u64, u64)>>,
	events: std::collections::BTreeMap<u64, Event>,
	seq: u64,
	meters: Vec<Node_>,
	m: Master,
	taste: Taste,
	w: Weather,
	lose_request: u64,
	lose_answer: u64,
	late: u64,
	again: u64,
	crash: u64,
	reset: u64,
	echo: u64,
	retries: u64,
	/// no faults from here on
	calm: bool,
	sessions_left: u64,
	/// meters still to be read in the calm
	to_read: Vec<usize>,
	completed: u64,
	/// fault kinds that hit the session under way
	hits: u64,
}

impl Sim {
	fn at(&mut self, t: u64, e: Event) {
		self.seq += 1;
		self.heap.push(Reverse((t, self.seq)));
		self.events.insert(self.seq, e);
	}
}

fn pages(x: &mut Ctx, t: &Taste, long_header: bool, old: Option<&[Page]>) -> Vec<Page> {
	let n = match x.ch.idx(4) {
		0 => 2,
		1 => 1,
		2 => x.ch.range(1, 6),
		_ => x.ch.range(3, 9),
	};
	let mut v: Vec<Page> = (0..n)
		.map(|i| {
			// at most what a telegram can hold
			let all = gen::MAX_PAYLOAD - if long_header { 13 } else { 5 };
			let room = x.ch.pick(&[40usize, 15, 120, 230, all]);
			let f = gen::frame(&mut x.ch, t, room, Some(i + 1 < n));
			let mut parts: Vec<Node> =
				f.means.records.iter().filter_map(|r| text::parse(&format!("{r:?}"))).collect();
			if !f.means.manufacturer_specific.is_empty() {
				parts.extend(text::parse(&format!("{:?}", f.means.manufacturer_specific)));
			}
			Page { records: f.bytes, parts }
		})
		.collect();
	// repeated readings tell a telegram read twice from two telegrams only by their place
	if let Some(old) = old {
		if x.ch.chance(200) && old.len() > 1 {
			v = old.iter().map(|p| Page { records: p.records.clone(), parts: p.parts.clone() }).collect();
		}
	}
	v
}

fn decode_burst(x: &mut Ctx, who: &str, b: &[u8], clean: bool) -> Result<Vec<Said>, Fail> {
	let mut buf = Vec::new();
	let mut out = Vec::new();
	let mut k = 0;
	let mut ok = true;
	let cuts = line::pieces(&mut x.ch, b.len());
	if cuts.len() > 1 {
		x.count(K::f_split);
	}
	'all: for p in cuts {
		buf.extend(&b[k..k + p]);
		k += p;
		loop {
			if buf.is_empty() {
				break;
			}
			let bytes = seam::put(&buf);
			let r = x.lib("streaming decode", || match mbdrive::partial(bytes) {
				Step::Telegram(p, n) => Some((format!("{p:?}"), n)),
				Step::Incomplete(_) => Some((String::new(), 0)),
				Step::Rejected(_) => None,
			})?;
			match r {
				None => {
					x.count(K::rejected);
					ok = false;
					break 'all;
				}
				Some((_, 0)) => {
					x.count(K::incomplete);
					break;
				}
				Some((t, n)) => {
					x.count(K::accepted);
					if n > bytes.len() {
						return fail("consumption", format!("a telegram of {n} bytes from {}", hex(&bytes)));
					}
					if !clean && decode::link(&bytes[..n]) != Link::Valid(n) {
						return fail("damage-accepted", format!("{} understood as {t}", hex(&bytes[..n])));
					}
					let Some(node) = text::parse(&t) else {
						return broken(format!("cannot read report {t}"));
					};
					out.push(understand(&node));
					buf.drain(..n);
				}
			}
		}
	}
	if !buf.is_empty() || !ok {
		x.note(|| format!("{who} cannot make sense of {}{}", hex(b), if clean { "" } else { " (damaged)" }));
		if !clean {
			out.clear();
		} else {
			out.push(Said::Other);
		}
	}
	Ok(out)
}

pub fn c08(x: &mut Ctx) -> Run {
	let mut taste = Taste::draw(&mut x.ch);
	taste.max_records = x.ch.pick(&[3, 1, 8]);
	let w = Weather::draw(&mut x.ch);
	let w = Weather { rate: x.ch.pick(&[60, 0, 20, 250]), ..w };
	let n = x.ch.range(1, 3) as usize;
	let mut meters = Vec::new();
	for i in 0..n {
		let mut fixed = gen::meter(&mut x.ch, &taste);
		// numbers are unique
		fixed.digits[7] = i as u8;
		let long_header = x.ch.chance(700);
		let pages = pages(x, &taste, long_header, None);
		let access = match x.ch.idx(3) {
			0 => x.ch.range(250, 255) as u8,
			_ => x.ch.u8(),
		};
		meters.push(Node_ {
			address: x.ch.range(0, 60) as u8 * 4 + 1 + i as u8,
			long_header,
			fixed,
			pages,
			version: 0,
			access,
			up: true,
			at: None,
			selected: false,
			delay: x.ch.range(5, 150) * MS,
		});
	}
	let mut s = Sim {
		heap: BinaryHeap::new(),
		events: Default::default(),
		seq: 0,
		meters,
		m: Master {
			up: true,
			phase: Phase::Idle,
			meter: 0,
			by_number: false,
			fcb: false,
			access: None,
			parts: vec![],
			pages: 0,
			exchanges: 0,
			tries: 0,
			ticket: 0,
			tainted: false,
			boots: 0,
			sends_until: 0,
		},
		taste,
		w,
		lose_request: x.ch.pick(&[60, 0, 20, 200]),
		lose_answer: x.ch.pick(&[60, 0, 20, 200]),
		late: x.ch.pick(&[80, 0, 300]),
		again: x.ch.pick(&[80, 0, 300]),
		crash: x.ch.pick(&[10, 0, 50]),
		reset: x.ch.pick(&[5, 0, 30]),
		echo: x.ch.pick(&[0, 0, 1000, 200]),
		retries: x.ch.range(1, 6),
		calm: false,
		sessions_left: x.ch.range(1, 5),
		to_read: vec![],
		completed: 0,
		hits: 0,
	};
	s.at(0, Event::Start(0));
	let mut steps = 0;
	while let Some(Reverse((t, q))) = s.heap.pop() {
		steps += 1;
		if steps > MAX_EVENTS {
			return fail("no-end", "the conversation does not come to an end");
		}
		x.now = t;
		let e = s.events.remove(&q).unwrap();
		match e {
			Event::Start(boot) => {
				if boot == s.m.boots {
					start(x, &mut s)?
				}
			}
			Event::Request(i, b, clean) => meter_hears(x, &mut s, i, &b, clean)?,
			Event::Answer(b, clean) => master_hears(x, &mut s, &b, clean)?,
			Event::Timeout(k) => {
				if s.m.up && k == s.m.ticket && s.m.phase != Phase::Idle {
					again(x, &mut s)?
				}
			}
			Event::MeterDown(i) => {
				x.fault(K::f_crash);
				s.hits |= 1;
				x.note(|| format!("meter {i} goes down"));
				s.meters[i].up = false;
				s.meters[i].at = None;
				s.meters[i].selected = false;
			}
			Event::MeterUp(i) => {
				x.note(|| format!("meter {i} is back"));
				s.meters[i].up = true;
				if x.ch.chance(300) {
					s.meters[i].access = s.meters[i].access.wrapping_add(x.ch.range(1, 9) as u8);
				}
			}
			Event::MasterDown => {
				x.fault(K::f_master);
				x.note(|| "the master goes down".into());
				s.m.up = false;
				s.m.boots += 1;
				s.m.phase = Phase::Idle;
				s.m.ticket += 1;
				s.m.parts.clear();
				let t = x.now + x.ch.range(1, 5000) * MS;
				s.at(t, Event::MasterUp);
			}
			Event::MasterUp => {
				x.note(|| "the master is back".into());
				s.m.up = true;
				let boot = s.m.boots;
				s.at(x.now + LATEST, Event::Start(boot));
			}
		}
	}
	if !s.calm {
		return broken("the conversation ended before the calm");
	}
	Ok(())
}

/// Begin a session with some meter
fn start(x: &mut Ctx, s: &mut Sim) -> Run {
	x.ch.segment();
	if !s.m.up {
		return Ok(());
	}
	s.hits = 0;
	if s.calm {
		let Some(i) = s.to_read.pop() else { return Ok(()) };
		s.m.meter = i;
	} else if s.sessions_left == 0 {
		x.note(|| "no more faults".into());
		s.calm = true;
		s.to_read = (0..s.meters.len()).collect();
		for m in &mut s.meters {
			m.up = true;
		}
		return start(x, s);
	} else {
		s.sessions_left -= 1;
		s.m.meter = x.ch.idx(s.meters.len());
		if x.ch.chance(s.reset * 8) {
			let t = x.now + x.ch.range(1, 12_000) * MS;
			s.at(t, Event::MasterDown);
		}
	}
	s.m.by_number = s.meters[s.m.meter].long_header && x.ch.chance(300);
	s.m.tainted = false;
	s.m.parts.clear();
	s.m.pages = 0;
	s.m.access = None;
	s.m.exchanges = 0;
	s.m.fcb = true;
	s.m.phase = if x.ch.chance(150) { Phase::Ping } else { Phase::Link };
	s.m.tries = 0;
	let (i, by) = (s.m.meter, s.m.by_number);
	x.note(|| format!("session with meter {i}, {}", if by { "selected by number" } else { "by address" }));
	ask(x, s)
}

fn target(s: &Sim) -> u8 {
	if s.m.by_number && s.m.phase != Phase::Ping {
		0xFD
	} else {
		s.meters[s.m.meter].address
	}
}

/// Send the request the master is waiting to have answered
fn ask(x: &mut Ctx, s: &mut Sim) -> Run {
	use PrimaryControlMessage as P;
	s.m.tries += 1;
	s.m.ticket += 1;
	let a = target(s);
	let short = |m: P, fcb: bool| gen::wrap_short(gen::primary_with(m, fcb).bytes[0], a);
	let b = match s.m.phase {
		Phase::Idle => return Ok(()),
		Phase::Ping => short(P::RequestLinkStatus, false),
		Phase::Link if s.m.by_number => {
			let m = &s.meters[s.m.meter].fixed;
			let mut p = vec![0x52];
			p.extend(&number_of(m));
			gen::wrap_long(gen::primary_with(P::SendUserDataConfirmed, false).bytes[0], 0xFD, &p)
		}
		Phase::Link => short(P::ResetRemoteLink, false),
		Phase::Reading => {
			s.m.exchanges += 1;
			short(P::RequestUserData2, s.m.fcb)
		}
	};
	let (tries, phase) = (s.m.tries, s.m.phase);
	x.note(|| format!("master sends {} ({phase:?}, try {tries})", hex(&b)));
	x.count(K::telegrams);
	if tries > 1 {
		x.count(K::retries);
	}
	let over = x.now + b.len() as u64 * BYTE_NS;
	s.m.sends_until = over;
	let calm = s.calm;
	if !calm && x.ch.chance(s.echo) {
		x.count(K::f_echo);
		s.at(over, Event::Answer(b.clone(), true));
	}
	for i in 0..s.meters.len() {
		let mut c = b.clone();
		if !calm {
			if x.ch.chance(s.lose_request) {
				x.fault(K::f_drop);
				s.hits |= 2;
				continue;
			}
			line::damage(x, &s.w, &mut c);
			if c == b && x.ch.chance(s.again) {
				// heard twice in a row
				x.fault(K::f_dup);
				s.hits |= 4;
				c.extend(&b);
			} else if c != b {
				s.hits |= 8;
			}
		}
		let clean = c == b || c.len() == 2 * b.len() && c[..b.len()] == b && c[b.len()..] == b;
		s.at(over, Event::Request(i, c, clean));
		if !calm && x.ch.chance(s.crash) {
			let t = x.now + x.ch.range(1, 1600) * MS;
			s.at(t, Event::MeterDown(i));
			let t = t + x.ch.range(1, 6000) * MS;
			s.at(t, Event::MeterUp(i));
		}
	}
	s.at(over + ASK_AGAIN, Event::Timeout(s.m.ticket));
	Ok(())
}

fn number_of(m: &Meter) -> Vec<u8> {
	let mut b: Vec<u8> = m.digits.chunks(2).rev().map(|p| p[0] << 4 | p[1]).collect();
	let code = m.maker.iter().fold(0u16, |a, l| a * 32 + (l - b'A' + 1) as u16) | (m.soft as u16) << 15;
	b.extend(code.to_le_bytes());
	b.push(m.version);
	b.push(m.device);
	b
}

/// Nothing came: once more, or give up
fn again(x: &mut Ctx, s: &mut Sim) -> Run {
	if s.calm {
		let (m, phase) = (s.m.meter, s.m.phase);
		return fail(
			"not-completed",
			format!("no faults, but meter {m} and the master do not understand each other ({phase:?}, telegram {})", s.m.pages),
		);
	}
	if s.m.phase == Phase::Ping {
		// it was only a question
		s.m.phase = Phase::Link;
		s.m.tries = 0;
		return ask(x, s);
	}
	if s.m.tries > s.retries {
		x.count(K::gave_up);
		x.note(|| "master gives up".into());
		end_session(x, s);
		return Ok(());
	}
	ask(x, s)
}

fn end_session(x: &mut Ctx, s: &mut Sim) {
	if s.hits != 0 {
		x.nontrivial = true;
	}
	x.state(s.hits | s.m.pages << 8 | (s.m.tries.min(7)) << 16 | (s.m.by_number as u64) << 20 | (s.m.phase as u64) << 21);
	if s.m.tainted {
		x.count(K::tainted);
	}
	s.m.phase = Phase::Idle;
	s.m.ticket += 1;
	let boot = s.m.boots;
	s.at(x.now + LATEST, Event::Start(boot));
}

fn meter_hears(x: &mut Ctx, s: &mut Sim, i: usize, b: &[u8], clean: bool) -> Run {
	if !s.meters[i].up {
		return Ok(());
	}
	let said = decode_burst(x, "a meter", b, clean)?;
	x.mix_bytes(b);
	if !clean && !said.is_empty() {
		x.count(K::collisions_pass);
		s.m.tainted = true;
	}
	let mut answers: Vec<u8> = Vec::new();
	let calm = s.calm;
	for w in said {
		let mut fresh = false;
		let m = &mut s.meters[i];
		let mine = |a: u8, m: &Node_| a == m.address || a == 0xFD && m.selected;
		let reply = match w {
			Said::Request(f, fcb, a) if mine(a, m) => match f.as_str() {
				"ResetRemoteLink" => {
					fresh = true;
					vec![0xE5]
				}
				"RequestLinkStatus" => gen::wrap_short(0x0B, m.address),
				"RequestUserData2" => read(x, m, fcb),
				_ => vec![],
			},
			Said::Select(0xFD, p) => {
				m.selected = p == number_of(&m.fixed);
				if m.selected {
					fresh = true;
					vec![0xE5]
				} else {
					vec![]
				}
			}
			_ => vec![],
		};
		if fresh {
			if x.ch.chance(400) {
				let t = s.taste.clone();
				let new = pages(x, &t, s.meters[i].long_header, Some(&s.meters[i].pages));
				s.meters[i].pages = new;
				s.meters[i].version += 1;
			}
			s.meters[i].at = Some(Position { page: 0, fresh: true, fcb: false, sent: vec![] });
		}
		if !reply.is_empty() {
			// it answers the last request only
			answers = reply;
		}
	}
	if answers.is_empty() {
		return Ok(());
	}
	let m = &s.meters[i];
	let (page, delay) = (m.at.as_ref().map(|p| p.page), m.delay);
	x.note(|| format!("meter {i} answers {} (telegram {page:?} of its readout)", hex(&answers)));
	x.count(K::telegrams);
	let mut over = x.now + delay + answers.len() as u64 * BYTE_NS;
	let sent = answers.clone();
	let mut clean = true;
	if !calm {
		if x.ch.chance(s.lose_answer) {
			x.fault(K::f_drop);
			s.hits |= 16;
			return Ok(());
		}
		line::damage(x, &s.w, &mut answers);
		clean = answers == sent;
		if !clean {
			s.hits |= 32;
		}
		if clean && x.ch.chance(s.again) {
			x.fault(K::f_dup);
			s.hits |= 64;
			if x.ch.chance(500) {
				answers.extend(&sent);
			} else {
				let t = over + x.ch.range(1, 6000) * MS;
				s.at(t, Event::Answer(sent, true));
			}
		}
		if x.ch.chance(s.late) {
			x.fault(K::f_delay);
			s.hits |= 128;
			over += x.ch.range(1, 8000) * MS;
		}
	}
	s.at(over, Event::Answer(answers, clean));
	Ok(())
}

/// The meter's answer to a request for data
fn read(x: &mut Ctx, m: &mut Node_, fcb: bool) -> Vec<u8> {
	let Some(p) = &mut m.at else { return vec![] };
	if !p.fresh && fcb == p.fcb {
		return p.sent.clone();
	}
	let page = match (p.fresh, fcb) {
		(true, true) => 0,
		(true, false) => return vec![],
		_ => p.page + 1,
	};
	let Some(content) = m.pages.get(page) else { return vec![] };
	m.access = m.access.wrapping_add(1);
	let h = gen::short_header_with(&mut x.ch, m.access);
	let mut payload;
	if m.long_header {
		payload = vec![0x72];
		payload.extend(gen::long_header(&m.fixed, h).bytes);
	} else {
		payload = vec![0x7A];
		payload.extend(h.bytes);
	}
	payload.extend(&content.records);
	let flags = x.ch.pick(&[0u8, 0, 0x20, 0x10]);
	let b = gen::wrap_long(0x08 | flags, m.address, &payload);
	*p = Position { page, fresh: false, fcb, sent: b.clone() };
	b
}

fn master_hears(x: &mut Ctx, s: &mut Sim, b: &[u8], clean: bool) -> Run {
	if !s.m.up {
		return Ok(());
	}
	if x.now < s.m.sends_until {
		x.note(|| format!("the master is sending and misses {}", hex(b)));
		return Ok(());
	}
	let said = decode_burst(x, "the master", b, clean)?;
	x.mix_bytes(b);
	if !clean && !said.is_empty() {
		x.count(K::collisions_pass);
		s.m.tainted = true;
	}
	for w in said {
		match (s.m.phase, w) {
			(Phase::Ping, Said::Status(_, a)) if a == s.meters[s.m.meter].address || s.m.by_number => {
				s.m.phase = Phase::Link;
				s.m.tries = 0;
				ask(x, s)?;
			}
			(Phase::Link, Said::Ack) => {
				s.m.phase = Phase::Reading;
				s.m.tries = 0;
				ask(x, s)?;
			}
			(Phase::Reading, Said::Answer(a)) => {
				let m = &s.meters[s.m.meter];
				let right = if s.m.by_number {
					let mut id = 0u32;
					for d in m.fixed.digits {
						id = id * 10 + d as u32;
					}
					a.identity == Some(id.to_string())
				} else {
					a.address == m.address
				};
				let next = match (s.m.access, a.access) {
					(_, None) => false,
					(None, _) => true,
					(Some(p), Some(n)) => n == p.wrapping_add(1),
				};
				if !right || !next {
					x.note(|| "not what the master waits for".into());
					continue;
				}
				x.count(K::readout_parts);
				s.m.access = a.access;
				s.m.parts.extend(a.parts);
				s.m.pages += 1;
				s.m.tries = 0;
				if a.more {
					s.m.fcb = !s.m.fcb;
					ask(x, s)?;
				} else {
					complete(x, s)?;
				}
			}
			_ => {}
		}
	}
	Ok(())
}

fn complete(x: &mut Ctx, s: &mut Sim) -> Run {
	let m = &s.meters[s.m.meter];
	let truth: Vec<&Node> = m.pages.iter().flat_map(|p| &p.parts).collect();
	x.count(K::readouts);
	let (pages, i, tainted) = (s.m.pages, s.m.meter, s.m.tainted);
	x.note(|| format!("readout of meter {i} complete: {pages} telegrams"));
	s.completed += 1;
	if !tainted {
		x.add(K::records, truth.len() as u64);
		if truth.len() != s.m.parts.len() || truth.iter().zip(&s.m.parts).any(|(a, b)| **a != *b) {
			let at = truth.iter().zip(&s.m.parts).take_while(|(a, b)| ***a == **b).count();
			return fail(
				"wrong-readout",
				format!(
					"meter {i} has {} records in {} telegrams, the master read {} in {pages}; they differ from number {at} on\nexpected {:?}\ngot {:?}",
					truth.len(),
					m.pages.len(),
					s.m.parts.len(),
					truth.get(at),
					s.m.parts.get(at)
				),
			);
		}
	}
	if s.calm && s.m.exchanges != m.pages.len() as u64 {
		return fail(
			"not-completed",
			format!("no faults, but {} requests for {} telegrams", s.m.exchanges, m.pages.len()),
		);
	}
	end_session(x, s);
	Ok(())
}
