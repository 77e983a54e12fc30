//! Capture files on a disk that is slow, interrupted, torn or broken: C11 (loading them) and C12
//! (the inspection tool as a process of its own, whose system calls get scripted results).
use crate::choice::Ch;
use crate::ctx::*;
use crate::line::{self, Weather};
use crate::model::decode::{self, Link};
use crate::model::gen::{self, Taste, Want};
use crate::model::text;
use crate::seam::{self, Io};
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::{FromRawFd, RawFd};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::sync::atomic::Ordering::SeqCst;

/// A directory of this run alone, in which it works; removed at its end
struct Scratch(PathBuf);

impl Scratch {
	fn new() -> Result<Scratch, Fail> {
		let d = std::env::temp_dir().join(format!("mbsim-{}", std::process::id()));
		let _ = std::fs::remove_dir_all(&d);
		if std::fs::create_dir_all(&d).and_then(|_| std::env::set_current_dir(&d)).is_err() {
			return broken("cannot make a scratch directory");
		}
		unsafe { seam::TIDY_UP = Some(d.clone()) };
		Ok(Scratch(d))
	}
}
impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::env::set_current_dir("/");
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

#[derive(Clone, Debug, PartialEq)]
enum Holds {
	/// these bytes, and they have to be loaded
	Bytes(Vec<u8>),
	/// these bytes in a form that may also be refused
	Perhaps(Vec<u8>),
	/// not a listing of bytes
	Nothing,
}

/// What a listing in hexadecimal holds
fn listing(text: &[u8]) -> Holds {
	let Ok(s) = std::str::from_utf8(text) else { return Holds::Nothing };
	let s = s.trim();
	let tokens: Vec<&str> = s.split_whitespace().collect();
	let mut loose = tokens.is_empty() || tokens.join(" ") != s;
	let mut bytes = Vec::new();
	for t in tokens {
		if !t.bytes().all(|b| b.is_ascii_hexdigit()) {
			return Holds::Nothing;
		}
		loose |= t.len() != 2;
		match u8::from_str_radix(t, 16) {
			Ok(v) => bytes.push(v),
			Err(_) => return Holds::Nothing,
		}
	}
	if loose {
		Holds::Perhaps(bytes)
	} else {
		Holds::Bytes(bytes)
	}
}

fn write_listing(x: &mut Ctx, b: &[u8]) -> Vec<u8> {
	let c = &mut x.ch;
	// all upper case, all lower case, or as it happens
	let case = c.weighted(&[60, 25, if b.len() < 1000 { 15 } else { 0 }]);
	let loose = b.len() < 3000 && c.chance(100);
	let mut s = String::new();
	if loose && c.chance(300) {
		s.push('\n');
	}
	for (i, v) in b.iter().enumerate() {
		if i > 0 {
			s.push(' ');
			if loose && c.chance(60) {
				s.push_str(c.pick(&[" ", "\n", "\t", "\r\n"]));
			}
		}
		s += &match case {
			0 => format!("{v:02X}"),
			1 => format!("{v:02x}"),
			_ => format!("{v:02X}").chars().map(|d| if c.chance(500) { d.to_ascii_lowercase() } else { d }).collect(),
		};
	}
	s.push_str(c.pick(&["\n", "", "\r\n", " \n", "\n\n"]));
	s.into_bytes()
}

/// What other programs take for a mark, a line end, the end of a text or padding
const MARKS: [&[u8]; 26] = [
	b"\xEF\xBB\xBF", b"\xFF\xFE", b"\xFE\xFF", b"\x1F\x8B", b"PK", b"#!", b"#", b"0x", b"\n", b"\r\n", b"\r",
	b" ", b"\t", b"\0", b"\0\0\0\0", b"\x1A", b"\x04", b"\xFF\xFF", b"\x16\n", b"\x16\r\n", b"\x16\0", b"\x16\x16",
	b"\xE5\xE5", b"E5", b"68 ", b":10",
];

/// A raw capture with some of that at its ends or inside
fn mark(x: &mut Ctx, b: &mut Vec<u8>) {
	let c = &mut x.ch;
	for _ in 0..c.range(1, 3) {
		let m = c.pick(&MARKS);
		let at = match c.idx(5) {
			0 | 1 => 0,
			2 | 3 => b.len(),
			_ => c.idx(b.len() + 1),
		};
		b.splice(at..at, m.iter().copied());
	}
}

/// Damage to the file itself
fn damage_file(x: &mut Ctx, b: &mut Vec<u8>, text: bool) {
	let n = b.len();
	if n == 0 {
		return;
	}
	let c = &mut x.ch;
	let i = c.idx(n);
	match c.idx(8) {
		0 => b[i] ^= 1 << c.below(8),
		1 => {
			b[i] = if text { c.pick(b"gG+-xX.,\0\n\t 0\x80\xFF_'") } else { c.edgy() };
		}
		2 => {
			b.remove(i);
		}
		3 => {
			let v = if text { c.pick(b"0fF gx+\n-\xC3\xA0") } else { c.edgy() };
			b.insert(i, v);
		}
		4 => {
			let j = c.idx(n);
			b.swap(i, j);
		}
		5 => {
			let k = (c.range(1, 16) as usize).min(n - i);
			let v = c.pick(&[0u8, 0xFF, b' ', b'0']);
			b[i..i + k].fill(v);
		}
		6 => {
			// a lost block
			let k = (c.range(1, 40) as usize).min(n - i);
			b.drain(i..i + k);
		}
		_ => {
			let k = (c.range(1, 8) as usize).min(n - i);
			let v = b[i..i + k].to_vec();
			b.splice(i..i, v);
		}
	}
	x.fault(K::f_char);
}

fn capture(x: &mut Ctx, t: &Taste) -> Vec<u8> {
	match x.ch.idx(3) {
		0 => line::corpus()[x.ch.idx(line::corpus().len())].to_vec(),
		_ => gen::packet(&mut x.ch, t, Want::Any).bytes,
	}
}

const ERRNOS: [i32; 8] =
	[libc::EIO, libc::EINTR, libc::EAGAIN, libc::ENOMEM, libc::EISDIR, libc::ESTALE, libc::ENXIO, libc::EINVAL];
const OPEN_ERRNOS: [i32; 6] = [libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::EINTR, libc::ENOMEM];

pub fn c11(x: &mut Ctx) -> Run {
	let t = Taste::draw(&mut x.ch);
	let scratch = Scratch::new()?;
	let r = load_files(x, &t);
	drop(scratch);
	r
}

fn load_files(x: &mut Ctx, t: &Taste) -> Run {
	let short = x.ch.pick(&[300, 0, 900]);
	let broken_rate = x.ch.pick(&[20, 0, 4, 150]);
	let damage = x.ch.pick(&[300, 0, 800]);
	let files = x.ch.range(2, 10);
	for f in 0..files {
		x.ch.segment();
		let text = x.ch.chance(500);
		let (mut original, telegram) = match x.ch.weighted(&[60, 25, 15]) {
			0 => (capture(x, t), true),
			1 => {
				let n = x.ch.range(0, 600) as usize;
				(x.ch.bytes(n), false)
			}
			_ => {
				// around what buffers hold
				let n = match x.ch.idx(3) {
					0 => x.ch.pick(&[0usize, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
					1 => x.ch.pick(&[1023, 1024, 1025, 2730, 2731, 4095, 4096, 4097, 8191, 8192, 8193]),
					_ if x.ch.chance(20) => x.ch.pick(&[262_144, 1_048_575, 1_048_577, 2_500_000]),
					_ => x.ch.pick(&[16_384, 21_845, 21_846, 32_768, 65_535, 65_536, 65_537, 100_000]),
				};
				let k = x.ch.u8();
				((0..n).map(|i| (i as u8).wrapping_mul(k).wrapping_add((i >> 8) as u8)).collect(), false)
			}
		};
		let telegram = telegram && !(!text && x.ch.chance(300) && {
			if x.ch.chance(150) {
				// a listing under a name that says it is none
				original = write_listing(x, &original);
			}
			mark(x, &mut original);
			true
		});
		let mut content = if text { write_listing(x, &original) } else { original.clone() };
		let whole = content.len();
		let mut torn = false;
		if x.ch.chance(damage) {
			if x.ch.chance(400) && whole > 0 {
				let k = if x.ch.chance(500) { x.ch.idx(whole) } else { whole - 1 - x.ch.idx(whole.min(8)) };
				content.truncate(k);
				torn = true;
				x.fault(K::f_torn);
			} else {
				for _ in 0..x.ch.range(1, 3) {
					damage_file(x, &mut content, text);
				}
			}
		}
		let holds = if text { listing(&content) } else { Holds::Bytes(content.clone()) };
		let name = match text {
			true => x.ch.pick(&["a.hex", "telegram 1.hex", ".hex", "x.bin.hex"]),
			_ => x.ch.pick(&["a.bin", "a", "hex", "a.hex.bin", "a.HEX", "a.hexx"]),
		};
		let place = Place::draw(&mut x.ch, content.len());
		let (path, opened) = place.put(name, &content)?;
		let holds = if matches!(place, Place::Missing | Place::Directory) { Holds::Nothing } else { holds };
		// what happens to the calls that read it
		let style = x.ch.idx(4);
		let n = x.ch.range(1, 60);
		let script: Vec<Io> = (0..n)
			.map(|_| {
				if x.ch.chance(broken_rate) {
					Io::Err(x.ch.pick(&ERRNOS))
				} else if x.ch.chance(short) {
					Io::Short(match style {
						0 => 1,
						1 => x.ch.range(1, 8) as usize,
						2 => x.ch.range(1, 300) as usize,
						_ => x.ch.range(1, 9000) as usize,
					})
				} else {
					Io::Normal
				}
			})
			.collect();
		let opens = if x.ch.chance(broken_rate) { vec![x.ch.pick(&OPEN_ERRNOS)] } else { vec![] };
		unsafe {
			seam::FILE_SCRIPT = script.clone();
			seam::FILE_POS = 0;
			seam::OPEN_SCRIPT = opens.clone();
			seam::OPEN_POS = 0;
			seam::FILE_FIRED = [0; 4];
		}
		let scarce = f + 1 == files && x.ch.chance(120);
		if scarce {
			// the process may give up; nothing wrong with that
			let min = x.ch.pick(&[64, 9, 1000, 1]).min(content.len() as u64 / 2);
			seam::fail_allocations(min as usize, x.ch.range(0, 3), x.ch.pick(&[u64::MAX, 1, 2]), x.digest());
		}
		seam::FILE_ON.store(true, SeqCst);
		let got = x.lib("loading a file", || mbdrive::load(&path));
		seam::FILE_ON.store(false, SeqCst);
		let no_memory = seam::allocations_failed();
		let got = got?;
		let fired = unsafe { seam::FILE_FIRED };
		x.add(K::f_alloc, no_memory);
		x.add(K::f_short, fired[0]);
		x.add(K::f_eintr, fired[1]);
		x.add(K::f_eio, fired[2]);
		x.add(K::f_open, fired[3]);
		if fired.iter().any(|f| *f > 0) || torn || no_memory > 0 {
			x.nontrivial = true;
		}
		// an interrupted or failed call is a good reason to give up, a short read is not
		let excuse = fired[1] + fired[2] + fired[3] + no_memory > 0;
		x.mix_bytes(&content);
		x.mix(fired[0] | fired[1] << 16 | fired[2] << 32 | fired[3] << 48);
		x.state(text as u64 | (torn as u64) << 1 | fired[0].min(15) << 2 | fired[1].min(3) << 6 | fired[2].min(3) << 8 | fired[3].min(1) << 10 | (content.len().checked_ilog2().unwrap_or(0) as u64) << 12 | (got.is_ok() as u64) << 18 | (place as u64) << 19);
		x.note(|| {
			format!(
				"file {f} {name:?} ({place:?}) of {} bytes ({} originally): {}; {fired:?} short/interrupted/failed reads/opens; {}",
				content.len(),
				whole,
				if text { format!("{:?}", String::from_utf8_lossy(&content[..content.len().min(300)])) } else { hex(&content[..content.len().min(200)]) },
				match &got {
					Ok(b) => format!("loaded {} bytes", b.len()),
					Err(e) => format!("refused: {e}"),
				}
			)
		});
		x.count(K::checked);
		match (&got, &holds) {
			(Ok(b), Holds::Bytes(h) | Holds::Perhaps(h)) => {
				x.count(K::files_ok);
				if b != h {
					let at = b.iter().zip(h).take_while(|(p, q)| p == q).count();
					return fail(
						"loaded-wrong",
						format!("{name} holds {} bytes, {} were loaded, different from byte {at} on; reads: {fired:?}; script {script:?}", h.len(), b.len()),
					);
				}
			}
			(Ok(b), Holds::Nothing) => {
				return fail(
					"loaded-wrong",
					format!("{name} is not a listing of bytes but {} were loaded: {:?}", b.len(), String::from_utf8_lossy(&content)),
				)
			}
			(Err(e), Holds::Bytes(h)) if !excuse => {
				return fail("not-loaded", format!("{name} holds {} bytes but loading gave {e}; reads: {fired:?}", h.len()))
			}
			(Err(_), _) => x.count(K::files_err),
		}
		if let (Ok(b), true) = (&got, telegram) {
			if *b != original {
				let r = x.whole(b)?;
				if r.accepted() && decode::link(b) != Link::Valid(b.len()) {
					return fail("torn-decoded", format!("damaged capture {} decoded as {}", hex(b), r.short()));
				}
			}
		}
		opened.map(|fd| unsafe { libc::close(fd) });
		if std::fs::remove_file(&path).is_err() {
			let _ = std::fs::remove_dir(&path);
		}
	}
	Ok(())
}

fn harness(detail: String) -> Fail {
	Fail { class: "harness".into(), detail, harness: true }
}

/// Where a capture is read from
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
	File,
	Absolute,
	InDirectory,
	Link,
	/// a pipe, whose size is not known in advance
	Pipe,
	Missing,
	Directory,
}

impl Place {
	fn draw(c: &mut Ch, n: usize) -> Place {
		match c.weighted(&[60, 5, 5, 8, 12, 4, 2]) {
			1 => Place::Absolute,
			2 => Place::InDirectory,
			3 => Place::Link,
			4 if n <= 60_000 => Place::Pipe,
			5 => Place::Missing,
			6 => Place::Directory,
			_ => Place::File,
		}
	}

	/// The path to read it by, and what to close afterwards
	fn put(self, name: &str, content: &[u8]) -> Result<(String, Option<i32>), Fail> {
		let write = |path: &str| {
			std::fs::write(path, content).map_err(|e| harness(format!("cannot write a capture: {e}")))
		};
		let trouble = |e: std::io::Error| harness(format!("cannot prepare a capture: {e}"));
		Ok(match self {
			Place::File => {
				write(name)?;
				(name.to_string(), None)
			}
			Place::Absolute => {
				let path = std::env::current_dir().map_err(trouble)?.join(name).to_string_lossy().into_owned();
				write(&path)?;
				(path, None)
			}
			Place::InDirectory => {
				let _ = std::fs::create_dir("dir.hex");
				write(&format!("dir.hex/{name}"))?;
				(format!("./dir.hex/../dir.hex/{name}"), None)
			}
			Place::Link => {
				write("target")?;
				std::os::unix::fs::symlink("target", name).map_err(trouble)?;
				(name.to_string(), None)
			}
			Place::Pipe => {
				let mut fds = [0i32; 2];
				unsafe {
					if libc::pipe(fds.as_mut_ptr()) != 0 {
						return Err(trouble(std::io::Error::last_os_error()));
					}
					let mut at = 0;
					while at < content.len() {
						let n = libc::write(fds[1], content[at..].as_ptr() as *const libc::c_void, content.len() - at);
						if n <= 0 {
							return Err(trouble(std::io::Error::last_os_error()));
						}
						at += n as usize;
					}
					libc::close(fds[1]);
				}
				std::os::unix::fs::symlink(format!("/proc/self/fd/{}", fds[0]), name).map_err(trouble)?;
				(name.to_string(), Some(fds[0]))
			}
			Place::Missing => (name.to_string(), None),
			Place::Directory => {
				std::fs::create_dir(name).map_err(trouble)?;
				(name.to_string(), None)
			}
		})
	}
}

// ---------------------------------------------------------------------------------------------
// the tool

const OPS: usize = 512;
const LOG: usize = 2048;

/// As in shim.c
#[repr(C)]
struct Shim {
	n_open: u32,
	n_read: u32,
	n_write: u32,
	n_log: u32,
	open: [(u32, u32); OPS],
	read: [(u32, u32); OPS],
	write: [(u32, u32); OPS],
	log: [[u32; 4]; LOG],
	alloc_min: u32,
	alloc_from: u32,
	alloc_count: u32,
	n_alloc: u32,
}
/// of the allocations of at least `min` bytes, `count` fail from number `from` on
#[derive(Clone, Copy, Default)]
struct Scarce {
	min: u32,
	from: u32,
	count: u32,
}
const NORMAL: u32 = 0;
const SHORT: u32 = 1;
const ERROR: u32 = 2;
const KILL: u32 = 3;

struct Capture {
	arg: String,
	/// what the tool is to print: the file's line and, if it can be decoded, the telegram
	head: String,
	body: String,
	/// the error it is to print
	error: Option<String>,
	readable: bool,
}

impl Capture {
	/// The part of its path by which the shim knows it
	fn number(&self) -> &str {
		self.arg.rsplit('/').next().unwrap_or_default()
	}
}

struct Ended {
	status: Option<i32>,
	out: Vec<u8>,
	err: Vec<u8>,
	calls: [u32; 3],
	log: Vec<[u32; 4]>,
}

fn memfd(name: &std::ffi::CStr, size: i64) -> RawFd {
	unsafe {
		let fd = libc::memfd_create(name.as_ptr(), 0);
		if fd >= 0 && size > 0 {
			libc::ftruncate(fd, size);
		}
		fd
	}
}

/// Run the tool with results for its calls
fn tool(files: &[Capture], script: &[Vec<(usize, (u32, u32))>; 3], scarce: Scarce) -> Result<Ended, Fail> {
	let (Ok(path), Ok(so)) = (std::env::var("MBSIM_TOOL"), std::env::var("MBSIM_SHIM")) else {
		return broken("MBSIM_TOOL and MBSIM_SHIM have to say where the tool and the shim are");
	};
	let size = std::mem::size_of::<Shim>();
	let (fd, out, err) = (memfd(c"shim", size as i64), memfd(c"out", 0), memfd(c"err", 0));
	if fd < 0 || out < 0 || err < 0 {
		return broken("cannot make memory files");
	}
	let map = unsafe {
		libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0)
	};
	if map == libc::MAP_FAILED {
		return broken("cannot map memory");
	}
	let s = unsafe { &mut *(map as *mut Shim) };
	for (ops, list) in [(&mut s.open, &script[0]), (&mut s.read, &script[1]), (&mut s.write, &script[2])] {
		for (i, o) in list {
			if *i < OPS {
				ops[*i] = *o;
			}
		}
	}
	(s.alloc_min, s.alloc_from, s.alloc_count) = (scarce.min, scarce.from, scarce.count);
	let mut o = unsafe { std::fs::File::from_raw_fd(out) };
	let mut e = unsafe { std::fs::File::from_raw_fd(err) };
	let mut c = std::process::Command::new(path);
	c.args(files.iter().map(|f| &f.arg))
		.env_clear()
		.env("LD_PRELOAD", so)
		.env("MBSHIM_FD", fd.to_string())
		.stdin(std::process::Stdio::null())
		.stdout(o.try_clone().expect("dup"))
		.stderr(e.try_clone().expect("dup"));
	unsafe {
		c.pre_exec(|| {
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			let l = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
			libc::setrlimit(libc::RLIMIT_CPU, &l);
			Ok(())
		});
	}
	let st = match c.status() {
		Ok(s) => s,
		Err(e) => return broken(format!("cannot run the tool: {e}")),
	};
	let read = |f: &mut std::fs::File| {
		let mut v = Vec::new();
		let _ = f.seek(SeekFrom::Start(0));
		let _ = f.read_to_end(&mut v);
		v
	};
	let r = Ended {
		status: st.code(),
		out: read(&mut o),
		err: read(&mut e),
		calls: [s.n_open, s.n_read, s.n_write],
		log: s.log[..(s.n_log as usize).min(LOG)].to_vec(),
	};
	unsafe {
		libc::munmap(map, size);
		libc::close(fd);
	}
	Ok(r)
}

/// Output as text; a character cut in half at its end, by a write that failed half way, left out
fn printed(b: &[u8]) -> String {
	match std::str::from_utf8(b) {
		Err(e) if e.error_len().is_none() => String::from_utf8_lossy(&b[..e.valid_up_to()]).into_owned(),
		_ => String::from_utf8_lossy(b).into_owned(),
	}
}

pub fn c12(x: &mut Ctx) -> Run {
	let t = Taste { max_records: x.ch.pick(&[2, 1, 6, 6, 200]), ..Taste::draw(&mut x.ch) };
	let scratch = Scratch::new()?;
	let r = inspect(x, &t);
	drop(scratch);
	r
}

fn captures(x: &mut Ctx, t: &Taste) -> Result<Vec<Capture>, Fail> {
	let w = Weather { rate: 1000, ..Weather::draw(&mut x.ch) };
	let mut v: Vec<Capture> = Vec::new();
	let n = match x.ch.weighted(&[90, 2, 8]) {
		0 => x.ch.range(1, 5),
		1 => 0,
		_ => x.ch.range(6, 40),
	};
	let bad = x.ch.pick(&[150, 0, 500]);
	for i in 0..n {
		x.ch.segment();
		let hex_file = x.ch.chance(500);
		let stem = x.ch.pick(&["", "_a", "_b c", "_ü\"q\"", "_back\\slash", "_new\nline", "_'x", "_\u{1b}[1m"]);
		let dir = x.ch.pick(&["", "", "", "", "./", "d.hex/", "d.hex/../"]);
		if !dir.is_empty() {
			let _ = std::fs::create_dir("d.hex");
		}
		let arg = format!("{dir}{i}{stem}{}", if hex_file { ".hex" } else { x.ch.pick(&["", ".bin", ".HEX"]) });
		let head = format!("File {arg:?}:\n");
		let kind = if x.ch.chance(bad) { 1 + x.ch.idx(6) } else { 0 };
		let mut b = capture(x, t);
		match kind {
			1 => {
				line::damage(x, &w, &mut b);
			}
			2 => {
				let k = x.ch.idx(b.len());
				b.truncate(k);
				x.fault(K::f_torn);
			}
			6 => {
				// more behind it, up to many pages
				let n = x.ch.pick(&[1usize, 2, 40, 3000, 9000, 70_000]);
				let v = x.ch.u8();
				b.extend((0..n).map(|i| v.wrapping_add((i >> 3) as u8)));
			}
			_ => {}
		}
		let mut content = if hex_file {
			b.iter().map(|v| format!("{v:02X}")).collect::<Vec<_>>().join(" ").into_bytes()
		} else {
			b.clone()
		};
		if hex_file && x.ch.chance(700) {
			content.push(b'\n');
		}
		let mut readable = true;
		match kind {
			3 => {
				x.note(|| format!("{arg:?} does not exist"));
				v.push(Capture { arg, head, body: String::new(), error: None, readable: false });
				continue;
			}
			4 if hex_file => {
				damage_file(x, &mut content, true);
				match listing(&content) {
					Holds::Bytes(v) => b = v,
					// may go either way
					Holds::Perhaps(_) => content = b"68 xx".to_vec(),
					Holds::Nothing => {}
				}
				readable = matches!(listing(&content), Holds::Bytes(_));
			}
			5 => {
				if std::fs::create_dir(&arg).is_err() {
					return broken("cannot make a directory");
				}
				x.note(|| format!("{arg:?} is a directory"));
				v.push(Capture { arg, head, body: String::new(), error: None, readable: false });
				continue;
			}
			_ => {}
		}
		// nothing but an empty listing
		if hex_file && b.is_empty() && readable {
			content = b"E5".to_vec();
			b = vec![0xE5];
		}
		if std::fs::write(&arg, &content).is_err() {
			return broken("cannot write a capture");
		}
		let (mut body, mut error) = (String::new(), None);
		if readable {
			match x.lib("whole telegram decode", || match mbdrive::whole(&b) {
				Ok(p) => Ok(format!("{p:#?}\n")),
				Err(e) => Err(format!("{e}")),
			})? {
				Ok(s) => {
					if let Some(meant) = decode::packet(&b) {
						let meant = format!("{meant:?}");
						if !text::same(&meant, &s) {
							return fail(
								"wrong-report",
								format!("what is printed for {} is not what it says: {}", hex(&b), text::difference(&meant, &s)),
							);
						}
					}
					body = s
				}
				Err(e) => {
					if e.trim().is_empty() {
						return fail("no-error", format!("nothing is printed for {}, which cannot be decoded", hex(&b)));
					}
					error = Some(e)
				}
			}
		}
		x.mix_bytes(&content);
		x.note(|| format!("{arg:?} holds {} ({})", hex(&content), if !readable { "unreadable" } else if error.is_some() { "not decodable" } else { "decodable" }));
		v.push(Capture { arg, head, body, error, readable });
	}
	if v.len() > 1 && x.ch.chance(100) {
		// the same again
		let k = x.ch.idx(v.len());
		let c = &v[k];
		let again =
			Capture { arg: c.arg.clone(), head: c.head.clone(), body: c.body.clone(), error: c.error.clone(), readable: c.readable };
		v.push(again);
	}
	Ok(v)
}

fn inspect(x: &mut Ctx, t: &Taste) -> Run {
	let files = captures(x, t)?;
	// once without faults, to see how many calls there are
	let quiet = tool(&files, &[vec![], vec![], vec![]], Scarce::default())?;
	judge(x, &files, &quiet, "no faults")?;
	let times = x.ch.range(2, 6);
	for _ in 0..times {
		x.ch.segment();
		let mut script = [vec![], vec![], vec![]];
		let mut what = String::new();
		let mut scarce = Scarce::default();
		let kinds = x.ch.range(1, 3);
		for _ in 0..kinds {
			if x.ch.chance(80) {
				scarce = Scarce {
					min: x.ch.pick(&[300, 40, 1, 1000]),
					from: x.ch.range(0, 8) as u32,
					count: x.ch.pick(&[1, 2, u32::MAX]),
				};
				what += &format!(" {} allocations failing from number {} of {} bytes", scarce.count, scarce.from, scarce.min);
				continue;
			}
			let which = x.ch.weighted(&[1, 4, 5]);
			let calls = quiet.calls[which].max(1) as usize;
			let c = &mut x.ch;
			match c.weighted(&[5, 3, 5, 2]) {
				0 if which > 0 => {
					// every call is short for a while
					let from = c.idx(calls);
					let n = c.pick(&[400usize, 1, 20]);
					let max = c.pick(&[1u64, 7, 100, 5000]);
					for i in from..(from + n).min(OPS) {
						let k = c.range(1, max) as u32;
						script[which].push((i, (SHORT, k)));
					}
					what += &format!(" short {} {from}..", ["opens", "reads", "writes"][which]);
				}
				1 => {
					let i = c.idx(calls + 2);
					let n = c.range(1, 3) as usize;
					for k in i..i + n {
						script[which].push((k, (ERROR, libc::EINTR as u32)));
					}
					what += &format!(" interrupted {} {i}", ["open", "read", "write"][which]);
				}
				2 => {
					let i = if c.chance(500) { c.idx(calls + 2) } else { calls - 1 - c.idx(calls.min(3)) };
					let e = match which {
						0 => c.pick(&OPEN_ERRNOS),
						1 => c.pick(&ERRNOS),
						_ => c.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EAGAIN, libc::EDQUOT, libc::EFBIG]),
					};
					// it stays broken or was broken only once
					let n = if c.chance(500) { 1 } else { OPS };
					for k in i..(i + n).min(OPS) {
						script[which].push((k, (ERROR, e as u32)));
					}
					what += &format!(" failing ({e}) {} {i}", ["open", "read", "write"][which]);
				}
				_ => {
					let i = c.idx(calls);
					script[which].push((i, (KILL, 0)));
					what += &format!(" killed at {} {i}", ["open", "read", "write"][which]);
				}
			}
		}
		let e = tool(&files, &script, scarce)?;
		judge(x, &files, &e, &what)?;
	}
	Ok(())
}

fn judge(x: &mut Ctx, files: &[Capture], e: &Ended, what: &str) -> Run {
	x.count(K::tool_runs);
	let mut killed = false;
	let mut hard = false;
	let mut soft = false;
	// whether the last thing that happened to a file was a failure
	let mut unread: Vec<bool> = files.iter().map(|_| false).collect();
	for [call, kind, value, file] in e.log.iter().copied() {
		let interrupted = kind == ERROR && value == libc::EINTR as u32;
		match (kind, call as u8) {
			(SHORT, b'r') => x.fault(K::f_short),
			(SHORT, _) => x.fault(K::f_wshort),
			(ERROR, _) if interrupted => x.fault(K::f_eintr),
			(ERROR, b'o') => x.fault(K::f_open),
			(ERROR, b'r') => x.fault(K::f_eio),
			(ERROR, b'a') => x.fault(K::f_alloc),
			(ERROR, _) => x.fault(K::f_werr),
			(KILL, _) => x.fault(K::f_kill),
			_ => {}
		}
		soft |= interrupted;
		hard |= kind == ERROR && !interrupted;
		killed |= kind == KILL;
		if call as u8 != b'w' {
			for (f, u) in files.iter().zip(&mut unread) {
				if f.number().bytes().take_while(|b| b.is_ascii_digit()).fold(0, |a, d| a * 10 + (d - b'0') as u32) + 1 == file {
					*u = kind == ERROR || kind == KILL;
				}
			}
		}
	}
	if e.log.iter().any(|l| l[1] != NORMAL) {
		x.nontrivial = true;
	}
	let ok = e.status == Some(0);
	x.count(if ok { K::tool_ok } else { K::tool_fail });
	x.count(K::checked);
	x.mix_bytes(&e.out);
	x.mix(e.status.unwrap_or(-1) as u64);
	x.state(files.len() as u64 | (ok as u64) << 3 | (hard as u64) << 4 | (soft as u64) << 5 | (killed as u64) << 6 | (e.log.len().min(255) as u64) << 7 | (files.iter().filter(|f| f.readable).count() as u64) << 15 | (files.iter().filter(|f| f.error.is_some()).count() as u64) << 19);
	let out = printed(&e.out);
	let err = printed(&e.err);
	x.note(|| format!("tool with{what}: status {:?}, {} bytes printed, {} of errors, {} calls", e.status, out.len(), err.len(), e.log.len()));
	let full: String = files.iter().map(|f| f.head.clone() + &f.body).collect();
	let story = || {
		format!(
			"{what}; status {:?}; files {:?}; {}\nerrors printed: {}",
			e.status,
			files.iter().map(|f| &f.arg).collect::<Vec<_>>(),
			crate::model::text::difference(&full, &out),
			err.chars().take(600).collect::<String>()
		)
	};
	// every error in its place
	let errors_complete = || {
		let mut rest = &err[..];
		files.iter().filter_map(|f| f.error.as_ref()).all(|m| match rest.find(m.as_str()) {
			Some(i) => {
				rest = &rest[i + m.len()..];
				true
			}
			None => false,
		})
	};
	if ok {
		if let Some(f) = files.iter().find(|f| !f.readable) {
			return fail("false-success", format!("{:?} cannot be read, but the tool ended successfully: {}", f.arg, story()));
		}
		if let Some((f, _)) = files.iter().zip(&unread).find(|(_, u)| **u) {
			return fail("false-success", format!("{:?} was not read to its end, but the tool ended successfully: {}", f.arg, story()));
		}
		if out != full {
			return fail("false-success", format!("the tool ended successfully, but its output is not complete: {}", story()));
		}
		if !errors_complete() {
			return fail("false-success", format!("the tool ended successfully, but not every error was printed: {}", story()));
		}
		return Ok(());
	}
	// a file named twice may have been read only once
	for (f, u) in files.iter().zip(&mut unread) {
		*u &= files.iter().filter(|g| g.arg == f.arg).count() == 1;
	}
	// what it managed to print has to be right
	let mut rest = &out[..];
	for (f, u) in files.iter().zip(&unread) {
		let Some(r) = rest.strip_prefix(&f.head[..]) else {
			if f.head.starts_with(rest) {
				rest = "";
			}
			continue;
		};
		rest = r;
		if f.body.is_empty() {
			continue;
		}
		if let Some(r) = rest.strip_prefix(&f.body[..]) {
			rest = r;
		} else if f.body.starts_with(rest) {
			if *u && !killed && !rest.is_empty() {
				return fail("printed-unread", format!("printed for {:?}, which was not read to its end: {}", f.arg, story()));
			}
			rest = "";
			continue;
		} else {
			continue;
		}
		if *u && !killed {
			return fail("printed-unread", format!("printed for {:?}, which was not read to its end: {}", f.arg, story()));
		}
	}
	if !rest.is_empty() {
		return fail("wrong-output", format!("printed out of place: {:?}: {}", rest.chars().take(200).collect::<String>(), story()));
	}
	if !hard && !soft && !killed {
		// no reason to fail but the files themselves
		if files.iter().all(|f| f.readable && f.error.is_none()) {
			return fail("false-failure", format!("the tool failed for no reason: {}", story()));
		}
		let before: String = files.iter().take_while(|f| f.readable).map(|f| f.head.clone() + &f.body).collect();
		if !out.starts_with(&before) {
			return fail("wrong-output", format!("readable files were not reported: {}", story()));
		}
		let n = files.iter().take_while(|f| f.readable).count();
		if !files[..n].iter().filter_map(|f| f.error.as_ref()).all(|m| err.contains(m.as_str())) {
			return fail("wrong-output", format!("not every error was printed: {}", story()));
		}
	}
	Ok(())
}

