//! Comparing reports: `Debug` text, insensitive to layout and to the order of named fields.

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub enum Node {
	Atom(String),
	Named(String, Vec<(String, Node)>),
	Tuple(String, Vec<Node>),
	List(Vec<Node>),
}

struct P<'a> {
	s: &'a [u8],
	i: usize,
}

impl P<'_> {
	fn ws(&mut self) {
		while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
			self.i += 1;
		}
	}
	fn eat(&mut self, b: u8) -> bool {
		self.ws();
		if self.s.get(self.i) == Some(&b) {
			self.i += 1;
			true
		} else {
			false
		}
	}
	fn atom(&mut self) -> Option<String> {
		self.ws();
		let start = self.i;
		if self.s.get(self.i) == Some(&b'"') {
			self.i += 1;
			while *self.s.get(self.i)? != b'"' {
				if self.s[self.i] == b'\\' {
					self.i += 1;
				}
				self.i += 1;
			}
			self.i += 1;
		} else {
			while self.i < self.s.len() && !b",(){}[]: \n\t".contains(&self.s[self.i]) {
				self.i += 1;
			}
		}
		if start == self.i {
			return None;
		}
		Some(String::from_utf8_lossy(&self.s[start..self.i]).into_owned())
	}
	fn node(&mut self) -> Option<Node> {
		self.ws();
		if self.eat(b'[') {
			return Some(Node::List(self.items(b']')?));
		}
		let name = if self.s.get(self.i) == Some(&b'(') { String::new() } else { self.atom()? };
		if self.eat(b'(') {
			return Some(Node::Tuple(name, self.items(b')')?));
		}
		if self.eat(b'{') {
			let mut f = Vec::new();
			while !self.eat(b'}') {
				let k = self.atom()?;
				if !self.eat(b':') {
					return None;
				}
				f.push((k, self.node()?));
				self.eat(b',');
			}
			f.sort();
			return Some(Node::Named(name, f));
		}
		Some(Node::Atom(name))
	}
	fn items(&mut self, end: u8) -> Option<Vec<Node>> {
		let mut v = Vec::new();
		while !self.eat(end) {
			v.push(self.node()?);
			self.eat(b',');
		}
		Some(v)
	}
}

pub fn parse(s: &str) -> Option<Node> {
	let mut p = P { s: s.as_bytes(), i: 0 };
	let n = p.node()?;
	p.ws();
	(p.i == p.s.len()).then_some(n)
}

pub fn same(a: &str, b: &str) -> bool {
	if a == b {
		return true;
	}
	match (parse(a), parse(b)) {
		(Some(x), Some(y)) => x == y,
		_ => false,
	}
}

/// The first place where two texts differ, for reports
pub fn difference(expected: &str, got: &str) -> String {
	let p = expected.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
	let cut = |s: &str| {
		let mut lo = p.saturating_sub(60).min(s.len());
		while !s.is_char_boundary(lo) {
			lo -= 1;
		}
		let mut hi = (p + 90).min(s.len());
		while !s.is_char_boundary(hi) {
			hi += 1;
		}
		s[lo..hi].to_string()
	};
	format!("expected ..{}.. got ..{}..", cut(expected), cut(got))
}
