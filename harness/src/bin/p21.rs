//! P21: every sequence of operations on slice cursors and borrowed readers against an index model.
use mc::rep::*;
use revision::optimised::envelope::{read_varlen_len, read_varlen_slice, skip_varlen, skip_varlen_borrowed};
use revision::slice_reader::{take_bytes_reader, take_bytes_slice};
use revision::{advance_read, read_borrowed_bytes, BorrowedReader, Error, SliceReader};
use std::collections::HashSet;
use std::io::Read;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
	Consume(usize),
	Advance(usize),
	/// through the `&mut R` forwarding impl
	AdvanceRef(usize),
	Peek(usize),
	PeekRef(usize),
	Read(usize),
	ReadExact(usize),
	ReadToEnd,
	AdvanceRead(usize),
	Borrow(usize),
	BorrowRef(usize),
	Take(usize),
	Sub(usize, usize),
	VarLen,
	VarSlice,
	VarSkip,
	VarSkipBorrowed,
}

/// The reference: a window of the buffer and an index.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct St {
	start: usize,
	pos: usize,
	end: usize,
}

trait Cur: BorrowedReader + Copy {
	const KIND: &'static str;
	const TRACKS: bool;
	fn make(b: &'static [u8]) -> Self;
	fn consume(&mut self, n: usize) -> Result<(), Error>;
	fn take(&mut self, n: usize) -> Result<&'static [u8], Error>;
	fn sub(&self, o: usize, n: usize) -> Option<Result<Self, Error>>;
	/// inherent accessors: unread bytes and consumed length
	fn own(&self) -> Option<(&[u8], usize)>;
}
impl Cur for SliceReader<'static> {
	const KIND: &'static str = "SliceReader";
	const TRACKS: bool = true;
	fn make(b: &'static [u8]) -> Self {
		SliceReader::new(b)
	}
	fn consume(&mut self, n: usize) -> Result<(), Error> {
		SliceReader::consume(self, n)
	}
	fn take(&mut self, n: usize) -> Result<&'static [u8], Error> {
		take_bytes_reader(self, n)
	}
	fn sub(&self, o: usize, n: usize) -> Option<Result<Self, Error>> {
		Some(SliceReader::sub(self, o, n))
	}
	fn own(&self) -> Option<(&[u8], usize)> {
		Some((SliceReader::remaining(self), self.consumed_len()))
	}
}
impl Cur for &'static [u8] {
	const KIND: &'static str = "&[u8]";
	const TRACKS: bool = false;
	fn make(b: &'static [u8]) -> Self {
		b
	}
	fn consume(&mut self, n: usize) -> Result<(), Error> {
		self.advance(n)
	}
	fn take(&mut self, n: usize) -> Result<&'static [u8], Error> {
		take_bytes_slice(self, n)
	}
	fn sub(&self, _: usize, _: usize) -> Option<Result<Self, Error>> {
		None
	}
	fn own(&self) -> Option<(&[u8], usize)> {
		None
	}
}

fn same(a: &[u8], b: &[u8]) -> bool {
	// the very bytes, not a copy
	a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr())
}
fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
	if ok {
		Ok(())
	} else {
		Err(what())
	}
}

/// The reader shows exactly the model's window.
fn at<C: Cur>(c: &C, buf: &[u8], s: St) -> Result<(), String> {
	let mut d = *c;
	let left = &buf[s.pos..s.end];
	ck(same(BorrowedReader::remaining(c), left), || format!("remaining() has {} bytes at {s:?}", BorrowedReader::remaining(c).len()))?;
	ck(same(BorrowedReader::remaining(&&mut d), left), || "remaining() through &mut differs".into())?;
	let p = s.pos - s.start;
	if C::TRACKS {
		ck(c.position() == p, || format!("position() is {} at {s:?}", c.position()))?;
		ck(BorrowedReader::position(&&mut d) == p, || "position() through &mut differs".into())?;
	}
	if let Some((b, n)) = c.own() {
		ck(same(b, left) && n == p, || format!("inherent remaining/consumed_len say {} / {n} at {s:?}", b.len()))?;
	}
	Ok(())
}
/// After a failed stream read the position is only known to lie in the window.
fn inside<C: Cur>(c: &C, buf: &[u8], s: St) -> Result<(), String> {
	let n = BorrowedReader::remaining(c).len();
	ck(n <= s.end - s.pos && same(BorrowedReader::remaining(c), &buf[s.end - n..s.end]), || format!("remaining() leaves the window of {s:?}"))
}

/// Performs `op` on the reader and the model. `Ok(None)`: failed as it should, position unspecified.
fn step<C: Cur>(c: &C, buf: &[u8], s: St, op: Op) -> Result<Option<(C, St)>, String> {
	let mut r = *c;
	let left = s.end - s.pos;
	let window = &buf[s.pos..s.end];
	// outcome of cursor operations: moved by n, or failed without moving
	let moved = |n: usize, what: &str, ok: bool| -> Result<St, String> {
		if n <= left {
			ck(ok, || format!("{what}({n}) failed with {left} left"))?;
			Ok(St { pos: s.pos + n, ..s })
		} else {
			ck(!ok, || format!("{what}({n}) succeeded with {left} left"))?;
			Ok(s)
		}
	};
	let shown = |n: usize, what: &str, x: &Result<&[u8], Error>| -> Result<(), String> {
		match x {
			Ok(b) => ck(n <= left && same(b, &window[..n.min(left)]), || format!("{what}({n}) gives {} bytes elsewhere", b.len())),
			Err(_) => ck(n > left, || format!("{what}({n}) failed with {left} left")),
		}
	};
	let varlen = || {
		window.get(..4).map(|b| u32::from_le_bytes(b.try_into().unwrap()) as usize)
	};
	let s2 = match op {
		Op::Consume(n) => {
			let ok = C::consume(&mut r, n).is_ok();
			moved(n, "consume", ok)?
		}
		Op::Advance(n) => {
			let ok = r.advance(n).is_ok();
			moved(n, "advance", ok)?
		}
		Op::AdvanceRef(n) => {
			let ok = BorrowedReader::advance(&mut &mut r, n).is_ok();
			moved(n, "advance through &mut", ok)?
		}
		Op::Peek(n) => {
			shown(n, "peek_bytes", &r.peek_bytes(n))?;
			s
		}
		Op::PeekRef(n) => {
			shown(n, "peek_bytes through &mut", &BorrowedReader::peek_bytes(&&mut r, n))?;
			s
		}
		Op::Read(n) => {
			let mut b = vec![0xEE; n];
			let k = r.read(&mut b).map_err(|e| format!("read: {e}"))?;
			ck(k <= n && k <= left && (k > 0 || n == 0 || left == 0), || format!("read of {n} gave {k} with {left} left"))?;
			ck(b[..k] == window[..k] && b[k..].iter().all(|x| *x == 0xEE), || "read gave other bytes".into())?;
			St { pos: s.pos + k, ..s }
		}
		Op::ReadExact(n) => {
			let mut b = vec![0xEE; n];
			let ok = r.read_exact(&mut b).is_ok();
			ck(ok == (n <= left), || format!("read_exact({n}) {ok} with {left} left"))?;
			if !ok {
				inside(&r, buf, s)?;
				return Ok(None);
			}
			ck(b == window[..n], || "read_exact gave other bytes".into())?;
			St { pos: s.pos + n, ..s }
		}
		Op::ReadToEnd => {
			let mut b = vec![];
			let k = r.read_to_end(&mut b).map_err(|e| format!("read_to_end: {e}"))?;
			ck(k == left && b == window, || "read_to_end gave other bytes".into())?;
			St { pos: s.end, ..s }
		}
		Op::AdvanceRead(n) => {
			let ok = advance_read(&mut r, n).is_ok();
			ck(ok == (n <= left), || format!("advance_read({n}) {ok} with {left} left"))?;
			if !ok {
				inside(&r, buf, s)?;
				return Ok(None);
			}
			St { pos: s.pos + n, ..s }
		}
		Op::Borrow(n) => {
			let x = read_borrowed_bytes(&mut r, n);
			shown(n, "read_borrowed_bytes", &x)?;
			let ok = x.is_ok();
			moved(n, "read_borrowed_bytes", ok)?
		}
		Op::BorrowRef(n) => {
			let mut m = &mut r;
			let x = read_borrowed_bytes(&mut m, n);
			shown(n, "read_borrowed_bytes through &mut", &x)?;
			let ok = x.is_ok();
			moved(n, "read_borrowed_bytes through &mut", ok)?
		}
		Op::Take(n) => {
			let x = Cur::take(&mut r, n);
			shown(n, "take_bytes", &x)?;
			moved(n, "take_bytes", x.is_ok())?
		}
		Op::Sub(o, n) => {
			let Some(x) = r.sub(o, n) else {
				return Ok(None);
			};
			at(&r, buf, s)?;
			let len = s.end - s.start;
			let fits = o >= s.pos - s.start && o <= len && n <= len - o.min(len);
			match x {
				Ok(sub) => {
					ck(fits, || format!("sub({o},{n}) of {s:?} succeeded"))?;
					let st = St { start: s.start + o, pos: s.start + o, end: s.start + o + n };
					at(&sub, buf, st)?;
					return Ok(Some((sub, st)));
				}
				Err(_) => {
					ck(!fits, || format!("sub({o},{n}) of {s:?} failed"))?;
					s
				}
			}
		}
		Op::VarLen => match (varlen(), read_varlen_len(&mut r)) {
			(Some(n), Ok(k)) => {
				ck(n == k as usize, || format!("read_varlen_len gave {k}, not {n}"))?;
				St { pos: s.pos + 4, ..s }
			}
			(None, Err(_)) => {
				inside(&r, buf, s)?;
				return Ok(None);
			}
			(a, b) => return Err(format!("read_varlen_len of {a:?} gave {b:?}")),
		},
		Op::VarSlice => {
			let x = read_varlen_slice(&mut r);
			match (varlen().filter(|n| left - 4 >= *n), x) {
				(Some(n), Ok(b)) => {
					ck(same(b, &window[4..4 + n]), || "read_varlen_slice gave other bytes".into())?;
					St { pos: s.pos + 4 + n, ..s }
				}
				(None, Err(_)) => {
					inside(&r, buf, s)?;
					return Ok(None);
				}
				(a, b) => return Err(format!("read_varlen_slice of {a:?} gave {b:?}")),
			}
		}
		Op::VarSkip | Op::VarSkipBorrowed => {
			let x = if op == Op::VarSkip { skip_varlen(&mut r) } else { skip_varlen_borrowed(&mut r) };
			match (varlen().filter(|n| left - 4 >= *n), x) {
				(Some(n), Ok(())) => St { pos: s.pos + 4 + n, ..s },
				(None, Err(_)) => {
					inside(&r, buf, s)?;
					return Ok(None);
				}
				(a, b) => return Err(format!("{op:?} of {a:?} gave {b:?}")),
			}
		}
	};
	at(&r, buf, s2)?;
	Ok(Some((r, s2)))
}

/// Lengths that matter in state `s`; `big`: only those around the end and the internal chunk size.
fn lens(s: St, big: bool) -> Vec<usize> {
	let left = s.end - s.pos;
	let mut v = vec![0, 1, left.saturating_sub(1), left, left + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1];
	if big {
		v.extend([4095, 4096, 4097, 8191, 8192, 8193, 12288]);
	} else {
		v.extend(0..=left);
	}
	v.sort();
	v.dedup();
	v
}
fn ops<C: Cur>(s: St, big: bool) -> Vec<Op> {
	let mut v = vec![Op::ReadToEnd, Op::VarLen, Op::VarSlice, Op::VarSkip, Op::VarSkipBorrowed];
	for n in lens(s, big) {
		v.extend([Op::Consume(n), Op::Advance(n), Op::AdvanceRef(n), Op::Peek(n), Op::PeekRef(n), Op::Borrow(n), Op::BorrowRef(n), Op::Take(n)]);
		if n < 1 << 20 {
			v.extend([Op::Read(n), Op::ReadExact(n)]);
		}
		// a failing advance_read stops at the end of the data, however much is asked for
		v.push(Op::AdvanceRead(n));
	}
	if C::TRACKS {
		let p = s.pos - s.start;
		let e = s.end - s.start;
		let mut offs = vec![0, 1, p.saturating_sub(1), p, p + 1, e.saturating_sub(1), e, e + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1];
		if !big {
			offs.extend(0..=e);
		}
		offs.sort();
		offs.dedup();
		for o in &offs {
			for n in &offs {
				v.push(Op::Sub(*o, *n));
			}
			v.push(Op::Sub(*o, usize::MAX - *o));
			v.push(Op::Sub(*o, (usize::MAX - *o).wrapping_add(1)));
			v.push(Op::Sub(*o, (usize::MAX - *o).wrapping_add(2)));
		}
	}
	v
}

/// All operation sequences of any length, as the closure of the model's states: every operation of
/// every reachable state, on a reader that got there by a real sequence.
fn closure<C: Cur>(r: &mut Rep, buf: &'static [u8], big: bool, cap: usize) {
	let s0 = St { start: 0, pos: 0, end: buf.len() };
	let mut seen: HashSet<St> = HashSet::from([s0]);
	let mut todo = vec![(C::make(buf), s0)];
	while let Some((c, s)) = todo.pop() {
		r.states += 1;
		for op in ops::<C>(s, big) {
			r.transitions += 1;
			r.traces += 1;
			match r.guard(|| format!("{op:?} at {s:?}"), || step(&c, buf, s, op)).and_then(|x| x) {
				Err(e) => r.fail(C::KIND, format!("{} of {} bytes, {op:?} at {s:?}: {e}", C::KIND, buf.len())),
				Ok(Some((c, s))) => {
					if seen.len() < cap && seen.insert(s) {
						todo.push((c, s))
					}
				}
				Ok(None) => {}
			}
		}
	}
	r.sample(|| format!("{}: {} states of a {}-byte buffer", C::KIND, seen.len(), buf.len()));
}

/// All operation sequences of bounded length, without merging equal states (in case a reader holds
/// state the model does not know of).
fn depth<C: Cur>(r: &mut Rep, buf: &'static [u8], c: C, s: St, d: usize, path: &mut Vec<Op>) {
	r.states += 1;
	if d == 0 {
		r.traces += 1;
		return;
	}
	let left = s.end - s.pos;
	let mut v = vec![Op::VarSlice, Op::VarSkip];
	for n in [0, 1, 2, left, left + 1] {
		v.extend([Op::Consume(n), Op::Advance(n), Op::Peek(n), Op::Borrow(n), Op::Take(n), Op::ReadExact(n), Op::AdvanceRead(n)]);
		if C::TRACKS {
			let p = s.pos - s.start;
			v.extend([Op::Sub(p, n), Op::Sub(p + 1, n)]);
		}
	}
	v.push(Op::Read(1));
	v.sort_by_key(hash);
	v.dedup();
	for op in v {
		r.transitions += 1;
		path.push(op);
		match r.guard(|| format!("{path:?}"), || step(&c, buf, s, op)).and_then(|x| x) {
			Err(e) => r.fail(C::KIND, format!("{} of {} bytes, {path:?}: {e}", C::KIND, buf.len())),
			Ok(Some((c, s))) => depth(r, buf, c, s, d - 1, path),
			Ok(None) => {}
		}
		path.pop();
	}
}

fn bufs() -> Vec<&'static [u8]> {
	let mut v: Vec<Vec<u8>> = vec![];
	for n in 0..=10u8 {
		v.push((10..10 + n).collect());
	}
	for l in 0..=4u8 {
		v.push(vec![l, 0, 0, 0, 7, 8, 9]);
		v.push(vec![9, l, 0, 0, 0, 3, 0, 0, 0, 1, 2]);
	}
	for top in [0x7f, 0x80, 0xff] {
		v.push(vec![top, top, top, top, 1, 2]);
		v.push(vec![0, 0, 0, top, 1, 2]);
	}
	v.into_iter().map(|b| &*b.leak()).collect()
}

fn main() {
	let mut t: Vec<Task> = vec![];
	for (i, b) in bufs().into_iter().enumerate() {
		t.push((format!("SliceReader closure {i}"), Box::new(move |r| closure::<SliceReader<'static>>(r, b, false, usize::MAX))));
		t.push((format!("slice closure {i}"), Box::new(move |r| closure::<&'static [u8]>(r, b, false, usize::MAX))));
	}
	for n in [4095usize, 4096, 4097, 8192, 8193, 12289] {
		let mut b: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
		b[..4].copy_from_slice(&(n as u32 - 4).to_le_bytes());
		let b = &*b.leak();
		let cap = if thorough() { 4000 } else { 60 };
		t.push((format!("SliceReader of {n}"), Box::new(move |r| closure::<SliceReader<'static>>(r, b, true, cap))));
		t.push((format!("slice of {n}"), Box::new(move |r| closure::<&'static [u8]>(r, b, true, cap))));
	}
	let d = if thorough() { 5 } else { 4 };
	for (i, b) in [&[1u8, 0, 0, 0, 5, 6][..], &[0, 0, 0, 0, 0], &[1, 2, 3], &[4]].into_iter().enumerate() {
		let s = St { start: 0, pos: 0, end: b.len() };
		t.push((format!("SliceReader depth {i}"), Box::new(move |r| depth(r, b, SliceReader::new(b), s, d, &mut vec![]))));
		t.push((format!("slice depth {i}"), Box::new(move |r| depth(r, b, b, s, d, &mut vec![]))));
	}
	run("P21", t)
}
