//! Independent statement of the wire format: reference encoder and reference decoder primitives.
//! Nothing in this file calls the crate under test.

pub const FIXED: bool = cfg!(feature = "fixed");
pub const SPEC: bool = cfg!(feature = "spec");
pub const OPT: bool = cfg!(feature = "opt");

pub fn config_name() -> &'static str {
	match (FIXED, SPEC) {
		(false, true) => "varint+specialised",
		(true, true) => "fixed+specialised",
		(false, false) => "varint",
		(true, false) => "fixed",
	}
}

/// Why the reference decoder stopped.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Bad {
	/// the input ends inside the value
	Eof,
	/// the bytes are not an encoding of a value of the type
	Invalid,
	/// a legacy length prefix so large that the crate's documented memory behaviour decides
	Huge,
	/// the format leaves open whether these bytes are accepted (inside length-delimited payloads)
	Abstain,
}

pub type R<T> = Result<T, Bad>;

thread_local! { static LOOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Notes that the bytes read so far are in a shape the format does not pin down, and carries on.
pub fn loose() {
	LOOSE.with(|l| l.set(true))
}

/// Runs a reference decoder; anything but a huge length is `Abstain` once `loose` was called.
pub fn judged<T>(f: impl FnOnce() -> R<T>) -> R<T> {
	LOOSE.with(|l| l.set(false));
	match f() {
		Err(Bad::Huge) => Err(Bad::Huge),
		_ if LOOSE.with(|l| l.get()) => Err(Bad::Abstain),
		x => x,
	}
}

/// Largest legacy length prefix the checks feed to the crate.
pub const HUGE: u64 = 1 << 20;

pub struct Rd<'a> {
	pub b: &'a [u8],
	pub p: usize,
}

impl<'a> Rd<'a> {
	pub fn new(b: &'a [u8]) -> Self {
		Rd {
			b,
			p: 0,
		}
	}
	pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
		if self.b.len() - self.p < n {
			return Err(Bad::Eof);
		}
		let s = &self.b[self.p..self.p + n];
		self.p += n;
		Ok(s)
	}
	pub fn arr<const N: usize>(&mut self) -> R<[u8; N]> {
		Ok(self.take(N)?.try_into().unwrap())
	}
	pub fn u8(&mut self) -> R<u8> {
		Ok(self.take(1)?[0])
	}
	pub fn left(&self) -> usize {
		self.b.len() - self.p
	}
}

// ---- integers ---------------------------------------------------------------------------------

/// Unsigned integer of `width` bytes (2, 4, 8 or 16), in the configured mode.
pub fn put_uint(o: &mut Vec<u8>, v: u128, width: usize) {
	if FIXED {
		o.extend_from_slice(&v.to_le_bytes()[..width]);
	} else {
		put_varint(o, v)
	}
}

pub fn put_varint(o: &mut Vec<u8>, v: u128) {
	if v <= 250 {
		o.push(v as u8)
	} else if v <= u16::MAX as u128 {
		o.push(251);
		o.extend_from_slice(&(v as u16).to_le_bytes())
	} else if v <= u32::MAX as u128 {
		o.push(252);
		o.extend_from_slice(&(v as u32).to_le_bytes())
	} else if v <= u64::MAX as u128 {
		o.push(253);
		o.extend_from_slice(&(v as u64).to_le_bytes())
	} else {
		o.push(254);
		o.extend_from_slice(&v.to_le_bytes())
	}
}

pub fn zig(v: i128, width: usize) -> u128 {
	let bits = width * 8;
	let m = if bits == 128 {
		u128::MAX
	} else {
		(1u128 << bits) - 1
	};
	(((v << 1) ^ (v >> 127)) as u128) & m
}

pub fn unzig(v: u128) -> i128 {
	((v >> 1) as i128) ^ -((v & 1) as i128)
}

pub fn put_sint(o: &mut Vec<u8>, v: i128, width: usize) {
	put_uint(o, zig(v, width), width)
}

/// Unsigned integer that must fit `width` bytes.
pub fn get_uint(r: &mut Rd, width: usize) -> R<u128> {
	if FIXED {
		let mut a = [0u8; 16];
		a[..width].copy_from_slice(r.take(width)?);
		return Ok(u128::from_le_bytes(a));
	}
	get_varint(r, width)
}

pub fn get_varint(r: &mut Rd, width: usize) -> R<u128> {
	let tag = r.u8()?;
	let v = match tag {
		0..=250 => return Ok(tag as u128),
		251 => u16::from_le_bytes(r.arr()?) as u128,
		252 if width >= 4 => u32::from_le_bytes(r.arr()?) as u128,
		253 if width >= 8 => u64::from_le_bytes(r.arr()?) as u128,
		254 if width >= 16 => u128::from_le_bytes(r.arr()?),
		// A wider class than the target's: the number may still fit.
		252 => u32::from_le_bytes(r.arr()?) as u128,
		253 => u64::from_le_bytes(r.arr()?) as u128,
		_ => return Err(Bad::Invalid),
	};
	if width < 16 && v >= (1u128 << (width * 8)) {
		return Err(Bad::Invalid);
	}
	Ok(v)
}

pub fn get_sint(r: &mut Rd, width: usize) -> R<i128> {
	Ok(unzig(get_uint(r, width)?))
}

pub fn put_len(o: &mut Vec<u8>, n: usize) {
	put_uint(o, n as u128, 8)
}

/// A legacy collection or string length.
pub fn get_len(r: &mut Rd) -> R<usize> {
	let n = get_uint(r, 8)? as u64;
	if n > HUGE {
		return Err(Bad::Huge);
	}
	Ok(n as usize)
}

pub fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
	put_len(o, b.len());
	o.extend_from_slice(b);
}

pub fn get_bytes<'a>(r: &mut Rd<'a>) -> R<&'a [u8]> {
	let n = get_len(r)?;
	r.take(n)
}

pub fn get_str<'a>(r: &mut Rd<'a>) -> R<&'a str> {
	std::str::from_utf8(get_bytes(r)?).map_err(|_| Bad::Invalid)
}

pub fn put_tag32(o: &mut Vec<u8>, t: u32) {
	put_uint(o, t as u128, 4)
}

pub fn get_tag32(r: &mut Rd) -> R<u32> {
	Ok(get_uint(r, 4)? as u32)
}

pub fn put_rev(o: &mut Vec<u8>, rev: u16) {
	put_uint(o, rev as u128, 2)
}

pub fn get_rev(r: &mut Rd) -> R<u16> {
	Ok(get_uint(r, 2)? as u16)
}

// ---- optimised envelopes ------------------------------------------------------------------------

pub const OFFSET_TABLE_MIN_LEN: usize = 8;

/// `u16 rev | u32 payload length | payload`
pub fn put_opt_struct(o: &mut Vec<u8>, rev: u16, payload: &[u8]) {
	put_rev(o, rev);
	o.extend_from_slice(&(payload.len() as u32).to_le_bytes());
	o.extend_from_slice(payload);
}

/// `u16 rev | u32 payload length | [u32 offset of each field] | fields`
pub fn put_indexed_struct(o: &mut Vec<u8>, rev: u16, fields: &[Vec<u8>]) {
	let mut payload = Vec::new();
	let mut off = fields.len() as u32 * 4;
	for f in fields {
		payload.extend_from_slice(&off.to_le_bytes());
		off += f.len() as u32;
	}
	for f in fields {
		payload.extend_from_slice(f);
	}
	put_opt_struct(o, rev, &payload)
}

#[derive(Clone)]
pub enum Size {
	Inline,
	Fixed,
	Varlen,
}

pub fn put_opt_enum(o: &mut Vec<u8>, rev: u16, id: u8, size: Size, body: &[u8]) {
	put_rev(o, rev);
	match size {
		Size::Inline => o.push(id),
		Size::Fixed => {
			o.push(id | 0b0010_0000);
			o.extend_from_slice(body)
		}
		Size::Varlen => {
			o.push(id | 0b0100_0000);
			o.extend_from_slice(&(body.len() as u32).to_le_bytes());
			o.extend_from_slice(body)
		}
	}
}

/// The indexed map layout for entries given as encoded keys and values (any order).
pub fn put_indexed_map(o: &mut Vec<u8>, mut e: Vec<(Vec<u8>, Vec<u8>)>) {
	e.sort_by(|a, b| a.0.cmp(&b.0));
	let idx = e.len() >= OFFSET_TABLE_MIN_LEN;
	o.push(idx as u8);
	put_varlen_count(o, e.len());
	if idx {
		let (mut k, mut v) = (0u32, 0u32);
		for (kk, vv) in &e {
			o.extend_from_slice(&k.to_le_bytes());
			o.extend_from_slice(&v.to_le_bytes());
			k += kk.len() as u32;
			v += vv.len() as u32;
		}
		o.extend_from_slice(&k.to_le_bytes());
		o.extend_from_slice(&v.to_le_bytes());
		for (kk, _) in &e {
			o.extend_from_slice(kk);
		}
		for (_, vv) in &e {
			o.extend_from_slice(vv);
		}
	} else {
		for (kk, vv) in &e {
			o.extend_from_slice(kk);
			o.extend_from_slice(vv);
		}
	}
}

pub fn put_indexed_seq(o: &mut Vec<u8>, e: &[Vec<u8>]) {
	let idx = e.len() >= OFFSET_TABLE_MIN_LEN;
	o.push(idx as u8);
	put_varlen_count(o, e.len());
	if idx {
		let mut k = 0u32;
		for x in e {
			o.extend_from_slice(&k.to_le_bytes());
			k += x.len() as u32;
		}
	}
	for x in e {
		o.extend_from_slice(x);
	}
}

pub fn put_indexed_set(o: &mut Vec<u8>, mut e: Vec<Vec<u8>>) {
	e.sort();
	put_indexed_seq(o, &e)
}

/// Entry counts of the indexed layouts.
pub fn put_varlen_count(o: &mut Vec<u8>, n: usize) {
	put_varint(o, n as u128)
}
