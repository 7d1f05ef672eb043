//! P23: every integer type at every value (8/16 bit; 32 bit in the thorough run) and at every boundary,
//! and every way an integer can be spelled on the wire, against the reference integer codec.
use mc::rep::*;
use mc::wire::*;
use revision::{DeserializeRevisioned, Error, SerializeRevisioned, SkipCheckRevisioned, SkipRevisioned};
use std::num::Wrapping;

/// An integer type; `raw` is the unsigned number that goes on the wire (zigzag for signed types).
trait Int: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + Copy + 'static {
	const NAME: &'static str;
	const W: usize;
	/// 8-bit types are one raw byte in every mode.
	const BYTE: bool;
	fn of(raw: u128) -> Self;
	fn raw(self) -> u128;
}
macro_rules! ints {
	($($t:ty as $wide:ty, $w:expr, $byte:expr;)*) => {$(
		impl Int for $t {
			const NAME: &'static str = stringify!($t);
			const W: usize = $w;
			const BYTE: bool = $byte;
			fn of(raw: u128) -> Self { raw as $t }
			fn raw(self) -> u128 { self as u128 }
		}
		impl Int for Wrapping<$t> {
			const NAME: &'static str = concat!("Wrapping<", stringify!($t), ">");
			const W: usize = $w;
			const BYTE: bool = $byte;
			fn of(raw: u128) -> Self { Wrapping(<$t as Int>::of(raw)) }
			fn raw(self) -> u128 { Int::raw(self.0) }
		}
	)*};
}
macro_rules! sints {
	($($t:ty, $w:expr;)*) => {$(
		impl Int for $t {
			const NAME: &'static str = stringify!($t);
			const W: usize = $w;
			const BYTE: bool = false;
			fn of(raw: u128) -> Self { unzig(raw) as $t }
			fn raw(self) -> u128 { zig(self as i128, $w) }
		}
		impl Int for Wrapping<$t> {
			const NAME: &'static str = concat!("Wrapping<", stringify!($t), ">");
			const W: usize = $w;
			const BYTE: bool = false;
			fn of(raw: u128) -> Self { Wrapping(<$t as Int>::of(raw)) }
			fn raw(self) -> u128 { Int::raw(self.0) }
		}
	)*};
}
ints! { u8 as u8, 1, true; u16 as u16, 2, false; u32 as u32, 4, false; u64 as u64, 8, false; u128 as u128, 16, false; usize as u64, 8, false; }
sints! { i16, 2; i32, 4; i64, 8; i128, 16; isize, 8; }
impl Int for i8 {
	const NAME: &'static str = "i8";
	const W: usize = 1;
	const BYTE: bool = true;
	fn of(raw: u128) -> Self {
		raw as u8 as i8
	}
	fn raw(self) -> u128 {
		self as u8 as u128
	}
}

fn top_raw<T: Int>() -> u128 {
	if T::W == 16 {
		u128::MAX
	} else {
		(1u128 << (8 * T::W)) - 1
	}
}
fn spell<T: Int>(raw: u128, o: &mut Vec<u8>) {
	if T::BYTE {
		o.push(raw as u8)
	} else {
		put_uint(o, raw, T::W)
	}
}
/// The shortest length any spelling of the number has.
fn shortest<T: Int>(raw: u128) -> usize {
	if T::BYTE {
		1
	} else if FIXED {
		T::W
	} else if raw <= 250 {
		1
	} else if raw < 1 << 16 {
		3
	} else if raw < 1 << 32 {
		5
	} else if raw < 1 << 64 {
		9
	} else {
		17
	}
}

/// One value through every entry point.
fn value<T: Int>(raw: u128, want: &mut Vec<u8>, got: &mut Vec<u8>) -> Result<(), String> {
	want.clear();
	got.clear();
	spell::<T>(raw, want);
	if want.len() != shortest::<T>(raw) {
		return Err("reference is not minimal".into());
	}
	let v = T::of(raw);
	v.serialize_revisioned(got).map_err(|e| format!("serialize: {e}"))?;
	if got != want {
		return Err(format!("raw {raw} is written as {}, not {}", hex(got), hex(want)));
	}
	let mut r = got.as_slice();
	let back = T::deserialize_revisioned(&mut r).map_err(|e| format!("decode of {}: {e}", hex(got)))?;
	if back.raw() != raw || !r.is_empty() {
		return Err(format!("raw {raw} comes back as {} leaving {}", back.raw(), r.len()));
	}
	let n = revision::skip_slice::<T>(got).map_err(|e| format!("skip of {}: {e}", hex(got)))?;
	let m = revision::skip_check_slice::<T>(got).map_err(|e| format!("checked skip of {}: {e}", hex(got)))?;
	let mut r = got.as_slice();
	T::skip_revisioned(&mut r).map_err(|e| format!("stream skip of {}: {e}", hex(got)))?;
	if n != got.len() || m != got.len() || !r.is_empty() {
		return Err(format!("skips of {} take {n}, {m}, leave {}", hex(got), r.len()));
	}
	Ok(())
}

fn values<T: Int>(r: &mut Rep, list: impl Iterator<Item = u128>) {
	let (mut a, mut b) = (vec![], vec![]);
	let mut n = 0;
	let mut last: Option<(u128, usize)> = None;
	for raw in list {
		n += 1;
		let x = r.guard(|| format!("{} raw {raw}", T::NAME), || value::<T>(raw, &mut a, &mut b));
		if let Err(e) | Ok(Err(e)) = x {
			r.fail("value", e);
			a.clear();
			b.clear();
			continue;
		}
		if let Some((p, len)) = last {
			if p < raw && len > b.len() {
				r.fail("monotone", format!("raw {p} is longer than raw {raw}"));
			}
		}
		last = Some((raw, b.len()));
	}
	r.bulk(n);
	r.sample(|| format!("{}: {n} values up to raw {:?}", T::NAME, last));
}

/// Raw numbers around every place where something can change.
fn edges() -> Vec<u128> {
	let mut v: Vec<u128> = (0..=600).collect();
	for k in 0..128 {
		let p = 1u128 << k;
		for d in 0..=6u128 {
			v.push(p.wrapping_add(d));
			v.push(p.wrapping_sub(d));
			v.push(p.wrapping_add(250 + d));
			v.push(p.wrapping_sub(250 + d));
		}
		for j in 0..k {
			v.push(p | (1 << j));
		}
		for j in 0..128 {
			if j != k {
				v.push(u128::MAX ^ p ^ (1 << j));
			}
		}
		v.push(u128::MAX ^ p);
		v.push(u128::MAX >> k);
		v.push(u128::MAX << k);
		v.push((p - 1) / 3);
	}
	for b in 0..=255u8 {
		for i in 0..16 {
			let mut x = [0u8; 16];
			x[i] = b;
			v.push(u128::from_le_bytes(x));
		}
		v.push(u128::from_le_bytes([b; 16]));
	}
	v.sort();
	v.dedup();
	v
}

/// One byte string as an integer of type T.
fn input<T: Int>(b: &[u8]) -> Result<(), String> {
	// reference reading: the number spelled and its length
	let mut rd = Rd::new(b);
	enum Want {
		Number(u128, usize),
		Overflow,
		WideOverflow(Option<(u128, usize)>),
		Error,
	}
	let want = if T::BYTE || FIXED {
		match rd.take(T::W) {
			Ok(x) => {
				let mut a = [0u8; 16];
				a[..T::W].copy_from_slice(x);
				Want::Number(u128::from_le_bytes(a), T::W)
			}
			Err(_) => Want::Error,
		}
	} else {
		// read as the widest type, then see whether it fits
		match get_varint(&mut rd, 16) {
			Err(_) if b.first() == Some(&254) && T::W < 16 => Want::WideOverflow(None),
			Err(_) => Want::Error,
			Ok(x) if b[0] == 254 && T::W < 16 => Want::WideOverflow((x <= top_raw::<T>()).then_some((x, rd.p))),
			Ok(x) if x > top_raw::<T>() => Want::Overflow,
			Ok(x) => Want::Number(x, rd.p),
		}
	};
	let mut r = b;
	let got = T::deserialize_revisioned(&mut r);
	let used = b.len() - r.len();
	let chk = revision::skip_check_slice::<T>(b);
	match (&want, &got) {
		(Want::Number(n, l), Ok(v)) if v.raw() == *n && used == *l => {
			let s = revision::skip_slice::<T>(b).map_err(|e| format!("{}: skip fails: {e}", hex(b)))?;
			let mut r = b;
			T::skip_revisioned(&mut r).map_err(|e| format!("{}: stream skip fails: {e}", hex(b)))?;
			if s != *l || b.len() - r.len() != *l {
				return Err(format!("{}: skips take {s} and {} of {l}", hex(b), b.len() - r.len()));
			}
			if !matches!(chk, Ok(c) if c == *l) {
				return Err(format!("{}: checked skip says {chk:?}, decoding takes {l}", hex(b)));
			}
		}
		(Want::Number(n, l), x) => return Err(format!("{}: spells {n} in {l} bytes but decodes to {:?} in {used}", hex(b), x.as_ref().map(|x| x.raw()))),
		(Want::Overflow, Err(Error::IntegerOverflow)) => {}
		(Want::WideOverflow(_), Err(Error::IntegerOverflow)) => {}
		(Want::WideOverflow(None), Err(_)) => {}
		(Want::WideOverflow(Some((n, l))), Ok(v)) if v.raw() == *n && used == *l => {}
		(Want::Overflow | Want::WideOverflow(_), x) => return Err(format!("{}: a number too large for the type gives {:?}", hex(b), x.as_ref().map(|x| x.raw()))),
		(Want::Error, Err(_)) => {}
		(Want::Error, Ok(v)) => return Err(format!("{}: not an integer, decodes to raw {}", hex(b), v.raw())),
	}
	if got.is_err() && chk.is_ok() {
		return Err(format!("{}: checked skip accepts what decoding refuses", hex(b)));
	}
	Ok(())
}

fn inputs<T: Int>(r: &mut Rep) {
	let mut buf = vec![];
	let mut n = 0u64;
	let mut go = |r: &mut Rep, b: &[u8]| {
		n += 1;
		let x = r.on(b, || input::<T>(b));
		if let Err(e) | Ok(Err(e)) = x {
			r.fail("input", e);
		}
	};
	// every string of up to two bytes
	go(r, &[]);
	for a in 0..=255u8 {
		go(r, &[a]);
		for b in 0..=255u8 {
			go(r, &[a, b]);
		}
	}
	// every two-byte payload behind every prefix that takes one, and behind a zero-extended wider one
	for p in 0..=65535u16 {
		let [l, h] = p.to_le_bytes();
		go(r, &[251, l, h]);
		go(r, &[252, l, h, 0, 0]);
		go(r, &[252, 0, 0, l, h]);
		go(r, &[253, l, h, 0, 0, 0, 0, 0, 0]);
	}
	let edges = edges();
	for prefix in 246..=255u8 {
		let take = match prefix {
			251 => 2,
			252 => 4,
			253 => 8,
			_ => 16,
		};
		for e in &edges {
			if take < 16 && *e >> (8 * take) != 0 {
				continue;
			}
			buf.clear();
			buf.push(prefix);
			buf.extend_from_slice(&e.to_le_bytes()[..take]);
			go(r, &buf);
			buf.push(0xff);
			go(r, &buf);
		}
		// every truncation
		for l in 1..=take {
			buf.clear();
			buf.push(prefix);
			buf.resize(l, 0);
			go(r, &buf);
			buf[1..].fill(0xff);
			go(r, &buf);
		}
	}
	r.bulk(n);
}

fn add<T: Int>(t: &mut Vec<Task>) {
	t.push((format!("{} boundaries", T::NAME), Box::new(|r| values::<T>(r, edges().into_iter().filter(|e| *e <= top_raw::<T>())))));
	t.push((format!("{} inputs", T::NAME), Box::new(inputs::<T>)));
	if T::W <= 2 {
		t.push((format!("{} all values", T::NAME), Box::new(|r| values::<T>(r, 0..=top_raw::<T>()))));
	} else {
		t.push((format!("{} all values below 2^17", T::NAME), Box::new(|r| values::<T>(r, 0..1 << 17))));
	}
}
fn all32<T: Int>(t: &mut Vec<Task>) {
	if thorough() {
		for k in 0..64u128 {
			t.push((format!("{} all values, part {k}", T::NAME), Box::new(move |r| values::<T>(r, k << 26..(k + 1) << 26))));
		}
	}
}

fn main() {
	let mut t: Vec<Task> = vec![];
	add::<u8>(&mut t);
	add::<i8>(&mut t);
	add::<u16>(&mut t);
	add::<i16>(&mut t);
	add::<u32>(&mut t);
	add::<i32>(&mut t);
	add::<u64>(&mut t);
	add::<i64>(&mut t);
	add::<u128>(&mut t);
	add::<i128>(&mut t);
	add::<usize>(&mut t);
	add::<isize>(&mut t);
	add::<Wrapping<u8>>(&mut t);
	add::<Wrapping<u16>>(&mut t);
	add::<Wrapping<i16>>(&mut t);
	add::<Wrapping<u32>>(&mut t);
	add::<Wrapping<i32>>(&mut t);
	add::<Wrapping<u64>>(&mut t);
	add::<Wrapping<i64>>(&mut t);
	add::<Wrapping<u128>>(&mut t);
	add::<Wrapping<i128>>(&mut t);
	add::<Wrapping<usize>>(&mut t);
	add::<Wrapping<isize>>(&mut t);
	all32::<u32>(&mut t);
	all32::<i32>(&mut t);
	run("P23", t)
}
