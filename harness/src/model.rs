//! `Model`: for every catalogued type, an enumerated value domain, a reference encoder, a reference
//! decoder and an exact equality. Reference code never calls the crate under test.

use crate::wire::*;
use revision::{DeserializeRevisioned, SerializeRevisioned};
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::Hash;
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// How many values a domain offers. 0: two or three; 1: a handful; 2: the top-level domain; 3: the
/// thorough top-level domain.
pub type Lvl = u8;

pub trait Model: SerializeRevisioned + DeserializeRevisioned + Sized + 'static {
	fn name() -> String;
	fn vals(l: Lvl) -> Vec<Self>;
	fn enc(&self, o: &mut Vec<u8>);
	fn dec(r: &mut Rd) -> R<Self>;
	fn same(&self, o: &Self) -> bool;

	/// Element types a vector stores in bulk (when specialised vectors are on).
	const BULK: bool = false;
	fn bulk_enc(v: &[Self], o: &mut Vec<u8>) {
		let _ = (v, o);
		unreachable!()
	}
	fn bulk_dec(n: usize, r: &mut Rd) -> R<Vec<Self>> {
		let _ = (n, r);
		unreachable!()
	}
	/// Encodings of this type have no unique form for equal values (hash iteration order).
	const HASHED: bool = false;

	fn bytes(&self) -> Vec<u8> {
		let mut o = Vec::new();
		self.enc(&mut o);
		o
	}
}

// ---- integers ---------------------------------------------------------------------------------

macro_rules! int_model {
	($($t:ty, $w:expr, $signed:expr);* $(;)?) => {$(
		impl Model for $t {
			fn name() -> String { stringify!($t).into() }
			fn vals(l: Lvl) -> Vec<Self> {
				if l == 0 { return vec![0, 7, <$t>::MAX]; }
				let mut v: Vec<$t> = Vec::new();
				let mut add = |x: $t| { if !v.contains(&x) { v.push(x) } };
				for x in [0, 1, 2, 7, <$t>::MAX, <$t>::MIN] { add(x) }
				if $w > 1 {
					for x in [124u32, 125, 126, 127, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257] { add(x as $t) }
				}
				let bits = $w * 8;
				for k in 0..bits {
					if l == 1 && !matches!(k, 7 | 8 | 15 | 16 | 31 | 32 | 63 | 64 | 127) { continue }
					let p = (1u128 << k) as $t;
					for d in [p.wrapping_sub(1), p, p.wrapping_add(1)] { add(d); if $signed { add((0 as $t).wrapping_sub(d)) } }
				}
				if l >= 3 && $w > 1 {
					for k in 0..4096u32 { add((k as $t).wrapping_mul(0x9d2c_5681_u128 as $t).wrapping_add(k as $t)) }
				}
				if $w == 1 && l >= 2 { return (0..=255u8).map(|b| b as $t).collect() }
				v
			}
			fn enc(&self, o: &mut Vec<u8>) {
				if $w == 1 { o.push(*self as u8) }
				else if $signed { put_sint(o, *self as i128, $w) }
				else { put_uint(o, *self as u128, $w) }
			}
			fn dec(r: &mut Rd) -> R<Self> {
				if $w == 1 { Ok(r.u8()? as $t) }
				else if $signed { Ok(get_sint(r, $w)? as $t) }
				else { Ok(get_uint(r, $w)? as $t) }
			}
			fn same(&self, o: &Self) -> bool { self == o }
			const BULK: bool = !matches!(stringify!($t).as_bytes(), b"usize" | b"isize");
			fn bulk_enc(v: &[Self], o: &mut Vec<u8>) { for x in v { o.extend_from_slice(&x.to_le_bytes()) } }
			fn bulk_dec(n: usize, r: &mut Rd) -> R<Vec<Self>> {
				(0..n).map(|_| Ok(<$t>::from_le_bytes(r.arr()?))).collect()
			}
		}
	)*};
}
int_model! {
	u8, 1, false; u16, 2, false; u32, 4, false; u64, 8, false; u128, 16, false; usize, 8, false;
	i8, 1, true; i16, 2, true; i32, 4, true; i64, 8, true; i128, 16, true; isize, 8, true;
}

impl Model for bool {
	fn name() -> String {
		"bool".into()
	}
	fn vals(_: Lvl) -> Vec<Self> {
		vec![false, true]
	}
	fn enc(&self, o: &mut Vec<u8>) {
		o.push(*self as u8)
	}
	fn dec(r: &mut Rd) -> R<Self> {
		match r.u8()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err(Bad::Invalid),
		}
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
	const BULK: bool = true;
	fn bulk_enc(v: &[Self], o: &mut Vec<u8>) {
		let at = o.len();
		o.resize(at + (v.len() + 7) / 8, 0);
		for (i, b) in v.iter().enumerate() {
			if *b {
				o[at + i / 8] |= 1 << (i % 8)
			}
		}
	}
	fn bulk_dec(n: usize, r: &mut Rd) -> R<Vec<Self>> {
		let b = r.take((n + 7) / 8)?;
		Ok((0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
	}
}

macro_rules! float_model {
	($($t:ty, $b:ty, $mant:expr, $exp:expr);*) => {$(
		impl Model for $t {
			fn name() -> String { stringify!($t).into() }
			fn vals(l: Lvl) -> Vec<Self> {
				if l == 0 { return vec![0.0, -1.5, <$t>::MAX]; }
				let mut v = vec![0.0, -0.0, 1.0, -1.5, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, <$t>::EPSILON,
					<$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN, -<$t>::NAN];
				let one: $b = 1;
				let emax: $b = (one << $exp) - 1;
				// quiet and signalling NaN payloads, subnormals
				for m in [1, 2, one << ($mant - 1), (one << ($mant - 1)) | 1, (one << $mant) - 1] {
					v.push(<$t>::from_bits((emax << $mant) | m));
					v.push(<$t>::from_bits((one << ($mant + $exp)) | (emax << $mant) | m));
					v.push(<$t>::from_bits(m));
				}
				if l >= 2 {
					for e in 0..=emax { v.push(<$t>::from_bits((e << $mant) | (e & 1))) }
					for k in 0..($mant + $exp + 1) { v.push(<$t>::from_bits(one << k)) }
				}
				v
			}
			fn enc(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_bits().to_le_bytes()) }
			fn dec(r: &mut Rd) -> R<Self> { Ok(<$t>::from_bits(<$b>::from_le_bytes(r.arr()?))) }
			fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
			const BULK: bool = true;
			fn bulk_enc(v: &[Self], o: &mut Vec<u8>) { for x in v { x.enc(o) } }
			fn bulk_dec(n: usize, r: &mut Rd) -> R<Vec<Self>> { (0..n).map(|_| Self::dec(r)).collect() }
		}
	)*};
}
float_model!(f32, u32, 23, 8; f64, u64, 52, 11);

impl Model for char {
	fn name() -> String {
		"char".into()
	}
	fn vals(l: Lvl) -> Vec<Self> {
		match l {
			0 => vec!['a', '\u{10ffff}'],
			3 => ('\0'..=char::MAX).collect(),
			_ => {
				let mut v = vec![];
				for b in [0u32, 0x61, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0x10ffff] {
					for d in [b.wrapping_sub(1), b, b + 1] {
						if let Some(c) = char::from_u32(d) {
							if !v.contains(&c) {
								v.push(c)
							}
						}
					}
				}
				v
			}
		}
	}
	fn enc(&self, o: &mut Vec<u8>) {
		let c = *self as u32;
		match c {
			0..=0x7f => o.push(c as u8),
			0x80..=0x7ff => o.extend([0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]),
			0x800..=0xffff => o.extend([0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]),
			_ => o.extend([
				0xf0 | (c >> 18) as u8,
				0x80 | (c >> 12 & 63) as u8,
				0x80 | (c >> 6 & 63) as u8,
				0x80 | (c & 63) as u8,
			]),
		}
	}
	fn dec(r: &mut Rd) -> R<Self> {
		let b = r.u8()?;
		let n = match b {
			0..=0x7f => 0,
			0xc0..=0xdf => 1,
			0xe0..=0xef => 2,
			0xf0..=0xf7 => 3,
			_ => return Err(Bad::Invalid),
		};
		let mut a = vec![b];
		a.extend_from_slice(r.take(n)?);
		std::str::from_utf8(&a).map_err(|_| Bad::Invalid)?.chars().next().ok_or(Bad::Invalid)
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
}

// ---- strings ----------------------------------------------------------------------------------

/// Length boundaries of length-prefixed payloads.
pub fn lens(l: Lvl) -> Vec<usize> {
	match l {
		0 => vec![0, 2],
		1 => vec![0, 1, 2, 7, 8, 9, 250, 251],
		_ => {
			let mut v: Vec<usize> = (0..=34).collect();
			v.extend([63, 64, 65, 127, 128, 129, 249, 250, 251, 252, 253, 255, 256, 257, 511, 512, 1023, 1024, 1025]);
			v.extend([2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65534, 65535, 65536, 65537]);
			if l >= 3 {
				v.extend(35..=300);
				v.extend([12287, 12288, 12289, 131072, 262145]);
			}
			v
		}
	}
}

pub fn str_vals(l: Lvl) -> Vec<String> {
	if l == 0 {
		return vec![String::new(), "ab".into()];
	}
	let mut v: Vec<String> = vec![];
	for n in lens(l) {
		v.push((0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect());
	}
	for s in ["\0", "é", "漢字", "🚀x", "a\0b", "\u{feff}", "\u{7f}\u{80}", "Zz", "b"] {
		v.push(s.into())
	}
	v
}

macro_rules! strlike {
	($($t:ty, $name:expr, |$s:ident| $mk:expr, |$me:ident| $st:expr;)*) => {$(
		impl Model for $t {
			fn name() -> String { $name.into() }
			fn vals(l: Lvl) -> Vec<Self> { str_vals(l).into_iter().map(|$s| $mk).collect() }
			fn enc(&self, o: &mut Vec<u8>) { let $me = self; put_bytes(o, $st.as_bytes()) }
			fn dec(r: &mut Rd) -> R<Self> { let $s = get_str(r)?.to_string(); Ok($mk) }
			fn same(&self, o: &Self) -> bool { self == o }
		}
	)*};
}
strlike! {
	String, "String", |s| s, |m| m;
	Box<str>, "Box<str>", |s| s.into_boxed_str(), |m| m;
	Arc<str>, "Arc<str>", |s| Arc::from(s), |m| m;
	Cow<'static, str>, "Cow<str>", |s| if s.len() % 2 == 0 { Cow::Owned(s) } else { Cow::Borrowed(Box::leak(s.into_boxed_str())) }, |m| m;
	PathBuf, "PathBuf", |s| PathBuf::from(s), |m| m.to_str().unwrap();
}

// ---- options, results, wrappers -----------------------------------------------------------------

impl<T: Model> Model for Option<T> {
	fn name() -> String {
		format!("Option<{}>", T::name())
	}
	fn vals(l: Lvl) -> Vec<Self> {
		std::iter::once(None).chain(T::vals(l.min(1)).into_iter().map(Some)).collect()
	}
	fn enc(&self, o: &mut Vec<u8>) {
		match self {
			None => o.push(0),
			Some(x) => {
				o.push(1);
				x.enc(o)
			}
		}
	}
	fn dec(r: &mut Rd) -> R<Self> {
		match r.u8()? {
			0 => Ok(None),
			1 => Ok(Some(T::dec(r)?)),
			_ => Err(Bad::Invalid),
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(None, None) => true,
			(Some(a), Some(b)) => a.same(b),
			_ => false,
		}
	}
	const HASHED: bool = T::HASHED;
}

impl<T: Model, E: Model> Model for Result<T, E> {
	fn name() -> String {
		format!("Result<{},{}>", T::name(), E::name())
	}
	fn vals(l: Lvl) -> Vec<Self> {
		T::vals(l.min(1)).into_iter().map(Ok).chain(E::vals(l.min(1)).into_iter().map(Err)).collect()
	}
	fn enc(&self, o: &mut Vec<u8>) {
		match self {
			Ok(x) => {
				put_tag32(o, 0);
				x.enc(o)
			}
			Err(x) => {
				put_tag32(o, 1);
				x.enc(o)
			}
		}
	}
	fn dec(r: &mut Rd) -> R<Self> {
		match get_tag32(r)? {
			0 => Ok(Ok(T::dec(r)?)),
			1 => Ok(Err(E::dec(r)?)),
			_ => Err(Bad::Invalid),
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(Ok(a), Ok(b)) => a.same(b),
			(Err(a), Err(b)) => a.same(b),
			_ => false,
		}
	}
	const HASHED: bool = T::HASHED || E::HASHED;
}

impl<T: Model> Model for Bound<T> {
	fn name() -> String {
		format!("Bound<{}>", T::name())
	}
	fn vals(l: Lvl) -> Vec<Self> {
		let mut v = vec![Bound::Unbounded];
		v.extend(T::vals(l.min(1)).into_iter().map(Bound::Included));
		v.extend(T::vals(l.min(1)).into_iter().map(Bound::Excluded));
		v
	}
	fn enc(&self, o: &mut Vec<u8>) {
		match self {
			Bound::Unbounded => put_tag32(o, 0),
			Bound::Included(x) => {
				put_tag32(o, 1);
				x.enc(o)
			}
			Bound::Excluded(x) => {
				put_tag32(o, 2);
				x.enc(o)
			}
		}
	}
	fn dec(r: &mut Rd) -> R<Self> {
		match get_tag32(r)? {
			0 => Ok(Bound::Unbounded),
			1 => Ok(Bound::Included(T::dec(r)?)),
			2 => Ok(Bound::Excluded(T::dec(r)?)),
			_ => Err(Bad::Invalid),
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(Bound::Unbounded, Bound::Unbounded) => true,
			(Bound::Included(a), Bound::Included(b)) | (Bound::Excluded(a), Bound::Excluded(b)) => a.same(b),
			_ => false,
		}
	}
	const HASHED: bool = T::HASHED;
}

impl<T: Model> Model for Range<T> {
	fn name() -> String {
		format!("Range<{}>", T::name())
	}
	fn vals(l: Lvl) -> Vec<Self> {
		let a = T::vals(l.min(1));
		let n = a.len();
		let mut b = T::vals(l.min(1));
		b.rotate_left(1 % n.max(1));
		a.into_iter().zip(b).map(|(a, b)| a..b).collect()
	}
	fn enc(&self, o: &mut Vec<u8>) {
		self.start.enc(o);
		self.end.enc(o)
	}
	fn dec(r: &mut Rd) -> R<Self> {
		Ok(T::dec(r)?..T::dec(r)?)
	}
	fn same(&self, o: &Self) -> bool {
		self.start.same(&o.start) && self.end.same(&o.end)
	}
	const HASHED: bool = T::HASHED;
}

macro_rules! wrapper {
	($($w:ident, $name:expr, |$x:ident| $mk:expr, |$me:ident| $get:expr $(, $b:path)*;)*) => {$(
		impl<T: Model $(+ $b)*> Model for $w<T> {
			fn name() -> String { format!("{}<{}>", $name, T::name()) }
			fn vals(l: Lvl) -> Vec<Self> { T::vals(l.min(1)).into_iter().map(|$x| $mk).collect() }
			fn enc(&self, o: &mut Vec<u8>) { let $me = self; $get.enc(o) }
			fn dec(r: &mut Rd) -> R<Self> { let $x = T::dec(r)?; Ok($mk) }
			fn same(&self, o: &Self) -> bool { let a = { let $me = self; &$get }; let b = { let $me = o; &$get }; a.same(b) }
			const HASHED: bool = T::HASHED;
		}
	)*};
}
wrapper! {
	Box, "Box", |x| Box::new(x), |m| **m;
	Arc, "Arc", |x| Arc::new(x), |m| **m;
	Wrapping, "Wrapping", |x| Wrapping(x), |m| m.0;
	Reverse, "Reverse", |x| Reverse(x), |m| m.0;
}

/// `Cow<'static, T>` of an owned-is-self type.
impl<T: Model + Clone> Model for Cow<'static, T> {
	fn name() -> String {
		format!("Cow<{}>", T::name())
	}
	fn vals(l: Lvl) -> Vec<Self> {
		T::vals(l.min(1))
			.into_iter()
			.enumerate()
			.map(|(i, x)| {
				if i % 2 == 0 {
					Cow::Owned(x)
				} else {
					Cow::Borrowed(&*Box::leak(Box::new(x)))
				}
			})
			.collect()
	}
	fn enc(&self, o: &mut Vec<u8>) {
		(**self).enc(o)
	}
	fn dec(r: &mut Rd) -> R<Self> {
		Ok(Cow::Owned(T::dec(r)?))
	}
	fn same(&self, o: &Self) -> bool {
		(**self).same(&**o)
	}
	const HASHED: bool = T::HASHED;
}

// ---- tuples and arrays ---------------------------------------------------------------------------

impl Model for () {
	fn name() -> String {
		"()".into()
	}
	fn vals(_: Lvl) -> Vec<Self> {
		vec![()]
	}
	fn enc(&self, _: &mut Vec<u8>) {}
	fn dec(_: &mut Rd) -> R<Self> {
		Ok(())
	}
	fn same(&self, _: &Self) -> bool {
		true
	}
}

macro_rules! tuple_model {
	($($n:ident $i:tt),+) => {
		impl<$($n: Model),+> Model for ($($n,)+) {
			fn name() -> String { let v = [$($n::name()),+]; format!("({})", v.join(",")) }
			fn vals(l: Lvl) -> Vec<Self> {
				// every component runs through its whole domain while the others rotate
				let l = l.min(1);
				let lens = [$($n::vals(l).len()),+];
				let m = *lens.iter().max().unwrap();
				let mut out = Vec::new();
				$( #[allow(non_snake_case)] let mut $n: Vec<Vec<Option<$n>>> = (0..2).map(|_| $n::vals(l).into_iter().map(Some).collect()).collect(); )+
				for k in 0..2usize {
					for j in 0..m {
						// rebuild domains when exhausted
						out.push(($({
							let len = lens[$i];
							let at = (j + k * ($i + 1)) % len;
							match $n[k][at].take() {
								Some(x) => x,
								None => $n::vals(l).swap_remove(at),
							}
						},)+));
					}
				}
				out
			}
			fn enc(&self, o: &mut Vec<u8>) { $(self.$i.enc(o);)+ }
			fn dec(r: &mut Rd) -> R<Self> { Ok(($($n::dec(r)?,)+)) }
			fn same(&self, o: &Self) -> bool { $(self.$i.same(&o.$i))&&+ }
			const HASHED: bool = $($n::HASHED)||+;
		}
	};
}
tuple_model!(A 0);
tuple_model!(A 0, B 1);
tuple_model!(A 0, B 1, C 2);
tuple_model!(A 0, B 1, C 2, D 3);
tuple_model!(A 0, B 1, C 2, D 3, E 4);
tuple_model!(A 0, B 1, C 2, D 3, E 4, F 5);

macro_rules! array_model {
	($($n:literal)+) => {$(
		impl<T: Model + Copy + Default> Model for [T; $n] {
			fn name() -> String { format!("[{};{}]", T::name(), $n) }
			fn vals(l: Lvl) -> Vec<Self> {
				let d = T::vals(l.min(1));
				(0..d.len()).map(|s| std::array::from_fn(|i| d[(s + i * (1 + s % 3)) % d.len()])).collect()
			}
			fn enc(&self, o: &mut Vec<u8>) { for x in self { x.enc(o) } }
			fn dec(r: &mut Rd) -> R<Self> {
				let mut v = Vec::new();
				for _ in 0..$n { v.push(T::dec(r)?) }
				Ok(std::array::from_fn(|i| v[i]))
			}
			fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
		}
	)+};
}
array_model!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);

// ---- sequences -----------------------------------------------------------------------------------

/// Sequences of `T` for a container: every length boundary, elements cycling through the domain.
pub fn seqs<T: Model>(l: Lvl) -> Vec<Vec<T>> {
	let el = if l == 0 {
		0
	} else {
		1
	};
	let d = T::vals(el).len();
	let per = {
		let n = T::vals(el).iter().map(|x| x.bytes().len()).max().unwrap_or(1).max(1);
		// keep the biggest instance below about 1 MB
		(1 << 20) / n
	};
	let mut out = Vec::new();
	for n in lens(l) {
		if n > per || (!T::BULK && n > 300 && l < 3) || (!T::BULK && n > 5000) {
			continue;
		}
		let mut v = Vec::with_capacity(n);
		while v.len() < n {
			let mut dom = T::vals(el);
			let rot = n % d.max(1);
			dom.rotate_left(rot);
			for x in dom {
				if v.len() < n {
					v.push(x)
				}
			}
		}
		out.push(v);
	}
	if T::BULK && l >= 2 {
		// the whole rich domain as one vector
		out.push(T::vals(2));
	}
	out
}

pub fn seq_enc<'a, T: Model>(n: usize, it: impl Iterator<Item = &'a T>, o: &mut Vec<u8>) {
	put_len(o, n);
	for x in it {
		x.enc(o)
	}
}

pub fn seq_dec<T: Model>(r: &mut Rd) -> R<Vec<T>> {
	let n = get_len(r)?;
	let mut v = Vec::new();
	for _ in 0..n {
		v.push(T::dec(r)?)
	}
	Ok(v)
}

impl<T: Model> Model for Vec<T> {
	fn name() -> String {
		format!("Vec<{}>", T::name())
	}
	fn vals(l: Lvl) -> Vec<Self> {
		let mut v = seqs::<T>(l);
		if std::any::TypeId::of::<T>() == std::any::TypeId::of::<bool>() && l >= 2 {
			// every bit pattern up to a byte and a half
			let top = if l >= 3 {
				14
			} else {
				11
			};
			for n in 1..=top {
				for m in 0..(1u32 << n) {
					let b: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
					let any: Box<dyn std::any::Any> = Box::new(b);
					v.push(*any.downcast::<Vec<T>>().unwrap());
				}
			}
		}
		v
	}
	fn enc(&self, o: &mut Vec<u8>) {
		if T::BULK && SPEC {
			put_len(o, self.len());
			T::bulk_enc(self, o)
		} else {
			seq_enc(self.len(), self.iter(), o)
		}
	}
	fn dec(r: &mut Rd) -> R<Self> {
		if T::BULK && SPEC {
			let n = get_len(r)?;
			T::bulk_dec(n, r)
		} else {
			seq_dec(r)
		}
	}
	fn same(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
	}
	const HASHED: bool = T::HASHED;
}

macro_rules! set_model {
	($($s:ty, $name:expr, $hashed:expr, [$($b:tt)*], |$a:ident, $bb:ident| $eq:expr;)*) => {$(
		impl<T: Model + $($b)*> Model for $s {
			fn name() -> String { format!("{}<{}>", $name, T::name()) }
			fn vals(l: Lvl) -> Vec<Self> {
				let mut out: Vec<Self> = Vec::new();
				for v in seqs::<T>(l) { if v.len() <= 300 { out.push(v.into_iter().collect()) } }
				if l >= 2 { out.push(T::vals(2).into_iter().collect()) }
				out
			}
			fn enc(&self, o: &mut Vec<u8>) { seq_enc(self.len(), self.iter(), o) }
			fn dec(r: &mut Rd) -> R<Self> { Ok(seq_dec::<T>(r)?.into_iter().collect()) }
			fn same(&self, o: &Self) -> bool { let ($a, $bb) = (self, o); $eq }
			const HASHED: bool = $hashed;
		}
	)*};
}
set_model! {
	BTreeSet<T>, "BTreeSet", false, [Ord], |a, b| a == b;
	HashSet<T>, "HashSet", true, [Eq + Hash], |a, b| a == b;
	BinaryHeap<T>, "BinaryHeap", true, [Ord + Clone], |a, b| a.clone().into_sorted_vec() == b.clone().into_sorted_vec();
}

/// Key/value lists of every size boundary; keys cycle through the key domain (so they may repeat
/// after collecting), values through the value domain.
pub fn pairs<K: Model, V: Model>(l: Lvl) -> Vec<Vec<(K, V)>> {
	let mut out = Vec::new();
	let kl = if l >= 2 {
		2
	} else {
		l
	};
	let nk = K::vals(kl).len();
	for n in lens(l) {
		if n > nk.min(300) {
			break;
		}
		let mut ks = K::vals(kl);
		ks.rotate_left((n * 3) % nk);
		let dv = V::vals(l.min(1)).len();
		let mut v = Vec::new();
		let mut pool: Vec<V> = Vec::new();
		for (i, k) in ks.into_iter().take(n).enumerate() {
			if i % dv == 0 {
				pool = V::vals(l.min(1));
				pool.rotate_left(n % dv);
			}
			v.push((k, pool.remove(0)));
		}
		out.push(v);
	}
	out
}

pub fn map_enc<'a, K: Model, V: Model>(n: usize, it: impl Iterator<Item = (&'a K, &'a V)>, o: &mut Vec<u8>) {
	put_len(o, n);
	for (k, v) in it {
		k.enc(o);
		v.enc(o)
	}
}

pub fn map_dec<K: Model, V: Model>(r: &mut Rd) -> R<Vec<(K, V)>> {
	let n = get_len(r)?;
	let mut v = Vec::new();
	for _ in 0..n {
		let k = K::dec(r)?;
		v.push((k, V::dec(r)?))
	}
	Ok(v)
}

impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
	fn name() -> String {
		format!("BTreeMap<{},{}>", K::name(), V::name())
	}
	fn vals(l: Lvl) -> Vec<Self> {
		pairs(l).into_iter().map(|v| v.into_iter().collect()).collect()
	}
	fn enc(&self, o: &mut Vec<u8>) {
		map_enc(self.len(), self.iter(), o)
	}
	fn dec(r: &mut Rd) -> R<Self> {
		Ok(map_dec(r)?.into_iter().collect())
	}
	fn same(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().zip(o).all(|((a, b), (c, d))| a.same(c) && b.same(d))
	}
	const HASHED: bool = K::HASHED || V::HASHED;
}

impl<K: Model + Eq + Hash, V: Model> Model for HashMap<K, V> {
	fn name() -> String {
		format!("HashMap<{},{}>", K::name(), V::name())
	}
	fn vals(l: Lvl) -> Vec<Self> {
		pairs(l).into_iter().map(|v| v.into_iter().collect()).collect()
	}
	fn enc(&self, o: &mut Vec<u8>) {
		map_enc(self.len(), self.iter(), o)
	}
	fn dec(r: &mut Rd) -> R<Self> {
		Ok(map_dec(r)?.into_iter().collect())
	}
	fn same(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
	}
	const HASHED: bool = true;
}

// ---- time ----------------------------------------------------------------------------------------

fn secs_vals(l: Lvl) -> Vec<u64> {
	u64::vals(l.min(1))
}

impl Model for Duration {
	fn name() -> String {
		"Duration".into()
	}
	fn vals(l: Lvl) -> Vec<Self> {
		let mut v = vec![];
		for s in secs_vals(l) {
			for n in [0u32, 1, 250, 251, 65536, 999_999_999] {
				v.push(Duration::new(s, n))
			}
		}
		v
	}
	fn enc(&self, o: &mut Vec<u8>) {
		put_uint(o, self.as_secs() as u128, 8);
		put_uint(o, self.subsec_nanos() as u128, 4)
	}
	fn dec(r: &mut Rd) -> R<Self> {
		let s = get_uint(r, 8)? as u64;
		let n = get_uint(r, 4)? as u32;
		let s = s.checked_add((n / 1_000_000_000) as u64).ok_or(Bad::Invalid)?;
		Ok(Duration::new(s, n % 1_000_000_000))
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
}

impl Model for SystemTime {
	fn name() -> String {
		"SystemTime".into()
	}
	fn vals(l: Lvl) -> Vec<Self> {
		Duration::vals(l).into_iter().filter_map(|d| UNIX_EPOCH.checked_add(d)).collect()
	}
	fn enc(&self, o: &mut Vec<u8>) {
		self.duration_since(UNIX_EPOCH).unwrap().enc(o)
	}
	fn dec(r: &mut Rd) -> R<Self> {
		UNIX_EPOCH.checked_add(Duration::dec(r)?).ok_or(Bad::Invalid)
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
}

#[cfg(feature = "opt")]
pub mod opt {
	use super::*;
	use ordered_float::NotNan;

	macro_rules! notnan {
		($($t:ty),*) => {$(
			impl Model for NotNan<$t> {
				fn name() -> String { format!("NotNan<{}>", stringify!($t)) }
				fn vals(l: Lvl) -> Vec<Self> { <$t>::vals(l).into_iter().filter_map(|x| NotNan::new(x).ok()).collect() }
				fn enc(&self, o: &mut Vec<u8>) { self.into_inner().enc(o) }
				fn dec(r: &mut Rd) -> R<Self> { NotNan::new(<$t>::dec(r)?).map_err(|_| Bad::Invalid) }
				fn same(&self, o: &Self) -> bool { self.into_inner().to_bits() == o.into_inner().to_bits() }
			}
		)*};
	}
	notnan!(f32, f64);

	impl Model for bytes::Bytes {
		fn name() -> String {
			"Bytes".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			seqs::<u8>(l).into_iter().map(|v| v.into()).collect()
		}
		fn enc(&self, o: &mut Vec<u8>) {
			put_bytes(o, self)
		}
		fn dec(r: &mut Rd) -> R<Self> {
			Ok(get_bytes(r)?.to_vec().into())
		}
		fn same(&self, o: &Self) -> bool {
			self == o
		}
	}

	impl Model for regex::Regex {
		fn name() -> String {
			"Regex".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			let mut v: Vec<String> = vec!["".into(), "a+".into(), "/this ([a-z]+) a tes?/".into(), "漢{2,3}".into()];
			if l >= 1 {
				for n in [249, 250, 251, 256, 300] {
					v.push("x".repeat(n))
				}
			}
			v.into_iter().map(|s| regex::Regex::new(&s).unwrap()).collect()
		}
		fn enc(&self, o: &mut Vec<u8>) {
			put_bytes(o, self.as_str().as_bytes())
		}
		fn dec(r: &mut Rd) -> R<Self> {
			regex::Regex::new(get_str(r)?).map_err(|_| Bad::Invalid)
		}
		fn same(&self, o: &Self) -> bool {
			self.as_str() == o.as_str()
		}
	}

	impl Model for rust_decimal::Decimal {
		fn name() -> String {
			"Decimal".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			use rust_decimal::Decimal;
			let mut v = vec![Decimal::ZERO, Decimal::ONE, Decimal::MAX, Decimal::MIN];
			for scale in [0u32, 1, 14, 27, 28] {
				for k in 0..96 {
					if l < 2 && k % 31 != 0 {
						continue;
					}
					for sign in [1i128, -1] {
						v.push(Decimal::from_i128_with_scale(sign * (1i128 << k), scale));
						v.push(Decimal::from_i128_with_scale(sign * ((1i128 << k) - 1), scale));
					}
				}
			}
			v
		}
		fn enc(&self, o: &mut Vec<u8>) {
			o.extend_from_slice(&self.serialize())
		}
		fn dec(r: &mut Rd) -> R<Self> {
			Ok(rust_decimal::Decimal::deserialize(r.arr()?))
		}
		fn same(&self, o: &Self) -> bool {
			self.serialize() == o.serialize()
		}
		const BULK: bool = true;
		fn bulk_enc(v: &[Self], o: &mut Vec<u8>) {
			for x in v {
				x.enc(o)
			}
		}
		fn bulk_dec(n: usize, r: &mut Rd) -> R<Vec<Self>> {
			(0..n).map(|_| Self::dec(r)).collect()
		}
	}

	impl Model for uuid::Uuid {
		fn name() -> String {
			"Uuid".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			u128::vals(l.min(2)).into_iter().map(uuid::Uuid::from_u128).collect()
		}
		fn enc(&self, o: &mut Vec<u8>) {
			o.extend_from_slice(&self.as_u128().to_be_bytes())
		}
		fn dec(r: &mut Rd) -> R<Self> {
			Ok(uuid::Uuid::from_u128(u128::from_be_bytes(r.arr()?)))
		}
		fn same(&self, o: &Self) -> bool {
			self == o
		}
		const BULK: bool = true;
		fn bulk_enc(v: &[Self], o: &mut Vec<u8>) {
			for x in v {
				x.enc(o)
			}
		}
		fn bulk_dec(n: usize, r: &mut Rd) -> R<Vec<Self>> {
			(0..n).map(|_| Self::dec(r)).collect()
		}
	}

	macro_rules! roaring_model {
		($($t:ty, $name:expr, $e:ty);*) => {$(
			impl Model for $t {
				fn name() -> String { $name.into() }
				fn vals(l: Lvl) -> Vec<Self> {
					let mut v = vec![<$t>::new()];
					let d = <$e>::vals(l.min(1));
					for n in 1..=d.len() { v.push(d[..n].iter().copied().collect()) }
					v.push((0..5000 as $e).collect());
					v.push((0..70000 as $e).step_by(3).collect());
					// run containers: alone, full, next to arrays and bitmaps, over several chunks
					let mut b = <$t>::new();
					for (a, z) in [(0 as $e, 70_000), (65_536, 131_071), (200_000, 200_000), (300_005, 450_000), (1 << 30, (1 << 30) + 9000)] {
						b.insert_range(a..=z);
						v.push(b.clone());
						b.extend([1 << 31, 7, 280_000]);
						v.push(b.clone());
						let mut o = b.clone();
						o.optimize();
						v.push(o);
					}
					let mut o: $t = (0..70000 as $e).filter(|i| i % 97 < 90).collect();
					o.optimize();
					v.push(o);
					v
				}
				fn enc(&self, o: &mut Vec<u8>) { self.serialize_into(o).unwrap() }
				fn dec(r: &mut Rd) -> R<Self> {
					let mut s = &r.b[r.p..];
					let v = <$t>::deserialize_from(&mut s).map_err(|e| if e.kind() == std::io::ErrorKind::UnexpectedEof { Bad::Eof } else { Bad::Invalid })?;
					r.p = r.b.len() - s.len();
					Ok(v)
				}
				fn same(&self, o: &Self) -> bool { self == o }
			}
		)*};
	}
	roaring_model!(roaring::RoaringBitmap, "RoaringBitmap", u32; roaring::RoaringTreemap, "RoaringTreemap", u64);

	use chrono::{DateTime, Datelike, NaiveDate, NaiveTime, TimeDelta, Timelike, Utc};

	const NANOS: [u32; 8] = [0, 1, 250, 251, 65535, 65536, 123_456_789, 999_999_999];

	impl Model for DateTime<Utc> {
		fn name() -> String {
			"DateTime<Utc>".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			let mut v = vec![DateTime::<Utc>::MIN_UTC, DateTime::<Utc>::MAX_UTC];
			for s in i64::vals(l.min(2)) {
				for n in NANOS {
					v.extend(DateTime::<Utc>::from_timestamp(s, n))
				}
			}
			if l >= 1 {
				// leap seconds, in every position of the minute
				for s in [59i64, 119, -1, 3, 0] {
					let b = DateTime::<Utc>::from_timestamp(s, 0).unwrap();
					for n in [1_000_000_000u32, 1_999_999_999] {
						v.extend(b.with_nanosecond(n))
					}
				}
			}
			v
		}
		fn enc(&self, o: &mut Vec<u8>) {
			put_sint(o, self.timestamp() as i128, 8);
			put_uint(o, self.timestamp_subsec_nanos() as u128, 4)
		}
		fn dec(r: &mut Rd) -> R<Self> {
			let s = get_sint(r, 8)? as i64;
			let n = get_uint(r, 4)? as u32;
			DateTime::<Utc>::from_timestamp(s, 0).and_then(|d| d.with_nanosecond(n)).ok_or(Bad::Invalid)
		}
		fn same(&self, o: &Self) -> bool {
			self == o && self.timestamp_subsec_nanos() == o.timestamp_subsec_nanos()
		}
	}

	impl Model for NaiveDate {
		fn name() -> String {
			"NaiveDate".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			let mut v = vec![NaiveDate::MIN, NaiveDate::MAX];
			let ys: Vec<i32> = match l {
				0 => vec![2024],
				1 => vec![-1, 0, 1, 1900, 1970, 2000, 2024, 65536],
				_ => (-130..130).chain([1899, 1900, 1970, 2000, 2023, 2024, 32767, 32768, 65535, 65536, -32768, 262142, -262143]).collect(),
			};
			for y in ys {
				for m in 1..=12 {
					for d in [1, 28, 29, 30, 31] {
						v.extend(NaiveDate::from_ymd_opt(y, m, d))
					}
				}
			}
			v
		}
		fn enc(&self, o: &mut Vec<u8>) {
			put_sint(o, self.year() as i128, 4);
			put_uint(o, self.month() as u128, 4);
			put_uint(o, self.day() as u128, 4)
		}
		fn dec(r: &mut Rd) -> R<Self> {
			let y = get_sint(r, 4)? as i32;
			let m = get_uint(r, 4)? as u32;
			let d = get_uint(r, 4)? as u32;
			NaiveDate::from_ymd_opt(y, m, d).ok_or(Bad::Invalid)
		}
		fn same(&self, o: &Self) -> bool {
			self == o
		}
	}

	impl Model for NaiveTime {
		fn name() -> String {
			"NaiveTime".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			let mut v = vec![];
			for h in [0, 1, 12, 23] {
				for m in [0, 1, 59] {
					for s in [0, 1, 58, 59] {
						for n in NANOS {
							v.extend(NaiveTime::from_hms_nano_opt(h, m, s, n))
						}
						if l >= 1 {
							let b = NaiveTime::from_hms_opt(h, m, s).unwrap();
							v.extend(b.with_nanosecond(1_500_000_000));
						}
					}
				}
			}
			if l == 0 {
				v.truncate(3)
			}
			v
		}
		fn enc(&self, o: &mut Vec<u8>) {
			for x in [self.hour(), self.minute(), self.second(), self.nanosecond()] {
				put_uint(o, x as u128, 4)
			}
		}
		fn dec(r: &mut Rd) -> R<Self> {
			let h = get_uint(r, 4)? as u32;
			let m = get_uint(r, 4)? as u32;
			let s = get_uint(r, 4)? as u32;
			let n = get_uint(r, 4)? as u32;
			NaiveTime::from_hms_opt(h, m, s).and_then(|t| t.with_nanosecond(n)).ok_or(Bad::Invalid)
		}
		fn same(&self, o: &Self) -> bool {
			self == o
		}
	}

	impl Model for TimeDelta {
		fn name() -> String {
			"chrono::Duration".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			let mut v = vec![TimeDelta::MIN, TimeDelta::MAX];
			for s in i64::vals(l.min(2)) {
				for n in NANOS {
					v.extend(TimeDelta::new(s, n))
				}
			}
			v
		}
		fn enc(&self, o: &mut Vec<u8>) {
			// floor division into whole seconds and a non-negative remainder
			let mut s = self.num_seconds();
			let mut n = self.subsec_nanos();
			if n < 0 {
				s -= 1;
				n += 1_000_000_000;
			}
			put_sint(o, s as i128, 8);
			put_sint(o, n as i128, 4)
		}
		fn dec(r: &mut Rd) -> R<Self> {
			let s = get_sint(r, 8)? as i64;
			let n = get_sint(r, 4)? as i32;
			TimeDelta::new(s, u32::try_from(n).map_err(|_| Bad::Invalid)?).ok_or(Bad::Invalid)
		}
		fn same(&self, o: &Self) -> bool {
			self == o
		}
	}

	use geo::{Coord, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};

	impl Model for Coord {
		fn name() -> String {
			"Coord".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			let d = f64::vals(l.min(1));
			(0..d.len())
				.map(|i| Coord {
					x: d[i],
					y: d[(i * 5 + 3) % d.len()],
				})
				.collect()
		}
		fn enc(&self, o: &mut Vec<u8>) {
			self.x.enc(o);
			self.y.enc(o)
		}
		fn dec(r: &mut Rd) -> R<Self> {
			Ok(Coord {
				x: f64::dec(r)?,
				y: f64::dec(r)?,
			})
		}
		fn same(&self, o: &Self) -> bool {
			self.x.same(&o.x) && self.y.same(&o.y)
		}
	}
	macro_rules! geo_wrap {
		($($t:ident, $i:ty);*) => {$(
			impl Model for $t {
				fn name() -> String { stringify!($t).into() }
				fn vals(l: Lvl) -> Vec<Self> { <$i>::vals(l.min(1)).into_iter().map(|x| $t(x)).collect() }
				fn enc(&self, o: &mut Vec<u8>) { self.0.enc(o) }
				fn dec(r: &mut Rd) -> R<Self> { Ok($t(<$i>::dec(r)?)) }
				fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
			}
		)*};
	}
	geo_wrap!(Point, Coord; LineString, Vec<Coord>; MultiPoint, Vec<Point>; MultiLineString, Vec<LineString>; MultiPolygon, Vec<Polygon>);

	/// `Polygon::new` closes its rings, so the value domain is closed rings.
	impl Model for Polygon {
		fn name() -> String {
			"Polygon".into()
		}
		fn vals(l: Lvl) -> Vec<Self> {
			let c = |x: f64, y: f64| Coord {
				x,
				y,
			};
			let tri = |a: f64| LineString(vec![c(a, 0.0), c(a + 1.0, 0.5), c(0.25, -a), c(a, 0.0)]);
			let mut v = vec![Polygon::new(LineString(vec![]), vec![]), Polygon::new(tri(1.0), vec![])];
			if l >= 1 {
				for n in [1, 2, 3, 9] {
					v.push(Polygon::new(tri(-2.0), (0..n).map(|i| tri(i as f64)).collect()));
				}
				// not closed by the caller, single point, signed zeros, infinities
				v.push(Polygon::new(LineString(vec![c(1.0, 2.0), c(3.0, 4.0)]), vec![LineString(vec![c(5.0, 6.0)])]));
				v.push(Polygon::new(LineString(vec![c(0.0, -0.0), c(f64::INFINITY, 1.0), c(-0.0, 0.0)]), vec![LineString(vec![])]));
				// rings that start at a NaN coordinate
				let nan = |n: usize| LineString((0..n).map(|i| c(if i == 0 { f64::NAN } else { i as f64 }, 1.0)).collect());
				for n in 1..4 {
					v.push(Polygon::new(nan(n), vec![]));
					v.push(Polygon::new(tri(1.0), vec![nan(n), tri(2.0), nan(1)]));
				}
			}
			v
		}
		fn enc(&self, o: &mut Vec<u8>) {
			self.exterior().enc(o);
			put_len(o, self.interiors().len());
			for i in self.interiors() {
				i.enc(o)
			}
		}
		fn dec(r: &mut Rd) -> R<Self> {
			// the rings as stored (`Polygon::new` closes open ones); it would close a NaN ring again
			let open = |mut l: LineString| {
				if let (Some(a), Some(b)) = (l.0.first(), l.0.last()) {
					if a != b && a.same(b) {
						l.0.pop();
					}
				}
				l
			};
			let e = open(LineString::dec(r)?);
			Ok(Polygon::new(e, Vec::<LineString>::dec(r)?.into_iter().map(open).collect()))
		}
		fn same(&self, o: &Self) -> bool {
			self.exterior().same(o.exterior())
				&& self.interiors().len() == o.interiors().len()
				&& self.interiors().iter().zip(o.interiors()).all(|(a, b)| a.same(b))
		}
	}

	set_model! {
		imbl::Vector<T>, "imbl::Vector", false, [Clone], |a, b| a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y));
		imbl::OrdSet<T>, "imbl::OrdSet", false, [Ord + Clone], |a, b| a == b;
		imbl::HashSet<T>, "imbl::HashSet", true, [Eq + Hash + Clone], |a, b| a == b;
	}

	impl<K: Model + Ord + Clone, V: Model + Clone> Model for imbl::OrdMap<K, V> {
		fn name() -> String {
			format!("imbl::OrdMap<{},{}>", K::name(), V::name())
		}
		fn vals(l: Lvl) -> Vec<Self> {
			pairs(l).into_iter().map(|v| v.into_iter().collect()).collect()
		}
		fn enc(&self, o: &mut Vec<u8>) {
			map_enc(self.len(), self.iter(), o)
		}
		fn dec(r: &mut Rd) -> R<Self> {
			Ok(map_dec(r)?.into_iter().collect())
		}
		fn same(&self, o: &Self) -> bool {
			self.len() == o.len() && self.iter().zip(o.iter()).all(|((a, b), (c, d))| a.same(c) && b.same(d))
		}
		const HASHED: bool = K::HASHED || V::HASHED;
	}

	impl<K: Model + Eq + Hash + Clone, V: Model + Clone> Model for imbl::HashMap<K, V> {
		fn name() -> String {
			format!("imbl::HashMap<{},{}>", K::name(), V::name())
		}
		fn vals(l: Lvl) -> Vec<Self> {
			pairs(l).into_iter().map(|v| v.into_iter().collect()).collect()
		}
		fn enc(&self, o: &mut Vec<u8>) {
			map_enc(self.len(), self.iter(), o)
		}
		fn dec(r: &mut Rd) -> R<Self> {
			Ok(map_dec(r)?.into_iter().collect())
		}
		fn same(&self, o: &Self) -> bool {
			self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
		}
		const HASHED: bool = true;
	}
}
