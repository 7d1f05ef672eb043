//! Drivers for the container walkers. A driver performs one complete use of a walker, taking every
//! decision from a `Chooser`; the explorer reruns it until every sequence of decisions was taken.

use crate::model::Model;
use crate::wire::put_len;
use revision::*;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::sync::Arc;

/// Depth-first enumeration of decision sequences.
#[derive(Default)]
pub struct Chooser {
	path: Vec<(u32, u32)>,
	pos: usize,
	pub log: Vec<&'static str>,
	pub states: std::collections::HashSet<u64>,
	pub transitions: u64,
	pub paths: u64,
	/// how often a path may still take another option than the first, and whether that cut any
	bound: usize,
	cut: bool,
}
impl Chooser {
	/// One of the named options; `off` and `left` identify the model state.
	pub fn pick(&mut self, off: usize, left: usize, opts: &[&'static str]) -> &'static str {
		self.states.insert(crate::rep::hash(&(self.pos.min(1), off, left, opts)));
		self.transitions += 1;
		if self.pos == self.path.len() {
			self.path.push((0, opts.len() as u32));
		}
		let (k, n) = self.path[self.pos];
		assert_eq!(n as usize, opts.len(), "the same decisions led to different options");
		self.pos += 1;
		self.log.push(opts[k as usize]);
		opts[k as usize]
	}
	/// Runs `f` on every decision sequence that departs from the first option at most `bound` times,
	/// at most `cap` of them. None when the cap was hit, else whether no sequence was left out.
	fn upto(&mut self, bound: usize, cap: u64, f: &mut impl FnMut(&mut Chooser)) -> Option<bool> {
		self.path.clear();
		self.bound = bound;
		self.cut = false;
		let mut n = 0;
		loop {
			self.pos = 0;
			self.log.clear();
			f(self);
			n += 1;
			self.paths += 1;
			self.path.truncate(self.pos);
			while let Some((k, n)) = self.path.pop() {
				let before = self.path.iter().filter(|x| x.0 > 0).count();
				if k + 1 < n {
					if before + 1 > self.bound {
						self.cut = true;
						continue;
					}
					self.path.push((k + 1, n));
					break;
				}
			}
			if self.path.is_empty() {
				return Some(!self.cut);
			}
			if n >= cap {
				return None;
			}
		}
	}
	/// Every decision sequence with as many departures as `cap` executions allow: None when all
	/// sequences were run, else the largest number of departures completed.
	pub fn all(&mut self, cap: u64, mut f: impl FnMut(&mut Chooser)) -> Option<usize> {
		if self.upto(usize::MAX, cap, &mut f) == Some(true) {
			return None;
		}
		for d in 0.. {
			match self.upto(d, cap, &mut f) {
				Some(true) => return None,
				Some(false) => {}
				None => return Some(d.max(1) - 1),
			}
		}
		unreachable!()
	}
}

/// How a driver left the reader: after the whole value, or deliberately `at` bytes into it.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Out {
	Whole,
	At(usize),
}
pub type Res = Result<Out, String>;

pub fn ck(ok: bool, what: &str) -> Result<(), String> {
	if ok {
		Ok(())
	} else {
		Err(what.to_string())
	}
}
pub fn er<T>(what: &str, r: Result<T, Error>) -> Result<T, String> {
	r.map_err(|e| format!("{what} failed: {e}"))
}
/// `at` bytes after `before` bytes of this value.
fn after(before: usize, o: Out) -> Option<Out> {
	match o {
		Out::Whole => None,
		Out::At(n) => Some(Out::At(before + n)),
	}
}

pub trait Walk: Model + SkipRevisioned + WalkRevisioned {
	/// Uses the walker of a value known to be `want`, `off` bytes into the data.
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res;
	/// Walking is refused before anything is read.
	const REFUSED: bool = false;
	/// The raw payload, for types written as length and bytes.
	fn payload(&self) -> Option<Vec<u8>> {
		matches!(Self::name().as_str(), "Vec<u8>" | "Vec<i8>").then(|| strip(&self.bytes()))
	}
}

// ---- leaves -----------------------------------------------------------------------------------------

/// Drives a leaf walker; `same` judges a decoded value.
fn leaf<'r, T, R: BorrowedReader>(mut w: LeafWalker<'r, T, R>, bytes: &[u8], same: &dyn Fn(&T) -> bool, c: &mut Chooser, off: usize) -> Res
where
	T: DeserializeRevisioned + SkipRevisioned,
{
	match c.pick(off, 0, &["decode", "skip", "reader+decode", "reader+skip", "into_reader"]) {
		"decode" => {
			ck(same(&er("decode", w.decode())?), "decode gave another value")?;
		}
		"skip" => er("skip", w.skip())?,
		"reader+decode" => {
			ck(w.reader().peek_bytes(bytes.len()).ok() == Some(bytes), "reader() is not at the value")?;
			ck(same(&er("decode", w.decode())?), "decode gave another value")?;
		}
		"reader+skip" => {
			ck(w.reader().remaining().starts_with(bytes), "reader() is not at the value")?;
			er("skip", w.skip())?
		}
		_ => {
			ck(w.into_reader().remaining().starts_with(bytes), "into_reader is not at the value")?;
			return Ok(Out::At(0));
		}
	}
	Ok(Out::Whole)
}
/// The same with the byte view.
fn leaf_bytes<'r, T, R: BorrowedReader>(w: LeafWalker<'r, T, R>, bytes: &[u8], payload: &[u8], same: &dyn Fn(&T) -> bool, c: &mut Chooser, off: usize) -> Res
where
	T: DeserializeRevisioned + SkipRevisioned + LengthPrefixedBytes,
{
	match c.pick(off, 1, &["other", "with_bytes"]) {
		"with_bytes" => {
			let mut calls = 0;
			let got = er("with_bytes", w.with_bytes(|b| {
				calls += 1;
				b.to_vec()
			}))?;
			ck(calls == 1 && got == payload, "with_bytes showed other bytes")?;
			Ok(Out::Whole)
		}
		_ => leaf(w, bytes, same, c, off),
	}
}
fn strip(b: &[u8]) -> Vec<u8> {
	// the payload behind a length prefix, found by re-encoding the only length that fits
	for n in (0..=b.len()).rev() {
		let mut p = vec![];
		put_len(&mut p, n);
		if p.len() + n == b.len() && b.starts_with(&p) {
			return b[p.len()..].to_vec();
		}
	}
	panic!("not a length-prefixed encoding")
}

macro_rules! leaves {
	($($t:ty),* $(,)?) => {$(
		impl Walk for $t {
			fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
				let b = want.bytes();
				if c.pick(off, 2, &["leaf", "walk"]) == "walk" {
					let w = er("walk", w.walk())?;
					return leaf(w, &b, &|x| want.same(x), c, off);
				}
				leaf(w, &b, &|x| want.same(x), c, off)
			}
		}
	)*};
}
macro_rules! byte_leaves {
	($($t:ty),* $(,)?) => {$(
		impl Walk for $t {
			fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
				let b = want.bytes();
				leaf_bytes(w, &b, &strip(&b), &|x| want.same(x), c, off)
			}
			fn payload(&self) -> Option<Vec<u8>> { Some(strip(&self.bytes())) }
		}
	)*};
}
leaves!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, f32, f64, char, std::time::Duration, std::time::SystemTime);
leaves!((u8,), (u8, u16), (String, bool, i32), (u8, String), [u8; 2], [u16; 3], [bool; 4], Bound<u8>, Bound<String>, Range<u8>, Range<i64>);
byte_leaves!(String, Box<str>, Arc<str>, std::path::PathBuf);
#[cfg(feature = "opt")]
byte_leaves!(bytes::Bytes);
#[cfg(feature = "opt")]
leaves!(rust_decimal::Decimal, uuid::Uuid, regex::Regex, roaring::RoaringBitmap, roaring::RoaringTreemap, chrono::NaiveDate, chrono::NaiveTime, chrono::TimeDelta, geo::Point, geo::Polygon);

impl Walk for Cow<'static, u64> {
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
		leaf(w, &want.bytes(), &|x| x == want.as_ref(), c, off)
	}
}
impl Walk for Cow<'static, String> {
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
		let b = want.bytes();
		leaf_bytes(w, &b, &strip(&b), &|x| x == want.as_ref(), c, off)
	}
}

// ---- transparent wrappers --------------------------------------------------------------------------

impl<T: Walk> Walk for Box<T>
where
	Box<T>: Model,
{
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
		T::go(w, want, c, off)
	}
	const REFUSED: bool = T::REFUSED;
}
impl<T: Walk> Walk for Arc<T>
where
	Arc<T>: Model,
{
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
		T::go(w, want, c, off)
	}
	const REFUSED: bool = T::REFUSED;
}
impl<T: Walk> Walk for Wrapping<T>
where
	Wrapping<T>: Model,
{
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
		T::go(w, &want.0, c, off)
	}
	const REFUSED: bool = T::REFUSED;
}
impl<T: Walk> Walk for Reverse<T>
where
	Reverse<T>: Model,
{
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
		T::go(w, &want.0, c, off)
	}
	const REFUSED: bool = T::REFUSED;
}

// ---- option, result --------------------------------------------------------------------------------

/// `into` an alternative whose own walker may be refused.
fn enter<'r, T: Walk, R: BorrowedReader>(w: Result<T::Walker<'r, R>, Error>, want: &T, tag: usize, c: &mut Chooser, off: usize) -> Res {
	if T::REFUSED {
		ck(w.is_err(), "a bulk vector was walked into")?;
		return Ok(Out::At(tag));
	}
	let o = T::go(er("into alternative", w)?, want, c, off + tag)?;
	Ok(after(tag, o).unwrap_or(Out::Whole))
}

impl<T: Walk> Walk for Option<T>
where
	Option<T>: Model,
{
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
		ck(w.is_some() == want.is_some() && w.is_none() == want.is_none(), "is_some/is_none wrong")?;
		match c.pick(off, 3, &["decode", "skip", "into_some"]) {
			"decode" => {
				ck(er("decode", w.decode())?.same(want), "decode gave another value")?;
				Ok(Out::Whole)
			}
			"skip" => {
				er("skip", w.skip())?;
				Ok(Out::Whole)
			}
			_ => match want {
				Some(x) => enter::<T, R>(w.into_some(), x, 1, c, off),
				None => {
					ck(w.into_some().is_err(), "into_some on None succeeded")?;
					Ok(Out::At(1))
				}
			},
		}
	}
}
impl<T: Walk, E: Walk> Walk for Result<T, E>
where
	Result<T, E>: Model,
{
	fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
		ck(w.is_ok() == want.is_ok() && w.is_err() == want.is_err(), "is_ok/is_err wrong")?;
		let mut t = vec![];
		crate::wire::put_tag32(&mut t, 0);
		match (c.pick(off, 4, &["decode", "skip", "into_ok", "into_err"]), want) {
			("decode", _) => {
				ck(er("decode", w.decode())?.same(want), "decode gave another value")?;
				Ok(Out::Whole)
			}
			("skip", _) => {
				er("skip", w.skip())?;
				Ok(Out::Whole)
			}
			("into_ok", Ok(x)) => enter::<T, R>(w.into_ok(), x, t.len(), c, off),
			("into_err", Err(x)) => enter::<E, R>(w.into_err(), x, t.len(), c, off),
			("into_ok", _) => {
				ck(w.into_ok().is_err(), "into_ok on Err succeeded")?;
				Ok(Out::At(t.len()))
			}
			_ => {
				ck(w.into_err().is_err(), "into_err on Ok succeeded")?;
				Ok(Out::At(t.len()))
			}
		}
	}
}

// ---- sequences -------------------------------------------------------------------------------------

fn len_bytes(n: usize) -> usize {
	let mut p = vec![];
	put_len(&mut p, n);
	p.len()
}

/// `bytes_op`: the byte view of an item, where its type has one.
fn seq<'r, T: Walk, R: BorrowedReader>(mut w: SeqWalker<'r, T, R>, want: &[&T], c: &mut Chooser, off: usize, bytes_op: Option<fn(SeqItem<'_, 'r, T, R>, &T) -> Result<(), String>>) -> Res {
	let n = want.len();
	let mut at = len_bytes(n);
	let mut i = 0;
	let mut peeked = false;
	loop {
		ck(w.remaining() == n - i, "remaining is wrong")?;
		if i == n {
			if c.pick(off + at, n, &["next is none", "skip nothing"]) == "next is none" {
				ck(w.next_item().is_none(), "an item after the last one")?;
				ck(w.next_item().is_none() && w.remaining() == 0, "an item after the last one")?;
			} else {
				er("skip_remaining", w.skip_remaining())?;
			}
			return Ok(Out::Whole);
		}
		let mut ops = vec!["decode", "skip", "walk", "skip_remaining", "stop"];
		if bytes_op.is_some() {
			ops.push("with_bytes")
		}
		if !peeked {
			ops.push("drop item")
		}
		let op = c.pick(off + at, n - i, &ops);
		if op == "stop" {
			return Ok(Out::At(at));
		}
		if op == "skip_remaining" {
			er("skip_remaining", w.skip_remaining())?;
			return Ok(Out::Whole);
		}
		let Some(it) = w.next_item() else {
			return Err("no next item".into());
		};
		let size = want[i].bytes().len();
		match op {
			"decode" => ck(er("item decode", it.decode())?.same(want[i]), "item decode gave another value")?,
			"skip" => er("item skip", it.skip())?,
			"with_bytes" => bytes_op.unwrap()(it, want[i])?,
			"drop item" => {
				drop(it);
				peeked = true;
				continue;
			}
			_ => {
				let inner = it.walk();
				if T::REFUSED {
					ck(inner.is_err(), "a bulk vector item was walked into")?;
					drop(inner);
					ck(w.remaining() == n - i, "a refused walk changed remaining")?;
					// the walker is where it was: the item can still be decoded
					let Some(it) = w.next_item() else {
						return Err("no next item".into());
					};
					ck(er("item decode", it.decode())?.same(want[i]), "item decode after a refused walk")?;
				} else {
					let o = T::go(er("item walk", inner)?, want[i], c, off + at)?;
					if let Some(o) = after(at, o) {
						return Ok(o);
					}
				}
			}
		}
		peeked = false;
		at += size;
		i += 1;
	}
}

macro_rules! seq_walk {
	($($t:ty, $el:ty $(, $b:ident)?);* $(;)?) => {$(
		impl Walk for $t {
			fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
				#[allow(unused_mut, unused_assignments)]
				let mut f: Option<fn(SeqItem<'_, 'r, $el, R>, &$el) -> Result<(), String>> = None;
				$( let $b = (); f = Some(|it, want| {
					let mut calls = 0;
					let got = er("item with_bytes", it.with_bytes(|b| { calls += 1; b.to_vec() }))?;
					ck(calls == 1 && Some(got) == want.payload(), "with_bytes showed other bytes")
				}); let _ = $b; )?
				let items: Vec<&$el> = want.iter().collect();
				seq::<$el, R>(w, &items, c, off, f)
			}
			const REFUSED: bool = crate::wire::SPEC && <$el as Model>::BULK && is_vec::<$t>();
		}
	)*};
}
const fn is_vec<T: IsVec>() -> bool {
	T::VEC
}
trait IsVec {
	const VEC: bool = false;
}
impl<T> IsVec for Vec<T> {
	const VEC: bool = true;
}
impl<T> IsVec for BTreeSet<T> {}
impl<T> IsVec for HashSet<T> {}
impl<T> IsVec for std::collections::BinaryHeap<T> {}
seq_walk! {
	Vec<u8>, u8; Vec<u16>, u16; Vec<bool>, bool; Vec<u64>, u64; Vec<i8>, i8; Vec<f64>, f64; Vec<i128>, i128;
	Vec<u32>, u32; Vec<i16>, i16; Vec<i32>, i32; Vec<i64>, i64; Vec<u128>, u128; Vec<f32>, f32;
	Vec<usize>, usize; Vec<char>, char; Vec<isize>, isize;
	Vec<String>, String, yes; Vec<Option<u8>>, Option<u8>; Vec<Option<String>>, Option<String>;
	Vec<Vec<u8>>, Vec<u8>, yes; Vec<Vec<bool>>, Vec<bool>; Vec<Vec<String>>, Vec<String>; Vec<(u8, String)>, (u8, String);
	Vec<[u16; 3]>, [u16; 3]; Vec<Box<u16>>, Box<u16>; Vec<BTreeMap<u8, u8>>, BTreeMap<u8, u8>; Vec<Wrapping<u32>>, Wrapping<u32>; Vec<Reverse<u16>>, Reverse<u16>;
	Vec<std::time::Duration>, std::time::Duration; Vec<Option<Vec<u8>>>, Option<Vec<u8>>;
	BTreeSet<u8>, u8; BTreeSet<bool>, bool; BTreeSet<String>, String, yes; BTreeSet<i16>, i16; BTreeSet<u32>, u32; BTreeSet<Vec<u8>>, Vec<u8>, yes; BTreeSet<(u8, String)>, (u8, String); BTreeSet<Option<u16>>, Option<u16>;
}
#[cfg(feature = "opt")]
impl<T> IsVec for imbl::Vector<T> {}
#[cfg(feature = "opt")]
impl<T> IsVec for imbl::OrdSet<T> {}
#[cfg(feature = "opt")]
seq_walk! {
	Vec<uuid::Uuid>, uuid::Uuid; Vec<rust_decimal::Decimal>, rust_decimal::Decimal; Vec<bytes::Bytes>, bytes::Bytes, yes; Vec<chrono::NaiveDate>, chrono::NaiveDate;
	imbl::Vector<u8>, u8; imbl::Vector<String>, String, yes; imbl::OrdSet<u16>, u16; imbl::OrdSet<String>, String, yes; imbl::Vector<u32>, u32;
}

/// Containers whose order on the wire differs from iteration order of a copy: drive them by the
/// decoded content of the bytes themselves.
macro_rules! hash_seq {
	($($t:ty, $el:ty);* $(;)?) => {$(
		impl Walk for $t {
			fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
				// the same instance iterates in the order it was written in
				let items: Vec<&$el> = want.iter().collect();
				seq::<$el, R>(w, &items, c, off, None)
			}
		}
	)*};
}
hash_seq! { HashSet<u8>, u8; HashSet<u64>, u64; HashSet<String>, String; std::collections::BinaryHeap<u8>, u8; std::collections::BinaryHeap<u32>, u32; std::collections::BinaryHeap<String>, String }
#[cfg(feature = "opt")]
hash_seq! { imbl::HashSet<u8>, u8; imbl::HashSet<String>, String }

// ---- maps ------------------------------------------------------------------------------------------

fn map<'r, K: Walk, V: Walk, R: BorrowedReader>(
	mut w: MapWalker<'r, K, V, R>,
	want: &[(&K, &V)],
	c: &mut Chooser,
	off: usize,
	key_bytes: Option<fn(&mut MapEntry<'_, 'r, K, V, R>) -> Result<Vec<u8>, Error>>,
	val_bytes: Option<fn(MapEntry<'_, 'r, K, V, R>) -> Result<Vec<u8>, Error>>,
) -> Res {
	let n = want.len();
	let mut at = len_bytes(n);
	let mut i = 0;
	let mut dropped = false;
	loop {
		ck(w.remaining() == n - i, "remaining is wrong")?;
		if i == n {
			if c.pick(off + at, n, &["next is none", "skip nothing"]) == "next is none" {
				ck(w.next_entry().is_none(), "an entry after the last one")?;
				ck(w.next_entry().is_none() && w.remaining() == 0, "an entry after the last one")?;
			} else {
				er("skip_remaining", w.skip_remaining())?;
			}
			return Ok(Out::Whole);
		}
		let (k, v) = want[i];
		let (kn, vn) = (k.bytes().len(), v.bytes().len());
		let mut ops = vec!["decode_pair", "skip_pair", "decode_key", "skip_key", "skip_remaining", "value first", "stop"];
		if key_bytes.is_some() {
			ops.push("key bytes")
		}
		if !dropped {
			ops.push("drop entry")
		}
		let op = c.pick(off + at, n - i, &ops);
		if op == "stop" {
			return Ok(Out::At(at));
		}
		if op == "skip_remaining" {
			er("skip_remaining", w.skip_remaining())?;
			return Ok(Out::Whole);
		}
		let Some(mut e) = w.next_entry() else {
			return Err("no next entry".into());
		};
		match op {
			"drop entry" => {
				drop(e);
				dropped = true;
				continue;
			}
			"decode_pair" => {
				let (a, b) = er("decode_pair", e.decode_pair())?;
				ck(a.same(k) && b.same(v), "decode_pair gave another pair")?;
				i += 1;
				at += kn + vn;
				dropped = false;
				continue;
			}
			"skip_pair" => {
				er("skip_pair", e.skip_pair())?;
				i += 1;
				at += kn + vn;
				dropped = false;
				continue;
			}
			"value first" => {
				// refused; nothing moves, the entry can be taken again
				let bad = match c.pick(off + at, 1, &["decode_value", "skip_value", "walk_value", "value bytes"]) {
					"decode_value" => e.decode_value().map(|_| ()),
					"skip_value" => e.skip_value(),
					"walk_value" => e.walk_value().map(|_| ()),
					_ => match val_bytes {
						Some(f) => f(e).map(|_| ()),
						None => e.skip_value(),
					},
				};
				ck(bad.is_err(), "a value was taken before its key")?;
				ck(w.remaining() == n - i, "a refused operation changed remaining")?;
				let Some(e) = w.next_entry() else {
					return Err("no next entry".into());
				};
				let (a, b) = er("decode_pair", e.decode_pair())?;
				ck(a.same(k) && b.same(v), "decode_pair after a refused operation gave another pair")?;
				i += 1;
				at += kn + vn;
				dropped = false;
				continue;
			}
			"decode_key" => ck(er("decode_key", e.decode_key())?.same(k), "decode_key gave another key")?,
			"skip_key" => er("skip_key", e.skip_key())?,
			_ => {
				let b = er("with_key_bytes", key_bytes.unwrap()(&mut e))?;
				ck(Some(b) == k.payload(), "with_key_bytes showed other bytes")?
			}
		}
		// the key is consumed
		let mut vops = vec!["decode_value", "skip_value", "walk_value", "key again", "skip key again", "pair again", "skip pair again"];
		if val_bytes.is_some() {
			vops.push("value bytes")
		}
		if key_bytes.is_some() {
			vops.push("key bytes again")
		}
		let mut op = c.pick(off + at + kn, n - i, &vops);
		match op {
			"key again" => ck(e.decode_key().is_err(), "a key was decoded twice")?,
			"skip key again" => ck(e.skip_key().is_err(), "a key was skipped twice")?,
			"key bytes again" => ck(key_bytes.unwrap()(&mut e).is_err(), "key bytes were taken twice")?,
			"pair again" => {
				ck(e.decode_pair().is_err(), "decode_pair after the key succeeded")?;
				ck(w.remaining() == n - i, "a refused operation changed remaining")?;
				return Ok(Out::At(at + kn));
			}
			"skip pair again" => {
				ck(e.skip_pair().is_err(), "skip_pair after the key succeeded")?;
				ck(w.remaining() == n - i, "a refused operation changed remaining")?;
				return Ok(Out::At(at + kn));
			}
			_ => {}
		}
		if op.ends_with("again") {
			op = c.pick(off + at + kn, n - i, &["decode_value", "skip_value"]);
		}
		match op {
			"decode_value" => ck(er("decode_value", e.decode_value())?.same(v), "decode_value gave another value")?,
			"skip_value" => er("skip_value", e.skip_value())?,
			"value bytes" => {
				let b = er("with_value_bytes", val_bytes.unwrap()(e))?;
				ck(Some(b) == v.payload(), "with_value_bytes showed other bytes")?
			}
			_ => {
				let inner = e.walk_value();
				if V::REFUSED {
					ck(inner.is_err(), "a bulk vector value was walked into")?;
					drop(inner);
					ck(w.remaining() == n - i, "a refused walk changed remaining")?;
					return Ok(Out::At(at + kn));
				}
				let o = V::go(er("walk_value", inner)?, v, c, off + at + kn)?;
				if let Some(o) = after(at + kn, o) {
					return Ok(o);
				}
			}
		}
		dropped = false;
		at += kn + vn;
		i += 1;
	}
}

macro_rules! map_walk {
	($($t:ty, $k:ty, $v:ty, [$($kb:ident)?], [$($vb:ident)?]);* $(;)?) => {$(
		impl Walk for $t {
			fn go<'r, R: BorrowedReader>(w: Self::Walker<'r, R>, want: &Self, c: &mut Chooser, off: usize) -> Res {
				#[allow(unused_mut, unused_assignments)]
				let mut kb: Option<fn(&mut MapEntry<'_, 'r, $k, $v, R>) -> Result<Vec<u8>, Error>> = None;
				$( let $kb = (); let _ = $kb; kb = Some(|e| e.with_key_bytes(|b| b.to_vec())); )?
				#[allow(unused_mut, unused_assignments)]
				let mut vb: Option<fn(MapEntry<'_, 'r, $k, $v, R>) -> Result<Vec<u8>, Error>> = None;
				$( let $vb = (); let _ = $vb; vb = Some(|e| e.with_value_bytes(|b| b.to_vec())); )?
				let items: Vec<(&$k, &$v)> = want.iter().collect();
				map::<$k, $v, R>(w, &items, c, off, kb, vb)
			}
		}
	)*};
}
map_walk! {
	BTreeMap<u8, u8>, u8, u8, [], [];
	BTreeMap<u32, String>, u32, String, [], [yes];
	BTreeMap<String, u16>, String, u16, [yes], [];
	BTreeMap<String, String>, String, String, [yes], [yes];
	BTreeMap<String, bool>, String, bool, [yes], [];
	BTreeMap<u8, Vec<u16>>, u8, Vec<u16>, [], [];
	BTreeMap<u8, BTreeMap<u8, u8>>, u8, BTreeMap<u8, u8>, [], [];
	BTreeMap<(u8, u16), Option<String>>, (u8, u16), Option<String>, [], [];
	BTreeMap<u8, Option<u8>>, u8, Option<u8>, [], [];
	BTreeMap<Option<u8>, Result<u8, u8>>, Option<u8>, Result<u8, u8>, [], [];
	HashMap<u8, u8>, u8, u8, [], [];
	HashMap<u16, String>, u16, String, [], [yes];
	HashMap<String, u32>, String, u32, [yes], [];
}
#[cfg(feature = "opt")]
map_walk! {
	imbl::OrdMap<u8, u16>, u8, u16, [], [];
	imbl::OrdMap<String, bool>, String, bool, [yes], [];
	imbl::HashMap<u32, String>, u32, String, [], [yes];
}
