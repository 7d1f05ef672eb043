//! Hand-written user types with derived encodings, each with a reference encoder and decoder.

use crate::model::*;
use crate::wire::*;
use revision::revisioned;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// Reference encodings of a field, by field kind.
pub trait FieldKind<T> {
	fn enc(x: &T, o: &mut Vec<u8>);
	fn dec(r: &mut Rd) -> R<T>;
}
pub struct Plain;
pub struct FixedInt;
pub struct Spec;
pub struct IMap;
pub struct ISeq;
pub struct ISet;

impl<T: Model> FieldKind<T> for Plain {
	fn enc(x: &T, o: &mut Vec<u8>) {
		x.enc(o)
	}
	fn dec(r: &mut Rd) -> R<T> {
		T::dec(r)
	}
}
impl<T: Model> FieldKind<T> for FixedInt {
	fn enc(x: &T, o: &mut Vec<u8>) {
		T::bulk_enc(std::slice::from_ref(x), o)
	}
	fn dec(r: &mut Rd) -> R<T> {
		Ok(T::bulk_dec(1, r)?.pop().unwrap())
	}
}
impl<T: Model> FieldKind<Vec<T>> for Spec {
	fn enc(x: &Vec<T>, o: &mut Vec<u8>) {
		put_len(o, x.len());
		T::bulk_enc(x, o)
	}
	fn dec(r: &mut Rd) -> R<Vec<T>> {
		let n = get_len(r)?;
		T::bulk_dec(n, r)
	}
}

/// Reference decoder of the indexed map layout; anything but the canonical layout is left to the
/// crate to judge.
pub fn dec_indexed_map<K: Model, V: Model>(r: &mut Rd) -> R<Vec<(K, V)>> {
	let flags = r.u8().map_err(abst)?;
	let n = get_varint(r, 8).map_err(abst)? as u64;
	let mut out = Vec::new();
	if flags & 1 == 0 {
		for _ in 0..n {
			let k = K::dec(r).map_err(abst)?;
			out.push((k, V::dec(r).map_err(abst)?));
		}
		return Ok(out);
	}
	if n > HUGE {
		return Err(Bad::Abstain);
	}
	r.take(n as usize * 8 + 8).map_err(abst)?;
	let mut ks = Vec::new();
	for _ in 0..n {
		ks.push(K::dec(r).map_err(abst)?);
	}
	for k in ks {
		out.push((k, V::dec(r).map_err(abst)?));
	}
	loose();
	Ok(out)
}
/// As above for sequences and sets.
pub fn dec_indexed_seq<T: Model>(r: &mut Rd) -> R<Vec<T>> {
	let flags = r.u8().map_err(abst)?;
	let n = get_varint(r, 8).map_err(abst)? as u64;
	if flags & 1 == 1 {
		if n > HUGE {
			return Err(Bad::Abstain);
		}
		r.take(n as usize * 4).map_err(abst)?;
	}
	let mut out = Vec::new();
	for _ in 0..n {
		out.push(T::dec(r).map_err(abst)?);
	}
	if flags & 1 == 1 {
		loose();
	}
	Ok(out)
}
fn abst(b: Bad) -> Bad {
	match b {
		Bad::Huge => Bad::Huge,
		_ => Bad::Abstain,
	}
}

macro_rules! imap {
	($m:ident, $($b:path),*) => {
		impl<K: Model $(+ $b)*, V: Model> FieldKind<$m<K, V>> for IMap {
			fn enc(x: &$m<K, V>, o: &mut Vec<u8>) { put_indexed_map(o, x.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect()) }
			fn dec(r: &mut Rd) -> R<$m<K, V>> { Ok(dec_indexed_map(r)?.into_iter().collect()) }
		}
	};
}
imap!(BTreeMap, Ord);
imap!(HashMap, Eq, std::hash::Hash);
impl<T: Model> FieldKind<Vec<T>> for ISeq {
	fn enc(x: &Vec<T>, o: &mut Vec<u8>) {
		put_indexed_seq(o, &x.iter().map(|e| e.bytes()).collect::<Vec<_>>())
	}
	fn dec(r: &mut Rd) -> R<Vec<T>> {
		dec_indexed_seq(r)
	}
}
macro_rules! iset {
	($m:ident, $($b:path),*) => {
		impl<T: Model $(+ $b)*> FieldKind<$m<T>> for ISet {
			fn enc(x: &$m<T>, o: &mut Vec<u8>) { put_indexed_set(o, x.iter().map(|e| e.bytes()).collect()) }
			fn dec(r: &mut Rd) -> R<$m<T>> { Ok(dec_indexed_seq(r)?.into_iter().collect()) }
		}
	};
}
iset!(BTreeSet, Ord);
iset!(HashSet, Eq, std::hash::Hash);

pub enum Layout {
	Legacy,
	Opt,
	Indexed,
}

pub fn put_struct(o: &mut Vec<u8>, l: &Layout, rev: u16, fields: Vec<Vec<u8>>) {
	match l {
		Layout::Legacy => {
			put_rev(o, rev);
			o.extend(fields.concat())
		}
		Layout::Opt => put_opt_struct(o, rev, &fields.concat()),
		Layout::Indexed => put_indexed_struct(o, rev, &fields),
	}
}

/// Hands out combination components of a field's domain, regenerating those handed out before.
pub struct Pool<T>(Lvl, Vec<Option<T>>);
impl<T: Model> Pool<T> {
	pub fn new(l: Lvl) -> Self {
		Pool(l.min(1), T::vals(l.min(1)).into_iter().map(Some).collect())
	}
	/// The component of combination `j` for the field in place `i`.
	pub fn pick(&mut self, j: usize, i: usize) -> T {
		let n = self.1.len();
		let k = (j + (j / n) * i) % n;
		if self.1[k].is_none() {
			self.1 = T::vals(self.0).into_iter().map(Some).collect();
		}
		self.1[k].take().unwrap()
	}
}

macro_rules! dstruct {
	($name:ident, $layout:ident, $rev:expr, $max:expr, hashed=$h:expr $(, older = $older:expr)?, { $($i:tt $f:tt : $t:ty = $k:ident),* $(,)? }) => {
		impl Model for $name {
			fn name() -> String { stringify!($name).into() }
			fn vals(l: Lvl) -> Vec<Self> {
				let top = [1usize, $(<$t>::vals(l.min(1)).len()),*].into_iter().max().unwrap();
				let top = if l == 0 { top.min(2) } else { top * 2 };
				#[allow(unused_mut, unused_variables)]
				let mut pools = ($(Pool::<$t>::new(l),)*);
				(0..top).map(|j| { let _ = j; $name { $($f: pools.$i.pick(j, $i + 1)),* } }).collect()
			}
			fn enc(&self, o: &mut Vec<u8>) {
				#[allow(unused_mut)]
				let mut fs: Vec<Vec<u8>> = vec![];
				$( { let mut b = vec![]; <$k as FieldKind<$t>>::enc(&self.$f, &mut b); fs.push(b) } )*
				put_struct(o, &Layout::$layout, $rev, fs)
			}
			fn dec(r: &mut Rd) -> R<Self> {
				let rev = get_rev(r)?;
				if rev != $rev && (rev == 0 || rev > $max) { return Err(Bad::Invalid) }
				$( if rev != $rev { let f: fn(u16, &mut Rd) -> R<Self> = $older; return f(rev, r) } )?
				match Layout::$layout {
					Layout::Legacy => Ok($name { $($f: <$k as FieldKind<$t>>::dec(r)?),* }),
					l => {
						let n = u32::from_le_bytes(r.arr()?) as usize;
						let b = r.take(n)?;
						let mut q = Rd::new(b);
						if let Layout::Indexed = l { q.take(4 * [$($i),*].len()).map_err(|_| Bad::Abstain)?; }
						#[allow(unused_mut)]
						let mut go = || -> R<Self> { Ok($name { $($f: <$k as FieldKind<$t>>::dec(&mut q)?),* }) };
						match go() {
							Ok(x) => {
								if q.left() != 0 || x.bytes() != [&r.b[r.p - n - 4 - rev_len()..r.p]].concat() { loose() }
								Ok(x)
							}
							Err(Bad::Huge) => Err(Bad::Huge),
							_ => Err(Bad::Abstain),
						}
					}
				}
			}
			fn same(&self, _o: &Self) -> bool { true $(&& self.$f.same(&_o.$f))* }
			const HASHED: bool = $h;
		}
	};
}
fn rev_len() -> usize {
	if FIXED {
		2
	} else {
		1
	}
}

// ---- legacy ---------------------------------------------------------------------------------------

#[revisioned(revision = 1)]
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct LUnit;
impl Model for LUnit {
	fn name() -> String {
		"LUnit".into()
	}
	fn vals(_: Lvl) -> Vec<Self> {
		vec![LUnit]
	}
	fn enc(&self, o: &mut Vec<u8>) {
		put_rev(o, 1)
	}
	fn dec(r: &mut Rd) -> R<Self> {
		if get_rev(r)? == 1 {
			Ok(LUnit)
		} else {
			Err(Bad::Invalid)
		}
	}
	fn same(&self, _: &Self) -> bool {
		true
	}
}

#[revisioned(revision = 1)]
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct LTuple(pub u16, pub String, pub Vec<bool>);
dstruct!(LTuple, Legacy, 1, 1, hashed=false, { 0 0: u16 = Plain, 1 1: String = Plain, 2 2: Vec<bool> = Plain });

#[revisioned(revision = 3)]
#[derive(Debug, Clone)]
pub struct LStruct {
	pub a: u8,
	#[revision(start = 2)]
	pub b: Option<String>,
	#[revision(start = 3)]
	pub c: Vec<u16>,
	pub d: BTreeMap<u8, bool>,
	#[revision(end = 3, convert_fn = "drop_e")]
	pub e: u32,
	pub f: f64,
}
impl LStruct {
	fn drop_e(&mut self, _rev: u16, _v: u32) -> Result<(), revision::Error> {
		Ok(())
	}
}
dstruct!(LStruct, Legacy, 3, 3, hashed=false, older = |rev, r| {
	let a = u8::dec(r)?;
	let b = if rev >= 2 {
		Option::<String>::dec(r)?
	} else {
		None
	};
	let d = BTreeMap::dec(r)?;
	u32::dec(r)?;
	Ok(LStruct {
		a,
		b,
		c: Vec::new(),
		d,
		f: f64::dec(r)?,
	})
}, { 0 a: u8 = Plain, 1 b: Option<String> = Plain, 2 c: Vec<u16> = Plain, 3 d: BTreeMap<u8, bool> = Plain, 4 f: f64 = Plain });

#[revisioned(revision = 2)]
#[derive(Debug, Clone)]
pub enum LEnum {
	Unit,
	#[revision(end = 2, convert_fn = "drop_old")]
	Old(u8),
	One(u32),
	Two(String, bool),
	Named {
		x: i16,
		y: Vec<u8>,
	},
	#[revision(start = 2)]
	New(Option<u8>),
}
impl LEnum {
	fn drop_old(_f: LEnumOldFields, _rev: u16) -> Result<Self, revision::Error> {
		Ok(LEnum::Unit)
	}
}
impl Model for LEnum {
	fn name() -> String {
		"LEnum".into()
	}
	fn vals(l: Lvl) -> Vec<Self> {
		let l = l.min(1);
		let mut v = vec![LEnum::Unit];
		v.extend(u32::vals(l).into_iter().map(LEnum::One));
		v.extend(<(String, bool)>::vals(l).into_iter().map(|(a, b)| LEnum::Two(a, b)));
		v.extend(<(i16, Vec<u8>)>::vals(l).into_iter().map(|(x, y)| LEnum::Named {
			x,
			y,
		}));
		v.extend(<Option<u8>>::vals(l).into_iter().map(LEnum::New));
		v
	}
	fn enc(&self, o: &mut Vec<u8>) {
		put_rev(o, 2);
		match self {
			LEnum::Unit => put_tag32(o, 0),
			LEnum::One(a) => {
				put_tag32(o, 1);
				a.enc(o)
			}
			LEnum::Two(a, b) => {
				put_tag32(o, 2);
				a.enc(o);
				b.enc(o)
			}
			LEnum::Named {
				x,
				y,
			} => {
				put_tag32(o, 3);
				x.enc(o);
				y.enc(o)
			}
			LEnum::New(a) => {
				put_tag32(o, 4);
				a.enc(o)
			}
		}
	}
	fn dec(r: &mut Rd) -> R<Self> {
		match get_rev(r)? {
			1 => Ok(match get_tag32(r)? {
				0 => LEnum::Unit,
				1 => {
					u8::dec(r)?;
					LEnum::Unit
				}
				2 => LEnum::One(u32::dec(r)?),
				3 => LEnum::Two(String::dec(r)?, bool::dec(r)?),
				4 => LEnum::Named {
					x: i16::dec(r)?,
					y: Vec::dec(r)?,
				},
				_ => return Err(Bad::Invalid),
			}),
			2 => Ok(match get_tag32(r)? {
				0 => LEnum::Unit,
				1 => LEnum::One(u32::dec(r)?),
				2 => LEnum::Two(String::dec(r)?, bool::dec(r)?),
				3 => LEnum::Named {
					x: i16::dec(r)?,
					y: Vec::dec(r)?,
				},
				4 => LEnum::New(Option::dec(r)?),
				_ => return Err(Bad::Invalid),
			}),
			_ => Err(Bad::Invalid),
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(LEnum::Unit, LEnum::Unit) => true,
			(LEnum::One(a), LEnum::One(b)) => a == b,
			(LEnum::Two(a, b), LEnum::Two(c, d)) => a == c && b == d,
			(
				LEnum::Named {
					x,
					y,
				},
				LEnum::Named {
					x: a,
					y: b,
				},
			) => x == a && y == b,
			(LEnum::New(a), LEnum::New(b)) => a == b,
			_ => false,
		}
	}
}

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub struct LNest {
	pub s: LStruct,
	pub e: LEnum,
	pub v: Vec<LTuple>,
	pub o: Option<OStruct>,
}
dstruct!(LNest, Legacy, 1, 1, hashed=false, { 0 s: LStruct = Plain, 1 e: LEnum = Plain, 2 v: Vec<LTuple> = Plain, 3 o: Option<OStruct> = Plain });

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub struct LFixed {
	pub a: u8,
	#[revision(fixed)]
	pub b: u32,
	#[revision(fixed)]
	pub c: i32,
	pub d: u32,
	#[revision(fixed)]
	pub e: u64,
	#[revision(fixed)]
	pub f: i128,
	pub g: String,
	#[revision(fixed)]
	pub h: i64,
}
dstruct!(LFixed, Legacy, 1, 1, hashed=false, { 0 a: u8 = Plain, 1 b: u32 = FixedInt, 2 c: i32 = FixedInt, 3 d: u32 = Plain, 4 e: u64 = FixedInt, 5 f: i128 = FixedInt, 6 g: String = Plain, 7 h: i64 = FixedInt });

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub struct LSpec {
	#[revision(specialised)]
	pub a: Vec<u16>,
	pub b: Vec<u16>,
	#[revision(specialised)]
	pub c: Vec<bool>,
	pub d: u8,
	#[revision(specialised)]
	pub e: Vec<i64>,
	#[revision(specialised)]
	pub f: Vec<f32>,
	#[revision(specialised)]
	pub g: Vec<u8>,
}
dstruct!(LSpec, Legacy, 1, 1, hashed=false, { 0 a: Vec<u16> = Spec, 1 b: Vec<u16> = Plain, 2 c: Vec<bool> = Spec, 3 d: u8 = Plain, 4 e: Vec<i64> = Spec, 5 f: Vec<f32> = Spec, 6 g: Vec<u8> = Spec });

// ---- optimised ------------------------------------------------------------------------------------

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct OStruct {
	pub a: u16,
	pub b: String,
	pub c: Option<Vec<bool>>,
}
dstruct!(OStruct, Opt, 1, 1, hashed=false, { 0 a: u16 = Plain, 1 b: String = Plain, 2 c: Option<Vec<bool>> = Plain });

#[revisioned(revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct OIndexed {
	pub a: u32,
	pub b: String,
	pub c: Vec<u8>,
	pub d: bool,
}
dstruct!(OIndexed, Indexed, 1, 1, hashed=false, { 0 a: u32 = Plain, 1 b: String = Plain, 2 c: Vec<u8> = Plain, 3 d: bool = Plain });

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct OMap {
	pub id: u8,
	#[revision(indexed_map)]
	pub m: BTreeMap<String, u32>,
	pub t: u16,
}
dstruct!(OMap, Opt, 1, 1, hashed=false, { 0 id: u8 = Plain, 1 m: BTreeMap<String, u32> = IMap, 2 t: u16 = Plain });

#[revisioned(revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct OMapPlain {
	#[revision(indexed_map)]
	pub m: BTreeMap<u8, Vec<u8>>,
	#[revision(indexed_seq)]
	pub s: Vec<u16>,
}
dstruct!(OMapPlain, Indexed, 1, 1, hashed=false, { 0 m: BTreeMap<u8, Vec<u8>> = IMap, 1 s: Vec<u16> = ISeq });

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct OSeq {
	#[revision(indexed_seq)]
	pub s: Vec<String>,
	#[revision(indexed_seq)]
	pub b: Vec<bool>,
	pub z: u8,
}
dstruct!(OSeq, Opt, 1, 1, hashed=false, { 0 s: Vec<String> = ISeq, 1 b: Vec<bool> = ISeq, 2 z: u8 = Plain });

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct OSet {
	#[revision(indexed_set)]
	pub s: BTreeSet<String>,
	#[revision(indexed_set)]
	pub u: BTreeSet<u16>,
}
dstruct!(OSet, Opt, 1, 1, hashed=false, { 0 s: BTreeSet<String> = ISet, 1 u: BTreeSet<u16> = ISet });

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct OHash {
	#[revision(indexed_map)]
	pub m: HashMap<u16, String>,
	#[revision(indexed_set)]
	pub s: HashSet<i32>,
	pub z: u8,
}
dstruct!(OHash, Opt, 1, 1, hashed=false, { 0 m: HashMap<u16, String> = IMap, 1 s: HashSet<i32> = ISet, 2 z: u8 = Plain });

/// Mixed history: legacy first revision, optimised second.
#[revisioned(revision(1), revision(2, optimised))]
#[derive(Debug, Clone, PartialEq, Default)]
pub struct ORev {
	pub a: u8,
	#[revision(start = 2)]
	pub b: Vec<u32>,
}
dstruct!(ORev, Opt, 2, 2, hashed=false, older = |_, r| {
	Ok(ORev {
		a: u8::dec(r)?,
		b: Vec::new(),
	})
}, { 0 a: u8 = Plain, 1 b: Vec<u32> = Plain });

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone, PartialEq, Default)]
pub enum OEnum {
	#[default]
	#[revision(size = "inline")]
	Unit,
	#[revision(size = "fixed(1)")]
	Byte(u8),
	#[revision(size = "varlen")]
	Text(String),
	#[revision(size = "fixed(3)")]
	Arr([u8; 3]),
	#[revision(size = "varlen")]
	Rec {
		x: u32,
		y: Option<bool>,
	},
}
impl Model for OEnum {
	fn name() -> String {
		"OEnum".into()
	}
	fn vals(l: Lvl) -> Vec<Self> {
		let l = l.min(1);
		let mut v = vec![OEnum::Unit];
		v.extend(u8::vals(l).into_iter().map(OEnum::Byte));
		v.extend(String::vals(l).into_iter().map(OEnum::Text));
		v.extend(<[u8; 3]>::vals(l).into_iter().map(OEnum::Arr));
		v.extend(<(u32, Option<bool>)>::vals(l).into_iter().map(|(x, y)| OEnum::Rec {
			x,
			y,
		}));
		v
	}
	fn enc(&self, o: &mut Vec<u8>) {
		match self {
			OEnum::Unit => put_opt_enum(o, 1, 0, Size::Inline, &[]),
			OEnum::Byte(b) => put_opt_enum(o, 1, 1, Size::Fixed, &[*b]),
			OEnum::Text(s) => put_opt_enum(o, 1, 2, Size::Varlen, &s.bytes()),
			OEnum::Arr(a) => put_opt_enum(o, 1, 3, Size::Fixed, a),
			OEnum::Rec {
				x,
				y,
			} => put_opt_enum(o, 1, 4, Size::Varlen, &[x.bytes(), y.bytes()].concat()),
		}
	}
	fn dec(r: &mut Rd) -> R<Self> {
		if get_rev(r)? != 1 {
			return Err(Bad::Invalid);
		}
		let tag = r.u8()?;
		let mut body = |n: Option<usize>| -> R<Rd> {
			let n = match n {
				Some(n) => n,
				None => u32::from_le_bytes(r.arr()?) as usize,
			};
			Ok(Rd::new(r.take(n)?))
		};
		let whole = |q: Rd| {
			if q.left() != 0 {
				loose()
			}
		};
		match tag {
			0 => Ok(OEnum::Unit),
			0x21 => Ok(OEnum::Byte(body(Some(1))?.u8()?)),
			0x42 => {
				let mut q = body(None)?;
				let s = String::dec(&mut q)?;
				whole(q);
				Ok(OEnum::Text(s))
			}
			0x23 => Ok(OEnum::Arr(body(Some(3))?.arr()?)),
			0x44 => {
				let mut q = body(None)?;
				let x = u32::dec(&mut q)?;
				let y = Option::dec(&mut q)?;
				whole(q);
				Ok(OEnum::Rec {
					x,
					y,
				})
			}
			// unknown variant ids, size classes that are not the variant's, reserved bits
			_ => Err(Bad::Invalid),
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(OEnum::Unit, OEnum::Unit) => true,
			(OEnum::Byte(a), OEnum::Byte(b)) => a == b,
			(OEnum::Text(a), OEnum::Text(b)) => a == b,
			(OEnum::Arr(a), OEnum::Arr(b)) => a == b,
			(
				OEnum::Rec {
					x,
					y,
				},
				OEnum::Rec {
					x: a,
					y: b,
				},
			) => x == a && y == b,
			_ => false,
		}
	}
}

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct ONest {
	pub s: OStruct,
	pub e: OEnum,
	pub l: LTuple,
	#[revision(indexed_map)]
	pub m: BTreeMap<String, OEnum>,
	#[revision(indexed_seq)]
	pub q: Vec<OIndexed>,
}
dstruct!(ONest, Opt, 1, 1, hashed=false, { 0 s: OStruct = Plain, 1 e: OEnum = Plain, 2 l: LTuple = Plain, 3 m: BTreeMap<String, OEnum> = IMap, 4 q: Vec<OIndexed> = ISeq });
