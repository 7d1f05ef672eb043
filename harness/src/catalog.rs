//! The catalogue of concrete types the checks enumerate.

use crate::derived::*;
use crate::model::Model;
use revision::{SkipCheckRevisioned, SkipRevisioned, WalkRevisioned};
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

/// Walks the value at the start of the bytes to its end; returns the bytes consumed.
pub type WalkFn = fn(&[u8]) -> Result<usize, revision::Error>;

/// Visitor over the catalogue. `full`: every trait; `skip`: no checked skipping;
/// `plain`: serialization only.
pub trait Visit {
	fn full<T: Model + SkipRevisioned + SkipCheckRevisioned>(&mut self, walk: Option<WalkFn>) {
		let _ = walk;
		self.skip::<T>()
	}
	fn skip<T: Model + SkipRevisioned>(&mut self) {
		self.plain::<T>()
	}
	fn plain<T: Model>(&mut self);
}

macro_rules! each {
	($v:expr, full: $($t:ty),* $(,)?) => { $( $v.full::<$t>(Some(|b| {
		let mut r: &[u8] = b;
		<$t as WalkRevisioned>::walk_revisioned(&mut r)?.skip()?;
		Ok(b.len() - r.len())
	})); )* };
	($v:expr, rest: $($t:ty),* $(,)?) => { $( $v.full::<$t>(Some(|b| {
		let mut r: &[u8] = b;
		<$t as WalkRevisioned>::walk_revisioned(&mut r)?.skip_remaining()?;
		Ok(b.len() - r.len())
	})); )* };
	($v:expr, nowalk: $($t:ty),* $(,)?) => { $( $v.full::<$t>(None); )* };
	($v:expr, $m:ident: $($t:ty),* $(,)?) => { $( $v.$m::<$t>(); )* };
}

/// Types every property looks at first: one of each kind.
pub fn scalars(v: &mut impl Visit) {
	each!(v, full: u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, f32, f64, char, String, Box<str>, Arc<str>, PathBuf, Duration, SystemTime);
	each!(v, nowalk: Cow<'static, str>);
	each!(v, plain: ());
	#[cfg(feature = "opt")]
	{
		use ordered_float::NotNan;
		each!(v, full: NotNan<f32>, NotNan<f64>, bytes::Bytes, regex::Regex, rust_decimal::Decimal, uuid::Uuid, roaring::RoaringBitmap, roaring::RoaringTreemap, chrono::DateTime<chrono::Utc>, chrono::NaiveDate, chrono::NaiveTime, chrono::TimeDelta, geo::Coord, geo::Point, geo::LineString, geo::Polygon, geo::MultiPoint, geo::MultiLineString, geo::MultiPolygon);
	}
}

/// Every generic container over element types of every encoding kind.
pub fn containers(v: &mut impl Visit) {
	each!(v, rest: Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<usize>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<isize>, Vec<bool>, Vec<f32>, Vec<f64>, Vec<char>, Vec<String>, Vec<Duration>);
	each!(v, plain: Vec<()>, Option<()>, BTreeMap<u8, ()>);
	each!(v, full: Option<u8>, Option<bool>, Option<u32>, Option<String>, Option<f64>, Option<char>);
	each!(v, full: Result<u8, String>, Result<String, u16>, Result<bool, bool>, Bound<u8>, Bound<u32>, Bound<String>, Range<u8>, Range<i64>, Range<String>);
	each!(v, full: Box<u32>, Box<String>, Arc<i64>, Arc<String>, Wrapping<u32>, Wrapping<i64>, Wrapping<u8>, Reverse<u32>, Reverse<String>, Cow<'static, u64>, Cow<'static, String>);
	each!(v, full: (u8,), (u8, u16), (String, bool, i32), (u16, String, f32, u8), (bool, char, u64, String, i8), (u8, u16, u32, u64, u128, String));
	each!(v, full: [u8; 1], [u8; 2], [u16; 3], [bool; 4], [u32; 5], [i8; 6], [f64; 7], [u64; 8], [u8; 16], [u16; 31], [u8; 32], [i128; 32], [char; 9]);
	each!(v, rest: BTreeSet<u8>, BTreeSet<u32>, BTreeSet<String>, BTreeSet<bool>, BTreeSet<i16>, HashSet<u8>, HashSet<u64>, HashSet<String>, BinaryHeap<u8>, BinaryHeap<u32>, BinaryHeap<String>);
	each!(v, rest: BTreeMap<u8, u8>, BTreeMap<u32, String>, BTreeMap<String, u16>, BTreeMap<String, bool>, BTreeMap<i64, f64>, HashMap<u8, u8>, HashMap<u16, String>, HashMap<String, u32>, HashMap<bool, char>);
	#[cfg(feature = "opt")]
	{
		each!(v, full: Option<uuid::Uuid>);
		each!(v, rest: Vec<rust_decimal::Decimal>, Vec<uuid::Uuid>, Vec<bytes::Bytes>, BTreeMap<uuid::Uuid, rust_decimal::Decimal>, Vec<chrono::NaiveDate>, HashMap<uuid::Uuid, String>);
		each!(v, rest: imbl::Vector<u8>, imbl::Vector<String>, imbl::Vector<u32>, imbl::OrdSet<u16>, imbl::OrdSet<String>, imbl::HashSet<u8>, imbl::HashSet<String>, imbl::OrdMap<u8, u16>, imbl::OrdMap<String, bool>, imbl::HashMap<u32, String>, imbl::HashMap<String, u8>);
	}
}

/// Compositions, two and three containers deep.
pub fn nested(v: &mut impl Visit) {
	each!(v, rest: Vec<Vec<u8>>, Vec<Vec<bool>>, Vec<Vec<u32>>, Vec<Vec<String>>, Vec<Option<u8>>, Vec<Option<String>>, Vec<(u8, String)>, Vec<[u16; 3]>, Vec<Box<u16>>, Vec<BTreeMap<u8, u8>>, Vec<Wrapping<u32>>, Vec<Reverse<u16>>);
	each!(v, full: Option<Option<u8>>, Option<Vec<u8>>, Option<Vec<bool>>, Option<BTreeMap<u8, String>>, Option<(u8, u16)>, Option<Box<u32>>, Option<Result<u8, bool>>);
	each!(v, full: Result<Vec<u16>, Option<String>>, Result<Result<u8, u16>, String>, Bound<Option<u8>>, Bound<(u8, u16)>, Range<(u8, bool)>, Box<Option<Box<u8>>>, Cow<'static, Vec<u32>>, (Vec<bool>, Vec<u8>), (Option<u8>, Vec<u16>, BTreeMap<u8, u8>));
	each!(v, rest: Box<Vec<u64>>, Arc<Vec<String>>, Arc<BTreeMap<u8, u16>>, Reverse<Vec<u8>>);
	each!(v, rest: BTreeMap<u8, Vec<u16>>, BTreeMap<String, Vec<bool>>, BTreeMap<(u8, u8), Option<String>>, BTreeMap<Vec<u8>, Vec<u8>>, BTreeMap<u8, BTreeMap<u8, u8>>, BTreeMap<Option<u8>, Result<u8, u8>>, HashMap<u8, Vec<u32>>, HashMap<String, HashMap<u8, u8>>, BTreeSet<Vec<u8>>, BTreeSet<(u8, String)>, BTreeSet<Option<u16>>, HashSet<Vec<bool>>, BinaryHeap<Reverse<u32>>, BinaryHeap<(u8, String)>);
	each!(v, full: Option<Vec<Option<u16>>>, Result<Vec<Option<u8>>, BTreeMap<u8, u8>>);
	each!(v, rest: Vec<Option<Vec<u8>>>, Vec<BTreeMap<u8, Vec<bool>>>, BTreeMap<u8, Option<Vec<String>>>, Vec<Vec<Vec<u16>>>, Arc<Vec<Box<Option<u8>>>>, Box<BTreeMap<String, (u8, Vec<bool>)>>);
	each!(v, full: [Option<u8>; 3], [(u8, u16); 4], [[u8; 2]; 3]);
	#[cfg(feature = "opt")]
	each!(v, full: Option<chrono::DateTime<chrono::Utc>>);
	#[cfg(feature = "opt")]
	each!(v, rest: imbl::OrdMap<u8, imbl::Vector<u16>>, Vec<imbl::OrdSet<u8>>, BTreeMap<String, geo::Point>, Vec<roaring::RoaringBitmap>);
}

/// User types with derived encodings, alone and inside containers.
pub fn derived(v: &mut impl Visit) {
	each!(v, nowalk: LUnit, LTuple, LStruct, LEnum, LNest, OStruct, OIndexed, OMap, OMapPlain, OSeq, OSet, OEnum, ONest, ORev, LFixed, LSpec, OHash);
	each!(v, nowalk: Vec<LStruct>, Vec<LEnum>, Vec<OEnum>, Vec<OIndexed>, Option<OMap>, Option<LEnum>, BTreeMap<u8, LStruct>, BTreeMap<String, OEnum>,
		Box<LNest>, Arc<ONest>, (LStruct, OStruct, LEnum), Vec<LUnit>, Result<OStruct, LEnum>, BTreeMap<LTuple, OStruct>, Vec<Option<ORev>>);
}

pub fn all(v: &mut impl Visit) {
	scalars(v);
	containers(v);
	#[cfg(feature = "nest")]
	nested(v);
	derived(v);
}
