//! Support for generated revision histories: field alphabet, sample values, conversion log and the
//! drivers that judge every (stored revision, reader revision, sample) of a generated type.

use crate::derived::{FieldKind, FixedInt, IMap, ISeq, ISet, OEnum, ORev, Plain, Spec};
use crate::model::Model;
use crate::rep::*;
use crate::wire::*;
use revision::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

// ---- field alphabet -----------------------------------------------------------------------------

pub trait Fld: Model + Clone + Debug + PartialEq + Default + Send + Sync {
	/// A few values, the smallest and the awkward ones.
	fn pool() -> Vec<Self>;
	/// What default functions answer for data of revision `rev`.
	fn dflt(rev: u16) -> Self;
}
/// Sample `j` of the field in slot `i`.
pub fn val<T: Fld>(i: usize, j: usize) -> T {
	let mut p = T::pool();
	let n = p.len();
	let step = [1, 2, 3, 5, 7][i % 5];
	p.swap_remove((j * step + j / n + i) % n)
}
pub fn dflt<T: Fld>(rev: u16) -> Result<T, Error> {
	hook()?;
	Ok(T::dflt(rev))
}
/// Number of samples of every history.
pub const SAMPLES: usize = 6;

macro_rules! fld {
	($t:ty, [$($v:expr),* $(,)?], |$r:ident| $d:expr) => {
		impl Fld for $t {
			fn pool() -> Vec<Self> { vec![$($v),*] }
			fn dflt($r: u16) -> Self { $d }
		}
	};
}
fn words(n: usize) -> impl Iterator<Item = String> {
	(0..n).map(|i| "xyzé".chars().cycle().skip(i).take(1 + i % 3).chain(std::iter::once(char::from(b'a' + i as u8))).collect())
}
fld!(u8, [7, 255, 0], |r| 30 + r as u8);
fld!(u16, [300, 0, 65535, 250], |r| 3000 + r);
fld!(u32, [70000, 1, u32::MAX, 251], |r| 1000 + r as u32);
fld!(i64, [-70000, 1, i64::MIN, i64::MAX], |r| -1000 - r as i64);
fld!(u64, [1 << 40, 250, 0, u64::MAX], |r| 9000 + r as u64);
fld!(i128, [-1, i128::MAX, i128::MIN, 5], |r| -(r as i128));
fld!(i32, [-1, i32::MAX, i32::MIN, 5], |r| -(r as i32));
fld!(bool, [true, false], |r| r % 2 == 0);
fld!(f64, [1.5, -0.0, 1e300], |r| r as f64 / 4.0);
fld!(String, ["é1".into(), "".into(), "long ".repeat(60)], |r| format!("d{r}"));
fld!([u8; 3], [[1, 2, 3], [0; 3], [255; 3]], |r| [r as u8; 3]);
fld!(Option<u8>, [Some(9), None, Some(0)], |r| Some(r as u8 + 100));
fld!(Option<String>, [Some("o".into()), None], |r| Some(format!("o{r}")));
fld!((u8, String), [(1, "t".into()), (0, "".into())], |r| (r as u8, "dt".into()));
fld!(Vec<u8>, [vec![1, 2, 3], vec![], vec![9; 300]], |r| vec![r as u8; 2]);
fld!(Vec<u16>, [vec![1, 300, 65535], vec![], (0..20).collect()], |r| vec![r, 7]);
fld!(Vec<u32>, [vec![1, 300, u32::MAX], vec![], (0..9).collect()], |r| vec![r as u32]);
// encodings beyond 65535 bytes; only in histories made for them
fld!(Vec<i64>, [(0..9000).map(|x| i64::MIN + x).collect(), vec![], vec![-1]], |r| vec![r as i64; 9000]);
fld!(Vec<bool>, [vec![true, false, true], vec![], vec![true; 17]], |r| vec![r == 1, true]);
fld!(Vec<String>, [words(2).collect(), vec![], words(9).collect()], |r| vec![format!("v{r}")]);
fld!(BTreeSet<u32>, [[5, 300, 70000].into(), [].into(), (0..9).map(|x| x * 100).collect()], |r| [r as u32, 1 << 20].into());
fld!(BTreeSet<String>, [words(3).collect(), [].into(), words(10).collect()], |r| [format!("s{r}")].into());
fld!(BTreeMap<String, u16>, [words(2).zip(5..).collect(), [].into(), words(9).zip(300..).collect()], |r| [(format!("m{r}"), r)].into());
fld!(BTreeMap<u16, String>, [(250..253).zip(words(3)).collect(), [].into(), (246..260).zip(words(14)).collect()], |r| [(r, format!("m{r}"))].into());
fld!(ORev, [ORev { a: 1, b: vec![] }, ORev { a: 255, b: vec![1, 2, 70000] }], |r| ORev { a: r as u8, b: vec![5] });
fld!(OEnum, [OEnum::Unit, OEnum::Byte(3), OEnum::Text("txt".into()), OEnum::Rec { x: 300, y: None }], |r| OEnum::Byte(r as u8));

/// Reads a whole value through its walker.
pub trait Drain: WalkRevisioned + Fld {
	/// The walker is refused (vectors in bulk layout).
	const REFUSED: bool = false;
	fn drain<'r, R: BorrowedReader + 'r>(w: Self::Walker<'r, R>) -> Result<Self, Error>;
}
macro_rules! leaf { ($($t:ty),*) => {$(
	impl Drain for $t {
		fn drain<'r, R: BorrowedReader + 'r>(w: Self::Walker<'r, R>) -> Result<Self, Error> { w.decode() }
	}
)*} }
leaf!(u8, u16, u32, i32, i64, u64, i128, bool, f64, String, [u8; 3], Option<u8>, Option<String>, (u8, String));
macro_rules! seqs { ($($t:ty, $bulk:expr);*) => {$(
	impl Drain for $t {
		const REFUSED: bool = SPEC && $bulk;
		fn drain<'r, R: BorrowedReader + 'r>(mut w: Self::Walker<'r, R>) -> Result<Self, Error> {
			let mut v = vec![];
			while let Some(i) = w.next_item() { v.push(i.decode()?) }
			Ok(v.into_iter().collect())
		}
	}
)*} }
seqs!(Vec<u8>, true; Vec<u16>, true; Vec<u32>, true; Vec<i64>, true; Vec<bool>, true; Vec<String>, false; BTreeSet<u32>, false; BTreeSet<String>, false);
macro_rules! maps { ($($t:ty),*) => {$(
	impl Drain for $t {
		fn drain<'r, R: BorrowedReader + 'r>(mut w: Self::Walker<'r, R>) -> Result<Self, Error> {
			let mut v = vec![];
			while let Some(mut e) = w.next_entry() {
				let k = e.decode_key()?;
				v.push((k, e.decode_value()?))
			}
			Ok(v.into_iter().collect())
		}
	}
)*} }
maps!(BTreeMap<String, u16>, BTreeMap<u16, String>);
impl Drain for ORev {
	fn drain<'r, R: BorrowedReader + 'r>(mut w: Self::Walker<'r, R>) -> Result<Self, Error> {
		Ok(ORev {
			a: w.decode_a()?,
			b: w.decode_b()?,
		})
	}
}
impl Drain for OEnum {
	fn drain<'r, R: BorrowedReader + 'r>(w: Self::Walker<'r, R>) -> Result<Self, Error> {
		Ok(if w.is_unit() {
			OEnum::Unit
		} else if w.is_byte() {
			OEnum::Byte(w.decode_byte()?)
		} else if w.is_text() {
			OEnum::Text(w.decode_text()?)
		} else if w.is_arr() {
			OEnum::Arr(w.decode_arr()?)
		} else {
			let v = w.rec_view()?;
			let mut b = v.as_bytes();
			OEnum::Rec {
				x: u32::deserialize_revisioned(&mut b)?,
				y: Option::deserialize_revisioned(&mut b)?,
			}
		})
	}
}

/// When a field's layout marker applies.
pub trait Marker {
	const LEGACY: bool;
	const OPTIMISED: bool;
}
macro_rules! marker { ($($t:ty, $l:expr, $o:expr;)*) => {$( impl Marker for $t { const LEGACY: bool = $l; const OPTIMISED: bool = $o; } )*} }
marker! { Plain, false, false; FixedInt, true, false; Spec, true, false; IMap, false, true; ISeq, false, true; ISet, false, true; }
/// Reference encoding of a field with marker `K` at a revision in the given encoding.
pub fn enc<K: FieldKind<T> + Marker, T: Fld>(optimised: bool, x: &T) -> Vec<u8> {
	let mut o = vec![];
	if if optimised { K::OPTIMISED } else { K::LEGACY } {
		K::enc(x, &mut o)
	} else {
		x.enc(&mut o)
	}
	o
}

// ---- conversion log -----------------------------------------------------------------------------

thread_local! { static CALLS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
pub fn call<T: Debug>(what: &str, rev: u16, v: &T) -> String {
	format!("{what}@{rev}={v:?}")
}
thread_local! {
	/// Calls of default and conversion functions so far, and the one that is to fail.
	static HOOKS: Cell<(u32, u32)> = const { Cell::new((0, u32::MAX)) };
}
const INJECTED: &str = "this function fails";
fn hook() -> Result<(), Error> {
	let (n, fail) = HOOKS.get();
	HOOKS.set((n + 1, fail));
	if n == fail {
		return Err(Error::Conversion(INJECTED.into()));
	}
	Ok(())
}
/// Runs `f` with the `fail`-th call of a default or conversion function failing; also counts the calls.
fn with_fault<T>(fail: u32, f: impl FnOnce() -> T) -> (T, u32) {
	HOOKS.set((0, fail));
	let t = f();
	let n = HOOKS.replace((0, u32::MAX)).0;
	take_calls();
	(t, n)
}
/// What every generated conversion function does: record the call and leave a trace in the value.
pub fn conv<T: Debug>(z: &mut Vec<String>, what: &str, rev: u16, v: &T) -> Result<(), Error> {
	hook()?;
	let c = call(what, rev, v);
	CALLS.with(|l| l.borrow_mut().push(c.clone()));
	z.push(c);
	Ok(())
}
pub fn take_calls() -> Vec<String> {
	CALLS.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// ---- structs ------------------------------------------------------------------------------------

pub struct FieldInfo {
	pub start: u16,
	/// fixed / specialised marker
	pub forced: bool,
	/// indexed_* marker
	pub indexed: bool,
	pub refused: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
	Decode,
	Skip,
	Walk,
	IntoWalk,
	IntoBytes,
}
#[derive(Debug)]
pub enum Ans {
	Done(bool),
	Bytes(Vec<u8>),
}

/// A generated struct type, as of revision `REV` of its history.
pub trait SHist: Sized + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + Debug + PartialEq + Send + 'static {
	const REV: u16;
	const NAME: &'static str;
	/// 'L', 'O' or 'I' per revision
	const LAYOUTS: &'static [u8];
	fn make(j: usize) -> Self;
	/// What data of revision `k` must decode to, and the conversions that must have run.
	fn upgraded(k: u16, j: usize) -> (Self, Vec<String>);
	/// Reference encodings of the fields stored at revision `k`.
	fn stored(k: u16, j: usize) -> Vec<Vec<u8>>;
	/// Encoding of the revision a byte string claims to be of.
	fn layout_of(mut b: &[u8]) -> Option<u8> {
		let k = u16::deserialize_revisioned(&mut b).ok()?;
		Self::LAYOUTS.get((k as usize).checked_sub(1)?).copied()
	}
}
/// Reference encoding of sample `j` as stored at revision `k`.
pub fn reference<T: SHist>(k: u16, j: usize) -> Vec<u8> {
	let l = match T::LAYOUTS[k as usize - 1] {
		b'L' => crate::derived::Layout::Legacy,
		b'O' => crate::derived::Layout::Opt,
		_ => crate::derived::Layout::Indexed,
	};
	let mut o = vec![];
	crate::derived::put_struct(&mut o, &l, k, T::stored(k, j));
	o
}
/// The reference encoding and, at the newest revision, whatever is really written, if that differs.
fn sources<T: SHist>(k: u16, j: usize) -> Vec<Vec<u8>> {
	let mut v = vec![reference::<T>(k, j)];
	if k == T::REV {
		v.extend(written(|| T::make(j)).filter(|b| *b != v[0]));
	}
	v
}
fn written<T: SerializeRevisioned>(f: impl FnOnce() -> T) -> Option<Vec<u8>> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| to_vec(&f()).ok())).ok().flatten()
}
fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
	if ok {
		Ok(())
	} else {
		Err(what())
	}
}
const TAIL: &[u8] = &[0xA5, 0, 0xFF, 7, 1];

fn upgrade<T: DeserializeRevisioned + Debug + PartialEq>(bytes: &[u8], want: &T, calls: &[String]) -> Result<(), String> {
	for tail in [&[][..], TAIL] {
		let all = [bytes, tail].concat();
		let mut r = all.as_slice();
		take_calls();
		let got = T::deserialize_revisioned(&mut r).map_err(|e| format!("decode failed: {e}"))?;
		let made = take_calls();
		ck(got == *want, || format!("decodes to {got:?}, not {want:?}"))?;
		ck(made == calls, || format!("conversion calls {made:?}, not {calls:?}"))?;
		ck(r == tail, || format!("decoding leaves {} bytes, not {}", r.len(), tail.len()))?;
	}
	Ok(())
}

/// P08 / P09: what older data decodes to.
fn upgrade_all<T: SerializeRevisioned + DeserializeRevisioned + Debug + PartialEq + 'static>(rev: u16, name: &str, samples: usize, r: &mut Rep, bytes: &dyn Fn(u16, usize) -> Option<Vec<u8>>, upgraded: &dyn Fn(u16, usize) -> (T, Vec<String>), make: &dyn Fn(usize) -> Option<T>) {
	for k in 1..=rev {
		for j in 0..samples {
			let Some(b) = bytes(k, j) else {
				continue;
			};
			r.count(hash(&(name, k, j)));
			let f = || -> Result<(), String> {
				let (want, calls) = upgraded(k, j);
				if k == rev {
					let v = make(j).ok_or("no value")?;
					let got = to_vec(&v).map_err(|e| format!("serialize failed: {e}"))?;
					ck(got == b, || format!("written as {} not {}", hex(&got), hex(&b)))?;
				}
				upgrade(&b, &want, &calls)?;
				let s: T = from_slice(&b).map_err(|e| format!("from_slice failed: {e}"))?;
				ck(s == want, || "from_slice gives another value".into())?;
				let s: T = from_reader(&mut std::io::Cursor::new(&b)).map_err(|e| format!("from_reader failed: {e}"))?;
				ck(s == want, || "from_reader gives another value".into())?;
				// every default and conversion function may fail: the data is refused then
				let (_, hooks) = with_fault(u32::MAX, || from_slice::<T>(&b).is_ok());
				for i in 0..hooks {
					for (how, e) in [("decoding", with_fault(i, || from_slice::<T>(&b).err()).0), ("decoding in a tuple", with_fault(i, || from_slice::<(T, ())>(&b).err()).0)] {
						match e {
							Some(e) => ck(e.to_string().contains(INJECTED), || format!("{how}, call {i} of {hooks} failing: {e}"))?,
							None => Err(format!("{how}, call {i} of {hooks} failing: accepted"))?,
						}
					}
				}
				// next to data of every other revision, in one stream
				for k2 in (1..=rev).filter(|k2| rev < 10 || [1, k, rev].contains(k2)) {
					let j2 = (j + k2 as usize) % samples;
					let Some(b2) = bytes(k2, j2) else {
						continue;
					};
					let mut v = vec![];
					put_len(&mut v, 2);
					v.extend_from_slice(&b);
					v.extend_from_slice(&b2);
					let (w2, _) = upgraded(k2, j2);
					take_calls();
					let got: Vec<T> = from_slice(&v).map_err(|e| format!("decoding beside data of revision {k2} failed: {e}"))?;
					ck(got.len() == 2 && got[0] == want && got[1] == w2, || format!("beside data of revision {k2}: {got:?}"))?;
				}
				Ok(())
			};
			if let Err(e) | Ok(Err(e)) = r.on(&b, f) {
				r.fail("upgrade", format!("{name}: data of revision {k}, sample {j} ({}): {e}", hex(&b)));
			}
		}
	}
	r.sample(|| name.to_string());
}
pub fn s_upgrade<T: SHist>(r: &mut Rep) {
	upgrade_all::<T>(T::REV, T::NAME, SAMPLES, r, &|k, j| Some(reference::<T>(k, j)), &T::upgraded, &|j| Some(T::make(j)))
}

/// P04 on histories: skipping takes exactly what decoding takes, at every stored revision.
fn skip_all<T: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + Debug>(rev: u16, name: &str, samples: usize, r: &mut Rep, bytes: &dyn Fn(u16, usize) -> Vec<Vec<u8>>) {
	for k in 1..=rev {
		for (j, b) in (0..samples).flat_map(|j| bytes(k, j).into_iter().map(move |b| (j, b))) {
			r.count(hash(&(name, k, j)));
			let f = || -> Result<(), String> {
				for tail in [&[][..], TAIL] {
					let all = [&b[..], tail].concat();
					let mut x = all.as_slice();
					T::deserialize_revisioned(&mut x).map_err(|e| format!("decode failed: {e}"))?;
					let used = all.len() - x.len();
					let n = skip_slice::<T>(&all).map_err(|e| format!("skip_slice failed: {e}"))?;
					ck(n == used, || format!("skip_slice takes {n} of {used}"))?;
					let mut x = std::io::Cursor::new(&all);
					skip_reader::<T, _>(&mut x).map_err(|e| format!("skip_reader failed: {e}"))?;
					ck(x.position() as usize == used, || format!("skip_reader takes {} of {used}", x.position()))?;
					let n = skip_check_slice::<T>(&all).map_err(|e| format!("skip_check_slice failed: {e}"))?;
					ck(n == used, || format!("skip_check_slice takes {n} of {used}"))?;
					let mut x = std::io::Cursor::new(&all);
					skip_check_reader::<T, _>(&mut x).map_err(|e| format!("skip_check_reader failed: {e}"))?;
					ck(x.position() as usize == used, || format!("skip_check_reader takes {} of {used}", x.position()))?;
					let mut s = SliceReader::new(&all);
					T::skip_revisioned_slice(&mut s).map_err(|e| format!("skip_revisioned_slice failed: {e}"))?;
					ck(s.consumed_len() == used, || format!("skip_revisioned_slice takes {} of {used}", s.consumed_len()))?;
				}
				// truncated data: an error whenever decoding needs the missing bytes
				for cut in (0..b.len()).filter(|c| b.len() < 2000 || *c < 40 || *c + 40 > b.len() || c % 1009 == 0) {
					let short = &b[..cut];
					ck(T::deserialize_revisioned(&mut &short[..]).is_err() && skip_slice::<T>(short).is_err() && skip_reader::<T, _>(&mut std::io::Cursor::new(short)).is_err() && skip_check_slice::<T>(short).is_err(), || format!("cut after {cut} bytes: accepted"))?;
				}
				Ok(())
			};
			if let Err(e) | Ok(Err(e)) = r.on(&b, f) {
				r.fail("skip", format!("{name}: data of revision {k}, sample {j} ({}): {e}", hex(&b)));
			}
			// damaged data: checked skipping accepts what decoding accepts
			// (not in fixed-width builds, where any edit of a length allocates by it)
			if cfg!(feature = "fixed") || b.len() > if thorough() { 300 } else { 60 } || j > if thorough() { 8 } else { 0 } {
				continue;
			}
			edits(&b, &mut |b| {
				r.count(hash(&(name, k, b)));
				let f = || -> Result<(), String> {
					let mut x = b;
					let used = T::deserialize_revisioned(&mut x).ok().map(|_| b.len() - x.len());
					let n = skip_check_slice::<T>(b).ok();
					ck(n == used, || format!("decoding takes {used:?}, skip_check_slice {n:?}"))?;
					let mut x = std::io::Cursor::new(b);
					let n = skip_check_reader::<T, _>(&mut x).ok().map(|_| x.position() as usize);
					ck(n == used, || format!("decoding takes {used:?}, skip_check_reader {n:?}"))
				};
				if let Err(e) | Ok(Err(e)) = r.on(b, f) {
					r.fail("checked skip", format!("{name}: {} (from data of revision {k}): {e}", hex(b)));
				}
			});
			take_calls();
		}
	}
	take_calls();
	r.sample(|| name.to_string());
}
pub fn s_skip<T: SHist>(r: &mut Rep) {
	skip_all::<T>(T::REV, T::NAME, SAMPLES, r, &sources::<T>)
}

/// A generated struct type with a walker.
pub trait SWalk: SHist + WalkRevisioned {
	/// some field has a conversion function
	const CONV: bool;
	fn fields() -> Vec<FieldInfo>;
	fn names(k: u16) -> Vec<&'static str>;
	fn table(k: u16) -> &'static [&'static str];
	fn rev<'r>(w: &Self::Walker<'r, &'r [u8]>) -> u16;
	fn op<'r>(w: &mut Self::Walker<'r, &'r [u8]>, i: usize, op: Op, want: &Self) -> Result<Ans, Error>;
	fn fin<'r>(w: Self::Walker<'r, &'r [u8]>, i: usize, op: Op, want: &Self) -> Result<Ans, Error>;
	/// Encoding of field `i` of the upgraded value in the current layout.
	fn current(i: usize, want: &Self) -> Vec<u8>;
}
fn use_of<'r, T: SWalk>(w: &mut T::Walker<'r, &'r [u8]>, i: usize, op: Op, want: &T, must: bool) -> Result<(), String> {
	match T::op(w, i, op, want) {
		Ok(Ans::Done(true)) => Ok(()),
		Ok(_) => Err(format!("{op:?} of field {i} gives another value")),
		Err(e) if op == Op::Walk && !must => {
			let _ = e;
			// refused: the field is still there
			match T::op(w, i, Op::Decode, want) {
				Ok(Ans::Done(true)) => Ok(()),
				Ok(_) => Err(format!("decode of field {i} after a refused walk gives another value")),
				Err(e) => Err(format!("decode of field {i} after a refused walk failed: {e}")),
			}
		}
		Err(e) => Err(format!("{op:?} of field {i} failed: {e}")),
	}
}
/// P12: every sequence of field operations.
pub fn s_walk<T: SWalk>(r: &mut Rep)
where
	for<'r> T::Walker<'r, &'r [u8]>: Sized,
{
	walk_all::<T>(r, false)
}
/// The same with one sample and uniform operation sequences only.
pub fn s_walk_few<T: SWalk>(r: &mut Rep)
where
	for<'r> T::Walker<'r, &'r [u8]>: Sized,
{
	walk_all::<T>(r, true)
}
fn walk_all<T: SWalk>(r: &mut Rep, few: bool)
where
	for<'r> T::Walker<'r, &'r [u8]>: Sized,
{
	let info = T::fields();
	let nf = info.len();
	for k in 0..T::REV + 2 {
		let want: Vec<&str> = if k == 0 || k > T::REV { vec![] } else { T::names(k) };
		if T::table(k) != want {
			r.fail("field names", format!("{}: at revision {k} {:?}, not {want:?}", T::NAME, T::table(k)));
		}
	}
	for k in 1..=T::REV {
		let legacy = T::LAYOUTS[k as usize - 1] == b'L';
		let converted = T::CONV && k != T::REV;
		let borrowed = !converted && T::LAYOUTS[k as usize - 1] == b'I';
		let must: Vec<bool> = info.iter().map(|f| f.indexed || (!converted && !borrowed && f.start <= k && !(f.forced && legacy) && !f.refused)).collect();
		for (j, bytes) in (0..if few { 1 } else { 3 }).flat_map(|j| sources::<T>(k, j).into_iter().map(move |b| (j, b))) {
			let (want, _) = T::upgraded(k, j);
			let bytes = [&bytes[..], TAIL].concat();
			let stored = T::stored(k, j);
			let fail = |r: &mut Rep, path: &str, e: String| r.fail("walk", format!("{}: data of revision {k}, sample {j} ({}): {path}: {e}", T::NAME, hex(&bytes)));
			// all sequences of decode / skip / walk over all fields, each prefix also ended by one of the
			// consuming accessors
			let mut path = vec![0u8; nf];
			let mut done = false;
			while !done {
				r.states += nf as u64 + 1;
				r.transitions += nf as u64;
				r.traces += 1;
				let f = || -> Result<(), String> {
					let mut rd = bytes.as_slice();
					{
						let mut rd2: &[u8] = rd;
						let left;
						{
							let rr: &mut &[u8] = unsafe { &mut *(&mut rd2 as *mut &[u8]) };
							let mut w = T::walk_revisioned(rr).map_err(|e| format!("walk_revisioned failed: {e}"))?;
							let rev = T::rev(&w);
							ck(rev == if converted { T::REV } else { k }, || format!("revision() is {rev}"))?;
							for i in 0..nf {
								use_of::<T>(&mut w, i, [Op::Decode, Op::Skip, Op::Walk][path[i] as usize], &want, must[i])?;
							}
							drop(w);
							left = rd2.len();
						}
						rd = &rd[rd.len() - left..];
					}
					ck(rd == TAIL, || format!("the walk leaves {} bytes, not {}", rd.len(), TAIL.len()))
				};
				if let Err(e) | Ok(Err(e)) = r.on(&bytes, f) {
					fail(r, &format!("{path:?} (0 decode, 1 skip, 2 walk)"), e);
				}
				done = true;
				if few {
					path = vec![path.first().copied().unwrap_or(2) + 1; nf];
					done = path.first().is_none_or(|p| *p > 2);
					continue;
				}
				for p in path.iter_mut() {
					*p += 1;
					if *p < 3 {
						done = false;
						break;
					}
					*p = 0;
				}
			}
			// default and conversion functions that fail: opening the walker or decoding the field does
			let drain = || -> Result<bool, Error> {
				let mut rd: &[u8] = &bytes;
				let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
				let mut w = T::walk_revisioned(rr)?;
				let mut same = true;
				for i in 0..nf {
					same &= matches!(T::op(&mut w, i, Op::Decode, &want)?, Ans::Done(true));
				}
				Ok(same)
			};
			let (_, hooks) = with_fault(u32::MAX, drain);
			for i in 0..hooks {
				r.traces += 1;
				r.transitions += nf as u64;
				if let Err(e) | Ok(Err(e)) = r.on(&bytes, || ck(with_fault(i, drain).0.is_err_and(|e| e.to_string().contains(INJECTED)), || "accepted".into())) {
					fail(r, &format!("all decoded, with call {i} of {hooks} to a default or conversion function failing"), e);
				}
			}
			// consuming accessors after every decode/skip prefix
			for i in 0..nf {
				for mask in (0..1u32 << i.min(4)).filter(|m| nf < 30 || *m as usize == i % 16) {
					for op in [Op::IntoWalk, Op::IntoBytes] {
						r.states += i as u64 + 1;
						r.transitions += i as u64 + 1;
						r.traces += 1;
						let f = || -> Result<(), String> {
							let mut rd: &[u8] = &bytes;
							let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
							let mut w = T::walk_revisioned(rr).map_err(|e| format!("walk_revisioned failed: {e}"))?;
							for p in 0..i {
								use_of::<T>(&mut w, p, if mask >> p.min(4) & 1 == 1 { Op::Skip } else { Op::Decode }, &want, must[p])?;
							}
							match (op, T::fin(w, i, op, &want)) {
								(Op::IntoWalk, Ok(Ans::Done(true))) => Ok(()),
								(Op::IntoWalk, Ok(_)) => Err(format!("into_walk of field {i} gives another value")),
								(Op::IntoWalk, Err(e)) => ck(!must[i], || format!("into_walk of field {i} failed: {e}")),
								(_, Ok(Ans::Bytes(b))) => {
									let at = T::fields()[..=i].iter().filter(|f| f.start <= k).count();
									if info[i].start > k && !converted {
										return Err(format!("bytes of field {i}, which is not stored: {}", hex(&b)));
									}
									let want = if converted { T::current(i, &want) } else { stored[at - 1].clone() };
									ck(b == want, || format!("bytes of field {i} are {}, not {}", hex(&b), hex(&want)))
								}
								(_, Ok(_)) => Err("no bytes".into()),
								(_, Err(e)) => ck(info[i].start > k && !converted, || format!("bytes of field {i} failed: {e}")),
							}
						};
						if let Err(e) | Ok(Err(e)) = r.on(&bytes, f) {
							fail(r, &format!("{op:?} after mask {mask:b}"), e);
						}
					}
				}
			}
			// offset tables allow any order
			if borrowed {
				for a in 0..nf {
					for b in (0..nf).filter(|b| nf < 30 || (a + b) % 16 == 0) {
						r.traces += 1;
						r.transitions += 2;
						let f = || -> Result<(), String> {
							let mut rd: &[u8] = &bytes;
							let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
							let mut w = T::walk_revisioned(rr).map_err(|e| format!("walk_revisioned failed: {e}"))?;
							use_of::<T>(&mut w, a, Op::Decode, &want, true)?;
							use_of::<T>(&mut w, b, Op::Decode, &want, true)?;
							use_of::<T>(&mut w, a, Op::Walk, &want, must[a])
						};
						if let Err(e) | Ok(Err(e)) = r.on(&bytes, f) {
							fail(r, &format!("fields {a}, {b}, {a}"), e);
						}
					}
				}
			}
		}
	}
	take_calls();
	r.sample(|| T::NAME.to_string());
}

/// Helpers of the generated `op` / `fin` arms.
pub fn yes<T: PartialEq>(r: Result<T, Error>, want: &T) -> Result<Ans, Error> {
	r.map(|v| Ans::Done(v == *want))
}
pub fn unit(r: Result<(), Error>) -> Result<Ans, Error> {
	r.map(|_| Ans::Done(true))
}
pub fn walked<'r, T: Drain, R: BorrowedReader + 'r>(r: Result<T::Walker<'r, R>, Error>, want: &T) -> Result<Ans, Error> {
	Ok(Ans::Done(T::drain(r?).ok().as_ref() == Some(want)))
}
pub fn viewed<K: FieldKind<T> + Marker, T: Fld>(bytes: Result<Vec<u8>, Error>, want: &T) -> Result<Ans, Error> {
	bytes.map(|b| Ans::Done(b == enc::<K, T>(true, want)))
}
pub fn raw(r: Result<std::borrow::Cow<'_, [u8]>, Error>) -> Result<Ans, Error> {
	r.map(|b| Ans::Bytes(b.into_owned()))
}

// ---- enums --------------------------------------------------------------------------------------

/// A generated enum type, as of revision `REV` of its history.
pub trait EHist: Sized + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + Debug + PartialEq + Send + 'static {
	const REV: u16;
	const NAME: &'static str;
	const LAYOUTS: &'static [u8];
	/// declared variants, alive or not
	const VARIANTS: usize;
	fn make(v: usize, j: usize) -> Option<Self>;
	fn upgraded(k: u16, v: usize, j: usize) -> (Self, Vec<String>);
	/// Number, size class (0 inline, 1 fixed, 2 varlen) and field encodings of variant `v` at revision
	/// `k`; nothing if it does not exist there.
	fn stored(k: u16, v: usize, j: usize) -> Option<(u32, u8, Vec<Vec<u8>>)>;
}
pub fn e_reference<T: EHist>(k: u16, v: usize, j: usize) -> Option<Vec<u8>> {
	let (d, c, f) = T::stored(k, v, j)?;
	let mut o = vec![];
	if T::LAYOUTS[k as usize - 1] == b'L' {
		put_rev(&mut o, k);
		put_tag32(&mut o, d);
		o.extend(f.concat());
	} else {
		put_opt_enum(&mut o, k, d as u8, [Size::Inline, Size::Fixed, Size::Varlen][c as usize].clone(), &f.concat());
	}
	Some(o)
}
/// As `sources`.
fn e_sources<T: EHist>(k: u16, v: usize, j: usize) -> Vec<Vec<u8>> {
	let mut all: Vec<Vec<u8>> = e_reference::<T>(k, v, j).into_iter().collect();
	if let (true, Some(x)) = (k == T::REV && !all.is_empty(), T::make(v, j)) {
		all.extend(written(|| x).filter(|b| *b != all[0]));
	}
	all
}
/// Samples per variant.
pub const ESAMPLES: usize = 4;
pub fn e_upgrade<T: EHist>(r: &mut Rep) {
	upgrade_all::<T>(
		T::REV,
		T::NAME,
		T::VARIANTS * ESAMPLES,
		r,
		&|k, j| e_reference::<T>(k, j / ESAMPLES, j % ESAMPLES),
		&|k, j| T::upgraded(k, j / ESAMPLES, j % ESAMPLES),
		&|j| T::make(j / ESAMPLES, j % ESAMPLES),
	)
}
pub fn e_skip<T: EHist>(r: &mut Rep) {
	skip_all::<T>(T::REV, T::NAME, T::VARIANTS * ESAMPLES, r, &|k, j| e_sources::<T>(k, j / ESAMPLES, j % ESAMPLES))
}

pub struct VariantInfo {
	pub unit: bool,
	/// tuple variant with one field at the newest revision
	pub single: bool,
	/// first revision of that field
	pub start: u16,
	pub forced: bool,
	pub refused: bool,
	/// number at the newest revision
	pub disc: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
	Decode,
	Into,
	View,
}
pub trait EWalk: EHist + WalkRevisioned {
	const CONV: bool;
	/// Variants alive at the newest revision.
	fn info() -> Vec<VariantInfo>;
	fn names(k: u16) -> Vec<(&'static str, u32)>;
	fn table(k: u16) -> &'static [(&'static str, u32)];
	fn name(k: u16, d: u32) -> Option<&'static str>;
	fn rev<'r>(w: &Self::Walker<'r, &'r [u8]>) -> u16;
	fn disc<'r>(w: &Self::Walker<'r, &'r [u8]>) -> u32;
	fn is<'r>(w: &Self::Walker<'r, &'r [u8]>, u: usize) -> bool;
	fn acc<'r>(w: Self::Walker<'r, &'r [u8]>, u: usize, a: Acc, want: &Self) -> Option<Result<Ans, Error>>;
	/// Which of the newest variants this is.
	fn index(&self) -> usize;
	/// Field encodings at the newest revision.
	fn current(&self) -> Vec<Vec<u8>>;
}
/// P13: every accessor of every variant on data of every variant and revision.
pub fn e_walk<T: EWalk>(r: &mut Rep)
where
	for<'r> T::Walker<'r, &'r [u8]>: Sized,
{
	let info = T::info();
	for k in 0..T::REV + 2 {
		let want = T::names(k);
		let mut got = T::table(k).to_vec();
		let mut w = want.clone();
		got.sort();
		w.sort();
		if got != w {
			r.fail("variant table", format!("{}: at revision {k} {got:?}, not {want:?}", T::NAME));
		}
		let mut probes: Vec<u32> = (0..40).chain([249, 250, 251, 299, 300, 69999, 70000, u32::MAX]).collect();
		probes.extend(want.iter().map(|x| x.1));
		for d in probes {
			let n = want.iter().find(|x| x.1 == d).map(|x| x.0);
			if T::name(k, d) != n {
				r.fail("variant name", format!("{}: variant {d} at revision {k} is {:?}, not {n:?}", T::NAME, T::name(k, d)));
			}
		}
	}
	for k in 1..=T::REV {
		let legacy = T::LAYOUTS[k as usize - 1] == b'L';
		let converted = T::CONV && k != T::REV;
		for v in 0..T::VARIANTS {
			for j in 0..ESAMPLES {
				let Some((disc, _, fields)) = T::stored(k, v, j) else {
					continue;
				};
				for bytes in e_sources::<T>(k, v, j) {
				let bytes = [&bytes[..], TAIL].concat();
				let (want, _) = T::upgraded(k, v, j);
				let is = want.index();
				let fail = |r: &mut Rep, e: String| r.fail("walk", format!("{}: data of revision {k}, variant {v}, sample {j} ({}), {want:?}: {e}", T::NAME, hex(&bytes)));
				r.states += 1;
				let f = || -> Result<(), String> {
					let mut rd: &[u8] = &bytes;
					let w = T::walk_revisioned(&mut rd).map_err(|e| format!("walk_revisioned failed: {e}"))?;
					let (rev, d) = (T::rev(&w), T::disc(&w));
					ck(rev == if converted { T::REV } else { k }, || format!("revision() is {rev}"))?;
					let wd = if converted { info[is].disc } else { disc };
					ck(d == wd, || format!("discriminant() is {d}, not {wd}"))?;
					for u in 0..info.len() {
						ck(T::is(&w, u) == (u == is), || format!("variant test {u} answers {}", u != is))?;
					}
					Ok(())
				};
				if let Err(e) | Ok(Err(e)) = r.on(&bytes, f) {
					fail(r, e);
				}
				// default and conversion functions that fail: opening the walker or decoding the variant does
				if !info[is].unit && info[is].single {
					let drain = || -> Result<bool, Error> {
						let mut rd: &[u8] = &bytes;
						let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
						let w = T::walk_revisioned(rr)?;
						Ok(matches!(T::acc(w, is, Acc::Decode, &want), Some(Ok(Ans::Done(true)))))
					};
					let (_, hooks) = with_fault(u32::MAX, drain);
					for i in 0..hooks {
						r.traces += 1;
						if let Err(e) | Ok(Err(e)) = r.on(&bytes, || ck(!matches!(with_fault(i, drain).0, Ok(true)), || "accepted".into())) {
							fail(r, format!("decoded with call {i} of {hooks} to a default or conversion function failing: {e}"));
						}
					}
				}
				for u in 0..info.len() {
					for a in [Acc::Decode, Acc::Into, Acc::View] {
						r.transitions += 1;
						r.traces += 1;
						let i = &info[u];
						let f = || -> Result<(), String> {
							let mut rd: &[u8] = &bytes;
							let left;
							let ans;
							{
								let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
								let w = T::walk_revisioned(rr).map_err(|e| format!("walk_revisioned failed: {e}"))?;
								ans = T::acc(w, u, a, &want);
								left = rd.len();
							}
							let Some(ans) = ans else {
								return Ok(());
							};
							let what = format!("{a:?} of variant {u}");
							if u != is {
								return ck(ans.is_err(), || format!("{what} succeeds"));
							}
							match ans {
								Ok(Ans::Done(true)) => {
									let stored = converted || i.unit || i.start <= k;
									ck(left == TAIL.len() || !stored, || format!("{what} leaves {left} bytes, not {}", TAIL.len()))
								}
								Ok(Ans::Done(false)) => Err(format!("{what} gives another value")),
								Ok(Ans::Bytes(b)) => {
									if i.forced && (legacy || converted) {
										return Ok(());
									}
									let w = if converted || (legacy && i.start > k) { want.current().concat() } else { fields.concat() };
									ck(b == w, || format!("{what} gives {}, not {}", hex(&b), hex(&w)))
								}
								Err(e) => {
									// by design: no payload walkers over borrowed or converted data, no byte views
									// of legacy variants with several fields
									let may = match a {
										Acc::Decode => false,
										Acc::Into => !i.unit && (converted || !legacy || i.forced || i.refused || i.start > k),
										Acc::View => legacy && !converted && !i.single,
									};
									ck(may, || format!("{what} failed: {e}"))
								}
							}
						};
						if let Err(e) | Ok(Err(e)) = r.on(&bytes, f) {
							fail(r, e);
						}
					}
				}
				}
			}
		}
	}
	take_calls();
	r.sample(|| T::NAME.to_string());
}

// ---- rejection (P10) ----------------------------------------------------------------------------

pub trait HasT<T> {
	fn t(&self) -> &T;
}
/// Any wrapping of a generated type: how to build its bytes around those of the type, and whether
/// skipping looks inside.
fn reject_in<C: DeserializeRevisioned + SkipRevisioned + 'static>(r: &mut Rep, name: &str, rev: u16, inside: bool, sample: &dyn Fn(u16) -> Vec<u8>, wrap: &dyn Fn(&[u8]) -> Vec<u8>) {
	// Every stored revision number on its own (see reject_all); inside containers the quick run keeps
	// all small ones, all powers of two +-1 and a regular grid.
	for h in 0..=u16::MAX {
		if !thorough() && !(h < 600 || h > u16::MAX - 300 || h % 37 == 0 || (h + 1).is_power_of_two() || h.is_power_of_two() || (h - 1).is_power_of_two()) {
			continue;
		}
		let k = if h == 0 || h > rev { 1 + h % rev } else { h };
		let whole = sample(k);
		let mut head = vec![];
		put_rev(&mut head, k);
		let mut b = vec![];
		put_rev(&mut b, h);
		b.extend_from_slice(&whole[head.len()..]);
		let b = wrap(&b);
		let known = (1..=rev).contains(&h);
		r.bulk(1);
		let f = || -> Result<(), String> {
			let d = C::deserialize_revisioned(&mut b.as_slice()).is_ok();
			ck(d == known, || format!("decode accepts: {d}"))?;
			if !inside && !known {
				return Ok(());
			}
			let s = skip_slice::<C>(&b).is_ok();
			ck(s == known, || format!("skip_slice accepts: {s}"))?;
			let s = skip_reader::<C, _>(&mut std::io::Cursor::new(&b)).is_ok();
			ck(s == known, || format!("skip_reader accepts: {s}"))?;
			Ok(())
		};
		if let Err(e) | Ok(Err(e)) = r.on(&b, f) {
			r.fail("stored revision", format!("{name}, newest revision {rev}, stored revision {h} ({}): {e}", hex(&b)));
		}
	}
	take_calls();
}
fn reject_all<T, OL, OO, OI>(r: &mut Rep, name: &str, rev: u16, sample: &dyn Fn(u16) -> Vec<u8>, values: Vec<T>)
where
	T: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + WalkRevisioned + Debug + PartialEq + 'static,
	OL: DeserializeRevisioned + SkipRevisioned + 'static,
	OO: DeserializeRevisioned + SkipRevisioned + 'static,
	OI: DeserializeRevisioned + SkipRevisioned + 'static,
{
	// writes
	for v in &values {
		let b = to_vec(v).unwrap_or_default();
		let mut w = vec![];
		put_rev(&mut w, rev);
		if !b.starts_with(&w) || T::revision() != rev {
			r.fail("written revision", format!("{name}: {v:?} written as {}, revision() {}, newest {rev}", hex(&b), T::revision()));
		}
		let mut o = vec![];
		if to_writer(&mut o, v).is_err() || o != b {
			r.fail("written revision", format!("{name}: to_writer and to_vec differ"));
		}
	}
	// the bare type, through every entry point
	for h in 0..=u16::MAX {
		let known = (1..=rev).contains(&h);
		let k = if known { h } else { 1 + h % rev };
		let whole = sample(k);
		let mut head = vec![];
		put_rev(&mut head, k);
		let mut forms = vec![];
		put_rev(&mut forms, h);
		let mut forms = vec![forms];
		if !FIXED {
			// the same revision, spelled longer than necessary
			forms.push([&[251][..], &h.to_le_bytes()].concat());
		}
		for f in forms {
			let b = [&f[..], &whole[head.len()..]].concat();
			r.count(hash(&(name, h, f.len())));
			let f = || -> Result<(), String> {
				let ok = [
					("from_slice", from_slice::<T>(&b).is_ok()),
					("from_reader", from_reader::<_, T>(&mut std::io::Cursor::new(&b)).is_ok()),
					("skip_slice", skip_slice::<T>(&b).is_ok()),
					("skip_reader", skip_reader::<T, _>(&mut std::io::Cursor::new(&b)).is_ok()),
					("skip_revisioned_slice", T::skip_revisioned_slice(&mut SliceReader::new(&b)).is_ok()),
					("skip_check_slice", skip_check_slice::<T>(&b).is_ok()),
					("skip_check_reader", skip_check_reader::<T, _>(&mut std::io::Cursor::new(&b)).is_ok()),
					("walk", T::walk_revisioned(&mut b.as_slice()).is_ok()),
					("walk over a slice reader", T::walk_revisioned(&mut SliceReader::new(&b)).is_ok()),
				];
				for (w, o) in ok {
					ck(o == known, || format!("{w} accepts: {o}"))?;
				}
				Ok(())
			};
			if let Err(e) | Ok(Err(e)) = r.on(&b, f) {
				r.fail("stored revision", format!("{name}, newest revision {rev}, stored revision {h} ({}): {e}", hex(&b)));
			}
		}
	}
	let seq = |n: usize, at: usize| {
		let good = sample(rev);
		move |b: &[u8]| {
			let mut o = vec![];
			put_len(&mut o, n);
			for i in 0..n {
				o.extend_from_slice(if i == at { b } else { &good });
			}
			o
		}
	};
	reject_in::<Vec<T>>(r, &format!("{name} in a Vec"), rev, true, sample, &seq(3, 2));
	reject_in::<Vec<T>>(r, &format!("{name} first in a Vec"), rev, true, sample, &seq(2, 0));
	reject_in::<Option<T>>(r, &format!("{name} in an Option"), rev, true, sample, &|b| [&[1][..], b].concat());
	reject_in::<Box<T>>(r, &format!("{name} in a Box"), rev, true, sample, &|b| b.to_vec());
	reject_in::<(u8, T)>(r, &format!("{name} in a tuple"), rev, true, sample, &|b| [&[9][..], b].concat());
	reject_in::<BTreeMap<u8, T>>(r, &format!("{name} in a map"), rev, true, sample, &|b| {
		let mut o = vec![];
		put_len(&mut o, 1);
		o.push(7);
		o.extend_from_slice(b);
		o
	});
	reject_in::<Result<u8, T>>(r, &format!("{name} in a Result"), rev, true, sample, &|b| {
		let mut o = vec![];
		put_tag32(&mut o, 1);
		o.extend_from_slice(b);
		o
	});
	let parts = |b: &[u8]| {
		let mut t = vec![];
		put_uint(&mut t, 300, 2);
		vec![vec![5u8], b.to_vec(), t]
	};
	let field = |l: crate::derived::Layout| {
		move |b: &[u8]| {
			let mut o = vec![];
			crate::derived::put_struct(&mut o, &l, 1, parts(b));
			o
		}
	};
	reject_in::<OL>(r, &format!("{name} in a struct"), rev, true, sample, &field(crate::derived::Layout::Legacy));
	// skipping jumps over length-delimited payloads
	reject_in::<OO>(r, &format!("{name} in an optimised struct"), rev, false, sample, &field(crate::derived::Layout::Opt));
	reject_in::<OI>(r, &format!("{name} in an indexed struct"), rev, false, sample, &field(crate::derived::Layout::Indexed));
	take_calls();
	r.sample(|| name.to_string());
}
pub fn s_reject<T: SHist + WalkRevisioned, OL, OO, OI>(r: &mut Rep)
where
	OL: DeserializeRevisioned + SkipRevisioned + 'static,
	OO: DeserializeRevisioned + SkipRevisioned + 'static,
	OI: DeserializeRevisioned + SkipRevisioned + 'static,
{
	reject_all::<T, OL, OO, OI>(r, T::NAME, T::REV, &|k| reference::<T>(k, 1), (0..SAMPLES).map(T::make).collect())
}
pub fn e_reject<T: EHist + WalkRevisioned, OL, OO, OI>(r: &mut Rep)
where
	OL: DeserializeRevisioned + SkipRevisioned + 'static,
	OO: DeserializeRevisioned + SkipRevisioned + 'static,
	OI: DeserializeRevisioned + SkipRevisioned + 'static,
{
	let sample = |k| (0..T::VARIANTS).find_map(|v| e_reference::<T>(k, v, 1)).unwrap();
	let values = (0..T::VARIANTS).flat_map(|v| (0..ESAMPLES).filter_map(move |j| T::make(v, j))).collect();
	reject_all::<T, OL, OO, OI>(r, T::NAME, T::REV, &sample, values);
	// variant numbers and tags
	let filler = [0u8; 64];
	for k in 1..=T::REV {
		let legacy = T::LAYOUTS[k as usize - 1] == b'L';
		let known: Vec<(u32, u8, usize)> = (0..T::VARIANTS).filter_map(|v| T::stored(k, v, 1).map(|(d, c, _)| (d, c, v))).collect();
		let all: Vec<u32> = if legacy { (0..1200).chain((10..32).flat_map(|p| [(1u32 << p) - 1, 1 << p, (1 << p) + 1])).chain(known.iter().map(|x| x.0)).chain([69999, 70000, 70001, u32::MAX]).collect() } else { (0..256).collect() };
		for d in all {
			let hit = known.iter().find(|(x, c, _)| if legacy { *x == d } else { (*x as u8 | c << 5) as u32 == d });
			let b = match hit {
				Some((_, _, v)) => e_reference::<T>(k, *v, 1).unwrap(),
				None => {
					let mut o = vec![];
					put_rev(&mut o, k);
					if legacy {
						put_tag32(&mut o, d);
					} else {
						o.push(d as u8);
					}
					o.extend_from_slice(&filler);
					o
				}
			};
			r.count(hash(&(T::NAME, k, d, "variant")));
			let f = || -> Result<(), String> {
				for (w, o) in [("decode", from_slice::<T>(&b).is_ok()), ("stream decode", from_reader::<_, T>(&mut std::io::Cursor::new(&b)).is_ok()), ("checked skip", skip_check_slice::<T>(&b).is_ok())] {
					ck(o == hit.is_some(), || format!("{w} accepts: {o}"))?;
				}
				let mut v = vec![];
				put_len(&mut v, 1);
				v.extend_from_slice(&b);
				ck(from_slice::<Vec<T>>(&v).is_ok() == hit.is_some(), || "decode in a Vec".into())
			};
			if let Err(e) | Ok(Err(e)) = r.on(&b, f) {
				r.fail("variant number", format!("{}: revision {k}, variant number or tag {d} ({}): {e}", T::NAME, hex(&b)));
			}
		}
	}
	take_calls();
}

// ---- damaged data of any revision (P06) ---------------------------------------------------------

/// `b` with every byte replaced, removed or preceded by something, and every prefix. Strings with the
/// bytes that start long legacy lengths are left out (those allocate by length, by documentation).
fn edits(b: &[u8], f: &mut dyn FnMut(&[u8])) {
	let mut go = |v: &[u8]| {
		if !v.iter().any(|x| (252..=254).contains(x)) {
			f(v)
		}
	};
	let at = |i: usize| b.len() <= 200 || i < 60 || i + 40 > b.len() || i % 97 == 0;
	for i in (0..b.len()).filter(|i| at(*i)) {
		go(&b[..i]);
		let old = b[i];
		let mut v = b.to_vec();
		let mut vals = vec![0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 64, 65, 96, 127, 128, 129, 250, 251, 255, old.wrapping_add(1), old.wrapping_sub(1)];
		if thorough() {
			vals = (0..=255).collect()
		} else {
			vals.extend((0..8).map(|n| old ^ 1 << n));
		}
		vals.sort();
		vals.dedup();
		for x in vals {
			v[i] = x;
			go(&v);
		}
		let mut v = b.to_vec();
		v.remove(i);
		go(&v);
		for x in [0, 1, 8, 255] {
			let mut v = b.to_vec();
			v.insert(i, x);
			go(&v);
		}
	}
	// four-byte numbers of envelopes and tables
	for i in (0..b.len().saturating_sub(3)).filter(|i| at(*i)) {
		let old = u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
		let n = b.len() as u32;
		for x in [0, 1, n - 1, n, n + 1, 1 << 16, 1 << 31, i32::MAX as u32, u32::MAX, old.wrapping_add(1), old.wrapping_sub(1), old.wrapping_add(4), old.wrapping_sub(4)] {
			let mut v = b.to_vec();
			v[i..i + 4].copy_from_slice(&x.to_le_bytes());
			go(&v);
		}
	}
}
fn edits_all<T: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + Debug + PartialEq>(rev: u16, name: &str, samples: usize, r: &mut Rep, bytes: &dyn Fn(u16, usize) -> Option<Vec<u8>>, walk: &dyn Fn(u16, &[u8], Option<&T>) -> Result<(), String>) {
	for k in 1..=rev {
		for j in 0..samples {
			let Some(b) = bytes(k, j) else {
				continue;
			};
			edits(&b, &mut |b| {
				r.count(hash(&(name, b)));
				let f = || -> Result<(), String> {
					let v = from_slice::<T>(b).ok();
					let s = from_reader::<_, T>(&mut std::io::Cursor::new(b)).ok();
					ck(v.is_some() == s.is_some(), || format!("from_slice accepts: {}, from_reader: {}", v.is_some(), s.is_some()))?;
					let _ = (skip_slice::<T>(b), skip_reader::<T, _>(&mut std::io::Cursor::new(b)), skip_check_slice::<T>(b), skip_check_reader::<T, _>(&mut std::io::Cursor::new(b)), T::skip_revisioned_slice(&mut SliceReader::new(b)));
					if let (Some(v), Some(s)) = (&v, &s) {
						let w = to_vec(v).map_err(|e| format!("{v:?} was accepted but does not serialize: {e}"))?;
						ck(to_vec(s).ok().as_ref() == Some(&w), || "from_slice and from_reader give different values".into())?;
						let back: T = from_slice(&w).map_err(|e| format!("{v:?} was accepted, written as {}, and that does not decode: {e}", hex(&w)))?;
						ck(to_vec(&back).ok() == Some(w), || format!("{v:?} was accepted but does not survive a round trip"))?;
					}
					walk(k, b, v.as_ref())
				};
				if let Err(e) | Ok(Err(e)) = r.on(b, f) {
					r.fail("damaged data", format!("{name}: {} (from data of revision {k}): {e}", hex(b)));
				}
			});
			take_calls();
		}
	}
	r.sample(|| format!("{name}: every edit of data of every revision"));
}
pub fn s_edits<T: SWalk>(r: &mut Rep)
where
	for<'r> T::Walker<'r, &'r [u8]>: Sized,
{
	let nf = T::fields().len();
	let walk = |_: u16, b: &[u8], v: Option<&T>| -> Result<(), String> {
		let made;
		let want = match v {
			Some(v) => v,
			None => {
				made = T::make(0);
				&made
			}
		};
		let legacy = T::layout_of(b) == Some(b'L');
		for op in [Op::Decode, Op::Skip, Op::Walk] {
			let all = || -> Result<bool, Error> {
				let mut rd: &[u8] = b;
				let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
				let mut w = T::walk_revisioned(rr)?;
				let mut same = true;
				for i in 0..nf {
					same &= matches!(T::op(&mut w, i, op, want)?, Ans::Done(true));
				}
				Ok(same)
			};
			let all = all();
			if let (Op::Decode, Some(v), true) = (op, v, legacy) {
				#[allow(clippy::eq_op)]
				if *v == *v {
					ck(matches!(all, Ok(true)), || format!("decodes to {v:?} but the walker's fields differ: {all:?}"))?;
				}
			}
		}
		for i in 0..nf {
			for op in [Op::IntoWalk, Op::IntoBytes] {
				let mut rd: &[u8] = b;
				let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
				let Ok(mut w) = T::walk_revisioned(rr) else {
					continue;
				};
				if (0..i).all(|p| T::op(&mut w, p, Op::Skip, want).is_ok()) {
					let _ = T::fin(w, i, op, want);
				}
			}
		}
		Ok(())
	};
	edits_all::<T>(T::REV, T::NAME, if thorough() { SAMPLES } else { 3 }, r, &|k, j| Some(reference::<T>(k, j)), &walk)
}
pub fn e_edits<T: EWalk>(r: &mut Rep)
where
	for<'r> T::Walker<'r, &'r [u8]>: Sized,
{
	let info = T::info();
	let walk = |_: u16, b: &[u8], v: Option<&T>| -> Result<(), String> {
		let made;
		let want = match v {
			Some(v) => v,
			None => {
				made = (0..T::VARIANTS).find_map(|v| T::make(v, 0)).unwrap();
				&made
			}
		};
		let mut rd: &[u8] = b;
		let Ok(w) = T::walk_revisioned(&mut rd) else {
			return ck(v.is_none(), || format!("decodes to {want:?} but cannot be walked"));
		};
		let _ = (T::rev(&w), T::disc(&w));
		if v.is_some() {
			for u in 0..info.len() {
				ck(T::is(&w, u) == (u == want.index()), || format!("decodes to {want:?}, but variant test {u} answers {}", T::is(&w, u)))?;
			}
		}
		drop(w);
		for u in 0..info.len() {
			for a in [Acc::Decode, Acc::Into, Acc::View] {
				let mut rd: &[u8] = b;
				let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
				if let Ok(w) = T::walk_revisioned(rr) {
					let got = T::acc(w, u, a, want);
					if let (Acc::Decode, Some(v), Some(got), true) = (a, v, got, info[u].single) {
						#[allow(clippy::eq_op)]
						if *v == *v {
							ck(u == want.index() && matches!(got, Ok(Ans::Done(true))) || u != want.index() && got.is_err(), || format!("decodes to {v:?}, but decoding variant {u} from the walker does not fit"))?;
						}
					}
				}
			}
		}
		Ok(())
	};
	let n = if thorough() { ESAMPLES } else { 2 };
	edits_all::<T>(T::REV, T::NAME, T::VARIANTS * n, r, &|k, j| e_reference::<T>(k, j / n, j % n), &walk)
}

// ---- truncated data of any revision (P05) -------------------------------------------------------

fn cuts<T: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + Debug>(rev: u16, name: &str, samples: usize, r: &mut Rep, bytes: &dyn Fn(u16, usize) -> Option<Vec<u8>>, walk: &dyn Fn(u16, usize, &[u8]) -> Result<(), String>) {
	for k in 1..=rev {
		for j in 0..samples {
			let Some(b) = bytes(k, j) else {
				continue;
			};
			for cut in (0..b.len()).filter(|c| b.len() < 2000 || *c < 40 || *c + 40 > b.len() || c % 1009 == 0) {
				r.count(hash(&(name, k, j, cut)));
				// a buffer of exactly the prefix, so that reading past it is an error of the memory model too
				let short = b[..cut].to_vec().into_boxed_slice();
				let f = || -> Result<(), String> {
					for (w, ok) in [
						("from_slice", from_slice::<T>(&short).is_ok()),
						("from_reader", from_reader::<_, T>(&mut std::io::Cursor::new(&short)).is_ok()),
						("skip_slice", skip_slice::<T>(&short).is_ok()),
						("skip_reader", skip_reader::<T, _>(&mut std::io::Cursor::new(&short)).is_ok()),
						("skip_revisioned_slice", T::skip_revisioned_slice(&mut SliceReader::new(&short)).is_ok()),
						("skip_check_slice", skip_check_slice::<T>(&short).is_ok()),
						("skip_check_reader", skip_check_reader::<T, _>(&mut std::io::Cursor::new(&short)).is_ok()),
					] {
						ck(!ok, || format!("{w} accepts"))?;
					}
					walk(k, j, &short)
				};
				if let Err(e) | Ok(Err(e)) = r.on(&short, f) {
					r.fail("truncated data", format!("{name}: data of revision {k}, sample {j}, cut after {cut} of {} bytes ({}): {e}", b.len(), hex(&b)));
				}
			}
			take_calls();
		}
	}
	r.sample(|| format!("{name}: every prefix of data of every revision"));
}
pub fn s_cuts<T: SWalk>(r: &mut Rep)
where
	for<'r> T::Walker<'r, &'r [u8]>: Sized,
{
	let nf = T::fields().len();
	let walk = |k: u16, j: usize, b: &[u8]| -> Result<(), String> {
		let (want, _) = T::upgraded(k, j);
		for op in [Op::Decode, Op::Skip, Op::Walk] {
			let all = || -> Result<bool, Error> {
				let mut rd: &[u8] = b;
				let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
				let mut w = T::walk_revisioned(rr)?;
				let mut same = true;
				for i in 0..nf {
					same &= matches!(T::op(&mut w, i, op, &want)?, Ans::Done(true));
				}
				Ok(same)
			};
			// a nested walker may be opened before the bytes it lacks are needed; reading it to its end fails
			ck(!matches!((op, all()), (Op::Walk, Ok(true)) | (Op::Decode | Op::Skip, Ok(_))), || format!("walking it ({op:?}) succeeds"))?;
		}
		Ok(())
	};
	cuts::<T>(T::REV, T::NAME, SAMPLES, r, &|k, j| Some(reference::<T>(k, j)), &walk)
}
pub fn e_cuts<T: EWalk>(r: &mut Rep)
where
	for<'r> T::Walker<'r, &'r [u8]>: Sized,
{
	let info = T::info();
	let walk = |k: u16, j: usize, b: &[u8]| -> Result<(), String> {
		let (want, _) = T::upgraded(k, j / ESAMPLES, j % ESAMPLES);
		let is = want.index();
		for a in [Acc::Decode, Acc::View] {
			let mut rd: &[u8] = b;
			let rr: &mut &[u8] = unsafe { &mut *(&mut rd as *mut &[u8]) };
			let Ok(w) = T::walk_revisioned(rr) else {
				continue;
			};
			if info[is].start <= k {
				if let Some(Ok(x)) = T::acc(w, is, a, &want) {
					return Err(format!("{a:?} of variant {is} gives {x:?}"));
				}
			}
		}
		Ok(())
	};
	cuts::<T>(T::REV, T::NAME, T::VARIANTS * ESAMPLES, r, &|k, j| e_reference::<T>(k, j / ESAMPLES, j % ESAMPLES), &walk)
}
