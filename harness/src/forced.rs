//! Fields with a forced layout (`fixed`, `specialised`): every value of the field's domain at every
//! position, in every build, against the reference layout.

use crate::derived::FieldKind;
use crate::model::{Model, seqs};
use crate::rep::*;
use crate::wire::*;
use revision::*;
use std::fmt::Debug;

pub trait ForcedVal: Model + Clone + Debug + Default + Send + Sync {
	fn domain() -> Vec<Self>;
}
macro_rules! ints { ($($t:ty)*) => {$( impl ForcedVal for $t { fn domain() -> Vec<Self> { <$t>::vals(top()) } } )*} }
ints!(u32 i32 u64 i64 u128 i128);
impl<T: Model + Clone + Debug + Send + Sync> ForcedVal for Vec<T>
where
	Vec<T>: Model + Default,
{
	fn domain() -> Vec<Self> {
		let mut v = seqs::<T>(top());
		if !thorough() {
			v.retain(|x| x.len() <= 5000);
		}
		v
	}
}

/// What the walker said about the forced field: its value, if asked to decode it.
pub type Walked<X> = Result<Option<X>, Error>;

pub trait Forced: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + WalkRevisioned + Debug + Send + 'static {
	type X: ForcedVal;
	const NAME: &'static str;
	const REV: u16;
	/// The value holding `x`, neighbours at fixed values.
	fn wrap(x: Self::X) -> Self;
	/// The field, if the neighbours are as `wrap` sets them.
	fn field(&self) -> Option<&Self::X>;
	/// Reference encoding by the code of revision `k`; `None`: that revision stores no such field.
	fn stored(x: &Self::X, k: u16) -> Option<Vec<u8>>;
	/// Encoding by a revision that did not have the field, which now reads as the default.
	fn without(k: u16) -> Option<Vec<u8>>;
	/// What `walk` offers: 0 nothing, 1 decoding, 2 decoding and skipping.
	const WALK: u8;
	/// Walk up to the field, decode (`true`) or skip it, then to the end.
	fn walk(b: &mut &[u8], decode: bool) -> Walked<Self::X>;
}

pub fn put<K: FieldKind<T>, T>(x: &T) -> Vec<u8> {
	let mut o = vec![];
	K::enc(x, &mut o);
	o
}
pub fn plain<T: Model>(x: &T) -> Vec<u8> {
	x.bytes()
}
pub fn rev(k: u16) -> Vec<u8> {
	let mut o = vec![];
	put_rev(&mut o, k);
	o
}
pub fn tag(k: u32) -> Vec<u8> {
	let mut o = vec![];
	put_tag32(&mut o, k);
	o
}

fn ck(ok: bool, f: impl FnOnce() -> String) -> Result<(), String> {
	if ok { Ok(()) } else { Err(f()) }
}
fn show<X: Debug>(x: &X) -> String {
	let s = format!("{x:?}");
	s.chars().take(200).collect()
}

pub fn forced<T: Forced>(r: &mut Rep) {
	for x in T::X::domain() {
		let v = T::wrap(x.clone());
		let want = T::stored(&x, T::REV).unwrap();
		r.count(hash(&(T::NAME, &want)));
		let mut written = Ok(vec![]);
		if let Err(p) = r.guard(|| format!("{} {}", T::NAME, show(&x)), || written = to_vec(&v)) {
			r.fail("forced layout, write", format!("{}: {} panicked: {p}", T::NAME, show(&x)));
			continue;
		}
		match written {
			Ok(b) if b == want => {}
			b => r.fail("forced layout, written bytes", format!("{}: {} written as {:?}, layout prescribes {}", T::NAME, show(&x), b.map(|b| hex(&b)), hex(&want))),
		}
		// inside a list, several times
		let mut list = vec![];
		put_len(&mut list, 3);
		for _ in 0..3 {
			list.extend_from_slice(&want)
		}
		let lv: Vec<T> = (0..3).map(|_| T::wrap(x.clone())).collect();
		match to_vec(&lv) {
			Ok(b) if b == list => {}
			b => r.fail("forced layout, in a list", format!("{}: {} written as {:?}", T::NAME, show(&x), b.map(|b| hex(&b)))),
		}
		for k in 1..=T::REV {
			let Some(b) = T::stored(&x, k) else { continue };
			judge::<T>(r, &b, k, &x);
		}
		let f = || -> Result<(), String> {
			let mut b = &list[..];
			let d = Vec::<T>::deserialize_revisioned(&mut b).map_err(|e| format!("list does not decode: {e}"))?;
			ck(d.len() == 3 && d.iter().all(|d| d.field().is_some_and(|y| y.same(&x))) && b.is_empty(), || format!("list decodes to {}", show(&d)))?;
			ck(skip_slice::<Vec<T>>(&list).ok() == Some(list.len()), || "list skip_slice".into())?;
			let mut c = std::io::Cursor::new(&list);
			ck(skip_reader::<Vec<T>, _>(&mut c).is_ok() && c.position() == list.len() as u64, || "list skip_reader".into())
		};
		if let Err(e) | Ok(Err(e)) = r.on(&list, f) {
			r.fail("forced layout, in a list", format!("{}: {}: {e}", T::NAME, show(&x)));
		}
	}
	for k in 1..=T::REV {
		if let Some(b) = T::without(k) {
			judge::<T>(r, &b, k, &T::X::default());
		}
	}
	r.sample(|| format!("{}: {} values", T::NAME, T::X::domain().len()));
}

fn judge<T: Forced>(r: &mut Rep, b: &[u8], k: u16, x: &T::X) {
	r.bulk(1);
	let long = [b, &[0xfb, 1, 2]].concat();
	let f = || -> Result<(), String> {
		let n = b.len();
		let mut s = &long[..];
		let d = T::deserialize_revisioned(&mut s).map_err(|e| format!("does not decode: {e}"))?;
		ck(d.field().is_some_and(|y| y.same(x)), || format!("decodes to {}", show(&d)))?;
		ck(s.len() == 3, || format!("decoding consumed {} of {n}", long.len() - s.len()))?;
		let mut c = std::io::Cursor::new(&long);
		let d = from_reader::<_, T>(&mut c).map_err(|e| format!("stream does not decode: {e}"))?;
		ck(d.field().is_some_and(|y| y.same(x)) && c.position() == n as u64, || format!("stream decodes to {} at {}", show(&d), c.position()))?;
		ck(skip_slice::<T>(&long).ok() == Some(n), || format!("skip_slice {:?} of {n}", skip_slice::<T>(&long)))?;
		let mut q = SliceReader::new(&long);
		ck(T::skip_revisioned_slice(&mut q).is_ok() && q.remaining().len() == 3, || format!("skip_revisioned_slice leaves {} of {n}", q.remaining().len()))?;
		let mut c = std::io::Cursor::new(&long);
		ck(skip_reader::<T, _>(&mut c).is_ok() && c.position() == n as u64, || format!("skip_reader at {} of {n}", c.position()))?;
		ck(skip_check_slice::<T>(&long).ok() == Some(n), || format!("skip_check_slice {:?} of {n}", skip_check_slice::<T>(&long)))?;
		if T::WALK > 0 {
		let mut s = &long[..];
		let w = T::walk(&mut s, true).map_err(|e| format!("walk: {e}"))?;
		ck(w.as_ref().is_some_and(|y| y.same(x)), || format!("walking decodes the field as {}", show(&w)))?;
		ck(s.len() == 3, || format!("walking leaves {} of 3", s.len()))?;
		}
		if T::WALK > 1 {
		let mut s = &long[..];
		T::walk(&mut s, false).map_err(|e| format!("skipping walk: {e}"))?;
		ck(s.len() == 3, || format!("skipping walk leaves {} of 3", s.len()))?;
		}
		// nothing of the field may be missing
		if n > 0 {
			ck(T::deserialize_revisioned(&mut &b[..n - 1]).is_err(), || "decodes without its last byte".into())?;
		}
		Ok(())
	};
	if let Err(e) | Ok(Err(e)) = r.on(b, f) {
		r.fail("forced layout, read", format!("{} stored revision {k}: {}: {e}", T::NAME, show(x)));
	}
}
