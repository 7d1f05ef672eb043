//! P01: round trips of every catalogued type over its whole value domain.
use mc::catalog::*;
use mc::model::Model;
use mc::rep::*;
use revision::{from_reader, from_slice, to_vec, to_writer};
use std::collections::{BTreeMap, HashMap, HashSet};

struct V(Vec<Task>);
impl Visit for V {
	fn plain<T: Model>(&mut self) {
		self.0.push((T::name(), Box::new(check::<T>)))
	}
}

fn check<T: Model>(r: &mut Rep) {
	for v in T::vals(top()) {
		one(r, &v, &|a: &T, b: &T| a.same(b));
	}
}

fn one<T: revision::SerializeRevisioned + revision::DeserializeRevisioned>(r: &mut Rep, v: &T, same: &dyn Fn(&T, &T) -> bool) {
	let b = match r.guard(|| "to_vec".into(), || to_vec(v)) {
		Ok(Ok(b)) => b,
		Ok(Err(e)) => return r.fail("serialize", format!("to_vec failed: {e}")),
		Err(p) => return r.fail("serialize", format!("to_vec {p}")),
	};
	r.count(hash(&b));
	r.sample(|| format!("{} bytes {}", b.len(), hex(&b)));
	let res = r.on(&b, || {
		let a: Result<T, _> = from_slice(&b);
		let c: Result<T, _> = from_reader(&mut std::io::Cursor::new(&b));
		let mut w = Vec::new();
		let e = to_writer(&mut w, v);
		let mut w2 = Vec::new();
		let e2 = v.serialize_revisioned(&mut w2);
		(a, c, e, w, e2, w2)
	});
	match res {
		Err(p) => r.fail("panic", format!("{} {p}", hex(&b))),
		Ok((a, c, e, w, e2, w2)) => {
			match a {
				Ok(x) if same(&x, v) => {}
				Ok(_) => r.fail("value", format!("from_slice gives another value for {}", hex(&b))),
				Err(e) => r.fail("value", format!("from_slice fails on {}: {e}", hex(&b))),
			}
			match c {
				Ok(x) if same(&x, v) => {}
				Ok(_) => r.fail("value", format!("from_reader gives another value for {}", hex(&b))),
				Err(e) => r.fail("value", format!("from_reader fails on {}: {e}", hex(&b))),
			}
			if e.is_err() || w != b || e2.is_err() || w2 != b {
				r.fail("writer", format!("to_writer/serialize_revisioned differ from to_vec: {}", hex(&b)))
			}
		}
	}
}

/// Values the format cannot hold must be refused, alone and inside containers.
fn refused(r: &mut Rep) {
	use std::os::unix::ffi::OsStringExt;
	use std::path::PathBuf;
	use std::time::{Duration, SystemTime, UNIX_EPOCH};
	let mut bad = |name: &str, f: &dyn Fn() -> Result<Vec<u8>, revision::Error>| {
		r.count(hash(name));
		match r.guard(|| name.into(), f) {
			Ok(Err(_)) => {}
			Ok(Ok(b)) => r.fail("refused", format!("{name}: serialized as {}", hex(&b))),
			Err(p) => r.fail("refused", format!("{name}: {p}")),
		}
	};
	for b in [&[0xffu8][..], b"a\xc3", b"\xed\xa0\x80/x", b"ok/\x80"] {
		let p = PathBuf::from(std::ffi::OsString::from_vec(b.to_vec()));
		bad(&format!("path {}", hex(b)), &|| to_vec(&p));
		bad(&format!("Vec of path {}", hex(b)), &|| to_vec(&vec![p.clone()]));
		bad(&format!("Option of path {}", hex(b)), &|| to_vec(&Some(p.clone())));
	}
	for d in [Duration::new(0, 1), Duration::new(1, 0), Duration::new(1 << 40, 5)] {
		let t: SystemTime = UNIX_EPOCH - d;
		bad(&format!("time before epoch by {d:?}"), &|| to_vec(&t));
		bad(&format!("map of time before epoch by {d:?}"), &|| to_vec(&BTreeMap::from([(1u8, t)])));
	}
}

/// Hash containers with another hasher, and references.
fn other_hashers(r: &mut Rep) {
	#[derive(Default, Clone)]
	struct H;
	impl std::hash::BuildHasher for H {
		type Hasher = Fnv;
		fn build_hasher(&self) -> Fnv {
			Fnv(0xcbf2_9ce4_8422_2325)
		}
	}
	struct Fnv(u64);
	impl std::hash::Hasher for Fnv {
		fn finish(&self) -> u64 {
			self.0
		}
		fn write(&mut self, b: &[u8]) {
			for x in b {
				self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3)
			}
		}
	}
	for n in mc::model::lens(2) {
		if n > 4100 {
			continue;
		}
		let m: HashMap<u32, String, H> = (0..n as u32).map(|i| (i.wrapping_mul(2654435761), i.to_string())).collect();
		one(r, &m, &|a, b| a == b);
		let s: HashSet<String, H> = (0..n).map(|i| format!("{i:x}")).collect();
		one(r, &s, &|a, b| a == b);
		#[cfg(feature = "opt")]
		{
			let m: imbl::GenericHashMap<u32, u8, H, imbl::shared_ptr::DefaultSharedPtr> = (0..n as u32).map(|i| (i, i as u8)).collect();
			let mut out = vec![];
			if revision::SerializeRevisioned::serialize_revisioned(&imbl::HashMap::<u32, u8>::from_iter(m.iter().map(|(a, b)| (*a, *b))), &mut out).is_err() {
				r.fail("imbl", "serialize".into())
			}
		}
	}
}

/// Writes, decodes and skips one large value.
fn put<T: Model + revision::SkipRevisioned>(r: &mut Rep, v: T) {
	let b = v.bytes();
	let got = r.on(&[], || revision::to_vec(&v));
	if !matches!(&got, Ok(Ok(g)) if *g == b) {
		r.fail("bytes", format!("{}: {} bytes expected, written {:?}", T::name(), b.len(), got.map(|g| g.map(|g| hex(&g)))));
	}
	one(r, &v, &|a: &T, b: &T| a.same(b));
	let res = r.on(&[], || revision::skip_slice::<T>(&b).ok() == Some(b.len()));
	if res != Ok(true) {
		r.fail("skip", format!("{}: skipping {} bytes: {res:?}", T::name(), b.len()));
	}
}

/// Every kind of container past the lengths where a buffer, chunk or count might end.
fn many(v: &mut Vec<Task>) {
	use std::cmp::Reverse;
	use std::collections::{BTreeSet, BinaryHeap};
	use std::num::Wrapping;
	macro_rules! kinds {
		($($t:ty = |$i:ident| $e:expr),* $(,)?) => {$(
			v.push((format!("many in {}", <$t as Model>::name()), Box::new(|r| {
				let mut lens = vec![4095usize, 4096, 4097, 8193, 65535, 65536, 65537];
				if thorough() {
					lens.extend([5000, 16385, 32767, 32769, 70000, 131073, 262145]);
				}
				for n in lens {
					put(r, (0..n).map(|$i| $e).collect::<$t>());
				}
			})));
		)*};
	}
	kinds! {
		Vec<u8> = |i| (i * 7 + i / 256) as u8, Vec<i8> = |i| (i * 7 + i / 256) as i8, Vec<bool> = |i| i % 3 == 0 || i % 7 == 0,
		Vec<u16> = |i| (i * 7) as u16, Vec<i16> = |i| (i * 7) as i16, Vec<u32> = |i| (i * 70001) as u32, Vec<i32> = |i| (i * 70001) as i32,
		Vec<u64> = |i| (i as u64) << (i % 50), Vec<i64> = |i| -((i as i64) << (i % 40)), Vec<u128> = |i| (i as u128) << (i % 100), Vec<i128> = |i| -((i as i128) << (i % 100)),
		Vec<usize> = |i| i << (i % 40), Vec<isize> = |i| -(i as isize), Vec<f32> = |i| i as f32 / 3.0, Vec<f64> = |i| i as f64 / 3.0,
		Vec<char> = |i| char::from_u32(i as u32 % 0xd800).unwrap(), Vec<String> = |i| i.to_string(),
		BTreeSet<u32> = |i| i as u32 * 3, BTreeSet<String> = |i| i.to_string(), HashSet<u64> = |i| i as u64 * 3, HashSet<String> = |i| i.to_string(),
		BinaryHeap<u32> = |i| (i as u32).wrapping_mul(2654435761), BinaryHeap<String> = |i| i.to_string(),
		BTreeMap<u32, String> = |i| (i as u32 * 3, i.to_string()), BTreeMap<String, u16> = |i| (i.to_string(), i as u16),
		HashMap<u16, String> = |i| (i as u16, i.to_string()), HashMap<String, u32> = |i| (i.to_string(), i as u32),
		Box<str> = |i| char::from(b'a' + (i % 23) as u8),
	}
	#[cfg(feature = "nest")]
	kinds! {
		Vec<Option<u8>> = |i| (i % 3 > 0).then_some(i as u8), Vec<(u8, String)> = |i| (i as u8, i.to_string()), Vec<Vec<u8>> = |i| vec![i as u8; i % 4],
		Vec<Wrapping<u32>> = |i| Wrapping(i as u32), BinaryHeap<Reverse<u32>> = |i| Reverse(i as u32), BTreeSet<(u8, String)> = |i| (i as u8, i.to_string()),
	}
	#[cfg(feature = "opt")]
	kinds! {
		Vec<rust_decimal::Decimal> = |i| rust_decimal::Decimal::new(i as i64 * 77, (i % 28) as u32), Vec<uuid::Uuid> = |i| uuid::Uuid::from_u128(i as u128 * 0x0123_4567_89ab_cdef_0011),
		Vec<bytes::Bytes> = |i| bytes::Bytes::from(vec![i as u8; i % 4]), bytes::Bytes = |i| (i * 7) as u8,
		imbl::Vector<u8> = |i| (i * 7 + i / 256) as u8, imbl::Vector<String> = |i| i.to_string(), imbl::Vector<u32> = |i| i as u32,
		imbl::OrdSet<u16> = |i| i as u16, imbl::OrdSet<String> = |i| i.to_string(), imbl::HashSet<u8> = |i| i as u8, imbl::HashSet<String> = |i| i.to_string(),
		imbl::OrdMap<String, bool> = |i| (i.to_string(), i % 3 == 0), imbl::HashMap<u32, String> = |i| (i as u32, i.to_string()), imbl::HashMap<String, u8> = |i| (i.to_string(), i as u8),
		roaring::RoaringBitmap = |i| (i * 37) as u32, roaring::RoaringTreemap = |i| (i as u64) << (i % 30),
		geo::LineString = |i| geo::Coord { x: i as f64, y: -(i as f64) },
		geo::MultiPoint = |i| geo::Point::new(i as f64, -(i as f64)),
	}
}

/// Lengths around larger powers of two, where a chunked transfer would split.
fn large(r: &mut Rep) {
	for p in [17u32, 18, 20] {
		for n in [(1usize << p) - 1, 1 << p, (1 << p) + 1] {
			put(r, (0..n).map(|i| (i * 7 + i / 256) as u8).collect::<Vec<u8>>());
			put(r, (0..n).map(|i| (i * 7 + i / 256) as i8).collect::<Vec<i8>>());
			put(r, (0..n).map(|i| i % 3 == 0 || i % 7 == 0).collect::<Vec<bool>>());
			put(r, (0..n / 2 + 1).map(|i| (i * 7) as u16).collect::<Vec<u16>>());
			put(r, (0..n / 4 + 1).map(|i| (i * 70001) as u32).collect::<Vec<u32>>());
			put(r, (0..n / 8 + 1).map(|i| i as f64 / 3.0).collect::<Vec<f64>>());
			put(r, (0..n / 8 + 1).map(|i| i.to_string()).collect::<Vec<String>>());
			put(r, (0..n / 8 + 1).map(|i| i as u32 * 3).collect::<std::collections::BTreeSet<u32>>());
			put(r, (0..n / 8 + 1).map(|i| (i as u32 * 3, i as u8)).collect::<BTreeMap<u32, u8>>());
			put(r, (0..n).map(|i| char::from(b'a' + (i % 23) as u8)).collect::<String>());
			#[cfg(feature = "opt")]
			put(r, (0..n).map(|i| (i * 7 + i / 256) as u8).collect::<bytes::Bytes>());
		}
	}
	r.sample(|| "collections of up to 2^20 + 1 elements".into());
}

/// Optimised payloads around the 4 GiB their length field can state: longer ones must be refused.
#[cfg(all(feature = "spec", not(feature = "fixed")))]
mod giant {
	use super::*;
	use revision::revisioned;
	use std::io::Write;

	thread_local!(static LEN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });

	/// Writes as many zero bytes as `LEN` says.
	struct Zeros;
	impl revision::Revisioned for Zeros {
		fn revision() -> u16 {
			1
		}
	}
	impl revision::SerializeRevisioned for Zeros {
		fn serialize_revisioned<W: Write>(&self, w: &mut W) -> Result<(), revision::Error> {
			let b = vec![0u8; 1 << 22];
			let mut n = LEN.get();
			while n > 0 {
				let k = n.min(1 << 22) as usize;
				w.write_all(&b[..k]).map_err(revision::Error::Io)?;
				n -= k as u64;
			}
			Ok(())
		}
	}

	#[revisioned(revision(1, optimised), deserialize = false)]
	struct Plain {
		a: u8,
		z: Zeros,
	}
	#[revisioned(revision(1, optimised, indexed_struct), deserialize = false)]
	struct Indexed {
		z: Zeros,
		a: u8,
	}
	#[revisioned(revision(1, optimised), deserialize = false)]
	enum En {
		#[revision(size = "varlen")]
		V(Zeros, u8),
	}

	/// Counts the bytes and keeps the first few.
	#[derive(Default)]
	struct Sink(u64, Vec<u8>);
	impl Write for Sink {
		fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
			self.0 += b.len() as u64;
			if self.1.len() < 16 {
				self.1.extend(&b[..b.len().min(16)])
			}
			Ok(b.len())
		}
		fn flush(&mut self) -> std::io::Result<()> {
			Ok(())
		}
	}

	pub fn check(r: &mut Rep) {
		if mc::io::memory_left() < 9 << 30 {
			return r.sample(|| "payloads past 4 GiB: not tried, under 9 GiB of memory free".into());
		}
		const MAX: u64 = u32::MAX as u64;
		let over: &[u64] = if thorough() { &[0, 1, 2, 1 << 16, 1 << 20] } else { &[1] };
		let kinds: [(&str, u64, fn(&mut Sink) -> Result<(), revision::Error>); 3] = [
			("optimised struct", 1, |w| to_writer(w, &Plain { a: 1, z: Zeros })),
			("field-indexed struct", 9, |w| to_writer(w, &Indexed { z: Zeros, a: 1 })),
			("varlen variant", 1, |w| to_writer(w, &En::V(Zeros, 1))),
		];
		for (name, rest, f) in kinds {
			for d in over {
				// payload of MAX + d bytes
				LEN.set(MAX + d - rest);
				r.count(hash(&(name, d)));
				let mut w = Sink::default();
				match r.guard(|| format!("{name} with a payload of 2^32 - 1 + {d} bytes"), || f(&mut w)) {
					Err(p) => r.fail("giant", format!("{name}, 2^32 - 1 + {d} bytes: {p}")),
					Ok(Ok(())) if *d > 0 => r.fail("giant", format!("{name}: a payload of 2^32 - 1 + {d} bytes, which its length field cannot state, was written as {} ({} bytes)", hex(&w.1), w.0)),
					Ok(Err(e)) if *d == 0 => r.fail("giant", format!("{name}: a payload of 2^32 - 1 bytes is refused: {e}")),
					Ok(Ok(())) => {
						// revision 1, then the tag of an enum
						let at = if name == "varlen variant" { 2 } else { 1 };
						if w.1.get(at..at + 4) != Some(&[0xff; 4]) {
							r.fail("giant", format!("{name}: a payload of 2^32 - 1 bytes begins {}", hex(&w.1)))
						}
					}
					Ok(Err(_)) => {}
				}
			}
		}
		r.sample(|| "payloads around 4 GiB".into());
	}
}

fn main() {
	let mut v = V(vec![]);
	#[cfg(all(feature = "spec", not(feature = "fixed")))]
	v.0.push(("payloads past 4 GiB".into(), Box::new(giant::check)));
	all(&mut v);
	v.0.push(("refused values".into(), Box::new(refused)));
	v.0.push(("other hashers".into(), Box::new(other_hashers)));
	v.0.push(("large collections".into(), Box::new(large)));
	many(&mut v.0);
	run("P01", v.0);
}
