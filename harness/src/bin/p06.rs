//! P06: arbitrary bytes give a typed error or a legitimate value, in every consumer.
use mc::bytesgen;
use mc::catalog::*;
use mc::model::Model;
use mc::rep::*;
use mc::wire::{Bad, Rd, judged};
use revision::*;

struct V(Vec<Task>);
impl Visit for V {
	fn plain<T: Model>(&mut self) {
		self.0.push((T::name(), Box::new(|r| check::<T>(r, &|_| ()))))
	}
	fn skip<T: Model + SkipRevisioned>(&mut self) {
		self.0.push((T::name(), Box::new(|r| check::<T>(r, &|b| skips::<T>(b)))))
	}
	fn full<T: Model + SkipRevisioned + SkipCheckRevisioned>(&mut self, walk: Option<WalkFn>) {
		self.0.push((
			T::name(),
			Box::new(move |r| {
				check::<T>(r, &|b| {
					skips::<T>(b);
					let _ = skip_check_slice::<T>(b);
					let _ = skip_check_reader::<T, _>(&mut std::io::Cursor::new(b));
					if let Some(w) = walk {
						let _ = w(b);
					}
				})
			}),
		))
	}
}

fn skips<T: SkipRevisioned>(b: &[u8]) {
	let _ = skip_slice::<T>(b);
	let _ = skip_reader::<T, _>(&mut std::io::Cursor::new(b));
	let _ = T::skip_revisioned_slice(&mut SliceReader::new(b));
}

fn check<T: Model>(r: &mut Rep, more: &dyn Fn(&[u8])) {
	bytesgen::strings::<T>(&mut |b| {
		let want = judged(|| T::dec(&mut Rd::new(b)));
		if let Err(Bad::Huge) = want {
			return r.add("excluded: huge legacy length", 1);
		}
		r.count(hash(b));
		let res = r.on(b, || {
			more(b);
			let mut s = b;
			let v = T::deserialize_revisioned(&mut s).ok();
			let fr: Option<T> = from_reader(&mut std::io::Cursor::new(b)).ok();
			let again = v.as_ref().map(|v| to_vec(v).ok().map(|e| {
				let back = from_slice::<T>(&e).ok();
				(e, back)
			}));
			(v, b.len() - s.len(), fr, again)
		});
		let (v, n, fr, again) = match res {
			Ok(x) => x,
			Err(p) => return r.fail("panic", format!("{} {p}", hex(b))),
		};
		match (&v, &fr) {
			(None, None) => {}
			(Some(a), Some(b)) if a.same(b) => {}
			_ => r.fail("agree", format!("{}: from_slice and from_reader disagree", hex(b))),
		}
		match (&want, &v) {
			(Ok(w), Some(v)) => {
				r.add("accepted", 1);
				if !w.same(v) {
					r.fail("value", format!("{} decodes to another value than the format says ({n} bytes)", hex(b)))
				}
			}
			(Ok(_), None) => r.fail("reject", format!("{} is a valid encoding but is rejected", hex(b))),
			(Err(Bad::Abstain), _) => {}
			(Err(e), Some(_)) => r.fail("accept", format!("{} accepted, but it is {e:?}", hex(b))),
			(Err(_), None) => {}
		}
		if let (Some(v), Some(again)) = (&v, again) {
			match again {
				None => r.fail("again", format!("{} decodes to a value that does not serialize", hex(b))),
				Some((e, None)) => r.fail("again", format!("{} decodes to a value that serializes to undecodable {}", hex(b), hex(&e))),
				Some((e, Some(w))) if !w.same(v) => r.fail("again", format!("{} decodes to a value whose bytes {} decode to another", hex(b), hex(&e))),
				_ => {}
			}
		}
	});
	r.sample(|| "all strings up to 2 bytes, longer ones over edge alphabets, all single edits of small encodings".into());
}

/// Legacy lengths far past the data. Skipping holds nothing in memory, so it has to fail in order
/// whatever the length; decoding reserves room for the announced number of elements, so only lengths up
/// to 2^24 are decoded.
fn lengths<T: DeserializeRevisioned + SkipRevisioned>(r: &mut Rep, name: &str, head: &[u8], fill: &[u8]) {
	let mut lens: Vec<u64> = vec![];
	for k in 20..64 {
		lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
	}
	// around every place where a count of bits, 2-, 4-, 8-, 12- or 16-byte elements overflows
	for d in [1, 2, 3, 4, 7, 8, 12, 16, 24] {
		lens.extend([u64::MAX / d, u64::MAX / d - 1, (u64::MAX / d).saturating_add(1), i64::MAX as u64 / d, i64::MAX as u64 / d + 1]);
	}
	lens.sort();
	lens.dedup();
	for n in lens {
		for len in [0, 1, 2, 3, 9, 40, 5000] {
			let mut b = head.to_vec();
			mc::wire::put_len(&mut b, n as usize);
			b.extend(fill.iter().cycle().take(len));
			r.count(hash(&(name, &b)));
			let res = r.on(&b, || {
				let mut ok = vec![];
				let mut see = |what, is: bool| if is { ok.push(what) };
				see("skip_slice", skip_slice::<T>(&b).is_ok());
				see("skip_reader", skip_reader::<T, _>(&mut std::io::Cursor::new(&b)).is_ok());
				see("skip_revisioned_slice", T::skip_revisioned_slice(&mut SliceReader::new(&b)).is_ok());
				if n <= 1 << 24 && fill == [0] {
					see("from_slice", from_slice::<T>(&b).is_ok());
					see("from_reader", from_reader::<_, T>(&mut std::io::Cursor::new(&b)).is_ok());
				}
				ok
			});
			match res {
				Err(p) => r.fail("panic", format!("{name}: a length of {n} before {len} bytes, {}: {p}", hex(&b))),
				Ok(ok) if !ok.is_empty() => r.fail("accept", format!("{name}: a length of {n} before {len} bytes, {}: accepted by {ok:?}", hex(&b))),
				_ => {}
			}
		}
	}
	r.sample(|| format!("{name}: lengths from 2^20 to 2^64 - 1 before up to 5000 bytes"));
}
fn huge(v: &mut Vec<Task>) {
	use std::borrow::Cow;
	use std::collections::*;
	macro_rules! add { ($($t:ty),* $(,)?; $head:expr) => { $(
		for fill in [&[0u8][..], &[1, 0], &[200, 1, 65]] {
			v.push((format!("lengths of {}", stringify!($t)), Box::new(move |r| lengths::<$t>(r, stringify!($t), $head, fill))));
		}
	)* } }
	add!(Vec<bool>, Vec<u8>, Vec<i8>, Vec<u16>, Vec<i16>, Vec<u32>, Vec<i32>, Vec<u64>, Vec<i64>, Vec<u128>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<usize>, Vec<char>, Vec<String>, Vec<Vec<u8>>, Vec<Option<u16>>, Vec<(u8, u16)>,
		Vec<std::time::Duration>, String, Box<str>, Cow<'static, str>, std::sync::Arc<str>, HashMap<u8, u8>, BTreeMap<u16, String>, HashSet<u32>, BTreeSet<u8>, BinaryHeap<u64>; &[]);
	add!(Option<Vec<u64>>, Option<String>; &[1]);
	add!((u8, Vec<u32>), (u8, Vec<bool>); &[9]);
	#[cfg(feature = "opt")]
	add!(Vec<uuid::Uuid>, Vec<rust_decimal::Decimal>, bytes::Bytes, imbl::Vector<u16>, imbl::OrdMap<u8, u8>, imbl::HashSet<u8>; &[]);
}

/// Every tag byte of an optimised value: variant number, size class, and what is reserved.
fn tags(r: &mut Rep) {
	use revision::optimised::envelope::read_optimised_tag;
	use revision::optimised::tag::*;
	for b in 0..=255u8 {
		r.count(b as u64);
		let class = match b >> 5 {
			0 => Some(SizeClass::Inline),
			1 => Some(SizeClass::Fixed),
			2 => Some(SizeClass::Varlen),
			_ => None,
		};
		let res = r.on(&[b], || {
			let t = Tag(b);
			let mut ok = t.variant_id() == b & 31 && t.is_extended() == (b > 127) && t.size_class().ok() == class;
			let mut rd: &[u8] = &[b, 7];
			ok &= read_tag(&mut rd).ok() == Some(t) && rd == [7];
			let mut rd: &[u8] = &[b, 7];
			let x = read_optimised_tag(&mut rd);
			ok &= match class {
				Some(c) => x.ok() == Some((t, c)) && rd == [7],
				None => matches!(x, Err(Error::InvalidOptimisedTag(t)) if t == b),
			};
			ok
		});
		if res != Ok(true) {
			r.fail("tag", format!("tag byte {b:#x}: {res:?}"))
		}
	}
	let mut none: &[u8] = &[];
	if read_tag(&mut none).is_ok() || read_optimised_tag(&mut none).is_ok() {
		r.fail("tag", "a tag is read from nothing".into())
	}
	r.sample(|| "every tag byte".into());
}

fn main() {
	let mut v = V(vec![]);
	all(&mut v);
	huge(&mut v.0);
	v.0.push(("tags".into(), Box::new(tags)));
	run("P06", v.0);
}
