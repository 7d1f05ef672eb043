//! P04: skipping consumes what decoding consumes; checked skipping accepts what decoding accepts.
use mc::bytesgen;
use mc::catalog::*;
use mc::model::Model;
use mc::rep::*;
use mc::wire::{Bad, Rd, judged};
use revision::*;

struct V(Vec<Task>);
impl Visit for V {
	fn plain<T: Model>(&mut self) {}
	fn skip<T: Model + SkipRevisioned>(&mut self) {
		self.0.push((T::name(), Box::new(|r| check::<T>(r, &|_| None))));
	}
	fn full<T: Model + SkipRevisioned + SkipCheckRevisioned>(&mut self, _: Option<WalkFn>) {
		self.0.push((T::name(), Box::new(|r| check::<T>(r, &|b| Some(checked::<T>(b))))));
	}
}

/// Bytes consumed, or `None` for an error, of each way of skipping.
type Ways = Vec<(&'static str, Option<usize>)>;

fn unchecked<T: SkipRevisioned + Revisioned>(b: &[u8]) -> Ways {
	let mut v: Ways = vec![];
	let mut s = b;
	let x = T::skip_revisioned(&mut s);
	v.push(("skip_revisioned", x.ok().map(|_| b.len() - s.len())));
	let mut c = std::io::Cursor::new(b);
	let x = skip_reader::<T, _>(&mut c);
	v.push(("skip_reader", x.ok().map(|_| c.position() as usize)));
	let mut c = b;
	let x = skip_revisioned::<T, _>(&mut c);
	v.push(("skip_revisioned fn", x.ok().map(|_| b.len() - c.len())));
	let mut sr = SliceReader::new(b);
	let x = T::skip_revisioned_slice(&mut sr);
	v.push(("skip_revisioned_slice", x.ok().map(|_| sr.consumed_len())));
	v.push(("skip_slice", skip_slice::<T>(b).ok()));
	v
}

fn checked<T: SkipCheckRevisioned + Revisioned + SkipRevisioned>(b: &[u8]) -> Ways {
	let mut v: Ways = vec![];
	let mut s = b;
	let x = T::skip_check_revisioned(&mut s);
	v.push(("skip_check_revisioned", x.ok().map(|_| b.len() - s.len())));
	let mut c = std::io::Cursor::new(b);
	let x = skip_check_reader::<T, _>(&mut c);
	v.push(("skip_check_reader", x.ok().map(|_| c.position() as usize)));
	v.push(("skip_check_slice", skip_check_slice::<T>(b).ok()));
	v
}

fn check<T: Model + SkipRevisioned>(r: &mut Rep, chk: &dyn Fn(&[u8]) -> Option<Ways>) {
	let mut judge = |b: &[u8], valid: bool| {
		let abstain = match judged(|| T::dec(&mut Rd::new(b))) {
			Err(Bad::Huge) => return r.add("excluded: huge legacy length", 1),
			Err(Bad::Abstain) => true,
			Ok(_) => false,
			Err(_) => false,
		};
		r.count(hash(b));
		let res = r.on(b, || {
			let mut s = b;
			let d = T::deserialize_revisioned(&mut s).is_ok().then(|| b.len() - s.len());
			(d, unchecked::<T>(b), chk(b))
		});
		let (d, u, c) = match res {
			Ok(x) => x,
			Err(p) => return r.fail("panic", format!("{} {p}", hex(b))),
		};
		if let Some(n) = d {
			// malformed length- or offset-delimited payloads: decoding is lenient, skipping goes by length
			if !abstain {
				for (w, k) in u {
					if k != Some(n) {
						r.fail(w, format!("{}: decoding consumes {n}, {w} {k:?}", hex(b)))
					}
				}
			}
			r.add("accepted by decoding", 1);
		} else if valid {
			r.fail("decode", format!("{} does not decode", hex(b)))
		}
		for (w, k) in c.into_iter().flatten() {
			if k != d {
				r.fail(w, format!("{}: decoding {d:?}, {w} {k:?}", hex(b)))
			}
		}
	};
	// every value, alone and followed by other bytes
	for v in T::vals(top()) {
		let e = v.bytes();
		judge(&e, true);
		let mut b = e.clone();
		b.extend_from_slice(&[0xff, 0, 1, 251, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
		judge(&b, true);
	}
	bytesgen::strings::<T>(&mut |b| judge(b, false));
	r.sample(|| "all strings up to 2 bytes, longer ones over edge alphabets, all single edits of small encodings".into());
}

fn main() {
	let mut v = V(vec![]);
	all(&mut v);
	run("P04", v.0);
}
