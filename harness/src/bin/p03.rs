//! P03: decoding consumes exactly the encoding, whatever follows; sequences of values read back.
use mc::catalog::*;
use mc::model::Model;
use mc::rep::*;
use revision::SliceReader;
use std::io::Read;
use std::sync::Arc;

/// A reader that knows where the value ends and counts bytes taken past it.
struct Meter<'a> {
	b: &'a [u8],
	p: usize,
	end: usize,
	over: usize,
}
impl Read for Meter<'_> {
	fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
		let n = o.len().min(self.b.len() - self.p);
		o[..n].copy_from_slice(&self.b[self.p..self.p + n]);
		self.p += n;
		self.over = self.over.max(self.p.saturating_sub(self.end));
		Ok(n)
	}
}

struct V(Vec<Task>, Vec<Item>);
struct Item {
	name: String,
	bytes: Vec<u8>,
	/// decode at the front of a slice; bytes consumed, or what went wrong
	dec: Box<dyn Fn(&mut &[u8]) -> Result<(), String> + Send + Sync>,
}
impl Visit for V {
	fn plain<T: Model>(&mut self) {
		self.0.push((T::name(), Box::new(check::<T>)));
		// for sequences: the shortest and a longer small value
		let mut e: Vec<(usize, Vec<u8>)> = T::vals(1).iter().map(|v| v.bytes()).enumerate().filter(|e| e.1.len() <= 40).collect();
		e.sort_by_key(|e| e.1.len());
		let mut ks: Vec<usize> = vec![0, e.len().saturating_sub(1)];
		ks.dedup();
		for k in ks {
			let Some((_, bytes)) = e.get(k).cloned() else {
				continue;
			};
			let want = bytes.clone();
			self.1.push(Item {
				name: T::name(),
				bytes,
				dec: Box::new(move |r| {
					let v = T::deserialize_revisioned(r).map_err(|e| format!("{e}"))?;
					// exact value: by reference decoding of the expected bytes
					let w = T::dec(&mut mc::wire::Rd::new(&want));
					match w {
						Ok(w) if !w.same(&v) => Err("another value".into()),
						_ => Ok(()),
					}
				}),
			});
		}
	}
}

fn check<T: Model>(r: &mut Rep) {
	for v in T::vals(top()) {
		let e = v.bytes();
		let own = &e[..e.len().min(9)];
		for suffix in [&[][..], &[0], &[0xff; 24], &[0; 24], &[1, 2, 3, 4, 5, 6, 7, 8, 9], &[251, 251, 251, 251, 251], &[0x80, 0xbf, b'a'], own] {
			let mut b = e.clone();
			b.extend_from_slice(suffix);
			r.count(hash(&b));
			r.sample(|| format!("{} + suffix {}", hex(&e), hex(suffix)));
			let res = r.on(&b, || {
				let mut s: &[u8] = &b;
				let a = T::deserialize_revisioned(&mut s);
				let left_slice = s.len();
				let mut sr = SliceReader::new(&b);
				let c = T::deserialize_revisioned(&mut sr);
				let left_sr = (sr.remaining().len(), sr.consumed_len());
				let mut m = Meter {
					b: &b,
					p: 0,
					end: e.len(),
					over: 0,
				};
				let d = revision::from_reader::<_, T>(&mut m);
				(a, left_slice, c, left_sr, d, m.p, m.over)
			});
			let (a, l, c, (sl, sc), d, mp, over) = match res {
				Ok(x) => x,
				Err(p) => {
					r.fail("panic", format!("{} {p}", hex(&b)));
					continue;
				}
			};
			let okv = |x: &Result<T, revision::Error>| x.as_ref().is_ok_and(|x| x.same(&v));
			if !okv(&a) || !okv(&c) || !okv(&d) {
				r.fail("value", format!("value of {} changes with suffix {}", hex(&e), hex(suffix)))
			}
			if l != suffix.len() {
				r.fail("slice", format!("{} + {}: slice left {} of {}", hex(&e), hex(suffix), l, suffix.len()))
			}
			if sl != suffix.len() || sc != e.len() {
				r.fail("slice reader", format!("{} + {}: left {sl}, consumed {sc}", hex(&e), hex(suffix)))
			}
			if mp != e.len() || over != 0 {
				r.fail("reader", format!("{} + {}: reader consumed {mp} of {}", hex(&e), hex(suffix), e.len()))
			}
		}
	}
}

/// Every ordered sequence of the given length over the items, read back from one stream.
fn sequences(items: Arc<Vec<Item>>, first: usize, len: usize, alpha: Vec<usize>) -> Task {
	let name = format!("sequences of {len} starting with {} #{first}", items[first].name);
	(
		name,
		Box::new(move |r: &mut Rep| {
			let mut idx = vec![0usize; len - 1];
			loop {
				let seq: Vec<&Item> = std::iter::once(&items[first]).chain(idx.iter().map(|i| &items[alpha[*i]])).collect();
				let b: Vec<u8> = seq.iter().flat_map(|i| i.bytes.iter().copied()).collect();
				r.count(hash(&(&idx, first)));
				r.traces += 1;
				let res = r.on(&b, || {
					let mut s: &[u8] = &b;
					for (k, i) in seq.iter().enumerate() {
						let before = s.len();
						if let Err(e) = (i.dec)(&mut s) {
							return Err(format!("value {k} ({}): {e}", i.name));
						}
						if before - s.len() != i.bytes.len() {
							return Err(format!("value {k} ({}) consumed {} of {} bytes", i.name, before - s.len(), i.bytes.len()));
						}
					}
					Ok(())
				});
				match res {
					Ok(Ok(())) => {}
					Ok(Err(m)) | Err(m) => r.fail("stream", format!("{} : {m}", hex(&b))),
				}
				let mut i = 0;
				loop {
					if i == idx.len() {
						return;
					}
					idx[i] += 1;
					if idx[i] < alpha.len() {
						break;
					}
					idx[i] = 0;
					i += 1;
				}
			}
		}),
	)
}

fn main() {
	let mut v = V(vec![], vec![]);
	all(&mut v);
	let V(mut tasks, items) = v;
	let items = Arc::new(items);
	let n = items.len();
	// all ordered pairs of items; all triples with the tail over a spread-out alphabet
	let tail: Vec<usize> = (0..n).step_by(if thorough() { 3 } else { 9 }).collect();
	for i in 0..n {
		tasks.push(sequences(items.clone(), i, 2, (0..n).collect()));
		tasks.push(sequences(items.clone(), i, 3, tail.clone()));
	}
	run("P03", tasks);
}
