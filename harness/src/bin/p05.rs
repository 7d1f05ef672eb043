//! P05: every strict prefix of every encoding is rejected by every consumer.
use mc::catalog::*;
use mc::model::Model;
use mc::rep::*;
use revision::*;

struct V(Vec<Task>);
impl Visit for V {
	fn plain<T: Model>(&mut self) {
		self.0.push((T::name(), Box::new(|r| check::<T>(r, &|_| vec![]))))
	}
	fn skip<T: Model + SkipRevisioned>(&mut self) {
		self.0.push((T::name(), Box::new(|r| check::<T>(r, &|b| skips::<T>(b)))))
	}
	fn full<T: Model + SkipRevisioned + SkipCheckRevisioned>(&mut self, walk: Option<WalkFn>) {
		self.0.push((
			T::name(),
			Box::new(move |r| {
				check::<T>(r, &|b| {
					let mut v = skips::<T>(b);
					v.push(("skip_check_slice", skip_check_slice::<T>(b).is_err()));
					v.push(("skip_check_reader", skip_check_reader::<T, _>(&mut std::io::Cursor::new(b)).is_err()));
					if let Some(w) = walk {
						v.push(("walk", w(b).is_err()));
					}
					v
				})
			}),
		))
	}
}

fn skips<T: SkipRevisioned>(b: &[u8]) -> Vec<(&'static str, bool)> {
	vec![
		("skip_slice", skip_slice::<T>(b).is_err()),
		("skip_reader", skip_reader::<T, _>(&mut std::io::Cursor::new(b)).is_err()),
		("skip_revisioned_slice", T::skip_revisioned_slice(&mut SliceReader::new(b)).is_err()),
	]
}

fn check<T: Model>(r: &mut Rep, more: &dyn Fn(&[u8]) -> Vec<(&'static str, bool)>) {
	let (whole, grid) = if thorough() {
		(1200, 600)
	} else {
		(150, 24)
	};
	for v in T::vals(top()) {
		let e = v.bytes();
		for n in 0..e.len() {
			// long encodings: the edges, around powers of two, and a grid of odd stride
			if e.len() > whole {
				let k = if thorough() || e.len() < 4000 { 40 } else { 24 };
				let edge = n <= k || n + k >= e.len();
				let pow = (n & n.wrapping_sub(1)) == 0 || (n & (n + 1)) == 0;
				let stride = (e.len() / grid) | 1;
				if !edge && !pow && n % stride != 0 {
					continue;
				}
			}
			let b = &e[..n];
			r.count(hash(&(b, e.len())));
			let res = r.on(b, || {
				let mut v = vec![
					("from_slice", from_slice::<T>(b).is_err()),
					("from_reader", from_reader::<_, T>(&mut std::io::Cursor::new(b)).is_err()),
				];
				v.extend(more(b));
				v
			});
			match res {
				Err(p) => r.fail("panic", format!("prefix {} of {} {p}", n, hex(&e))),
				Ok(v) => {
					for (w, rejected) in v {
						if !rejected {
							r.fail(w, format!("{w} accepts the first {n} of {} bytes {}", e.len(), hex(&e)))
						}
					}
				}
			}
		}
		r.sample(|| format!("every prefix of {}", hex(&e)));
	}
}

fn main() {
	let mut v = V(vec![]);
	all(&mut v);
	run("P05", v.0);
}
