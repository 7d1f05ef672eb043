//! P07: results do not depend on how the transfer is split; permanent failures are reported.
use mc::catalog::*;
use mc::io::*;
use mc::model::Model;
use mc::rep::*;
use revision::*;
use std::io::Read;

type SkipFn = fn(&mut ScriptReader) -> Result<(), Error>;

struct V(Vec<Task>);
impl Visit for V {
	fn plain<T: Model>(&mut self) {
		self.0.push((T::name(), Box::new(|r| check::<T>(r, &[]))));
	}
	fn skip<T: Model + SkipRevisioned>(&mut self) {
		self.0.push((T::name(), Box::new(|r| check::<T>(r, &[("skip", |s| skip_reader::<T, _>(s))]))));
	}
	fn full<T: Model + SkipRevisioned + SkipCheckRevisioned>(&mut self, _: Option<WalkFn>) {
		self.0.push((
			T::name(),
			Box::new(|r| check::<T>(r, &[("skip", |s| skip_reader::<T, _>(s)), ("skip_check", |s| skip_check_reader::<T, _>(s))])),
		));
	}
}

/// All sequences of environment answers up to a depth, over the alphabet.
fn sequences(depth: usize) -> Vec<Vec<Step>> {
	let a = [Step::Most(usize::MAX), Step::Most(1), Step::Most(2), Step::Most(3), Step::Interrupt];
	let mut all: Vec<Vec<Step>> = vec![vec![]];
	let mut last = all.clone();
	for _ in 0..depth {
		let mut next = vec![];
		for s in &last {
			for x in a {
				let mut t = s.clone();
				t.push(x);
				next.push(t)
			}
		}
		all.extend(next.iter().cloned());
		last = next;
	}
	all
}
/// All ways to cut `n` bytes into consecutive pieces.
fn compositions(n: usize) -> Vec<Vec<Step>> {
	(0..1u32 << n.saturating_sub(1))
		.map(|m| {
			let mut v = vec![];
			let mut k = 1;
			for i in 0..n.saturating_sub(1) {
				if m >> i & 1 == 1 {
					v.push(Step::Most(k));
					k = 1
				} else {
					k += 1
				}
			}
			v
		})
		.collect()
}

fn check<T: Model>(r: &mut Rep, skips: &[(&'static str, SkipFn)]) {
	let depth = if thorough() { 6 } else { 4 };
	let seqs = sequences(depth);
	// one value per encoded length, small ones first, then the block boundaries of the skip buffer
	let mut vals: Vec<(Vec<u8>, T)> = vec![];
	let mut seen = std::collections::HashSet::new();
	for v in T::vals(1) {
		let b = to_vec(&v).unwrap_or_default();
		if b.len() <= 600 && seen.insert(b.len()) {
			vals.push((b, v))
		}
	}
	vals.sort_by_key(|v| v.0.len());
	let most = if thorough() { 24 } else { 9 };
	if vals.len() > most {
		let n = vals.len();
		let keep: std::collections::BTreeSet<usize> = (0..most).map(|i| i * (n - 1) / (most - 1)).collect();
		let mut i = 0;
		vals.retain(|_| {
			i += 1;
			keep.contains(&(i - 1))
		});
	}
	for v in T::vals(2) {
		let b = to_vec(&v).unwrap_or_default();
		if (4090..=4120).contains(&b.len()) || (8190..8210).contains(&b.len()) || (16384..16420).contains(&b.len()) {
			vals.push((b, v));
			if vals.len() > most + 6 {
				break;
			}
		}
	}
	for (own, v) in &vals {
		let e = if T::HASHED { own.clone() } else { v.bytes() };
		let n = e.len();
		let one = [Step::Most(1)];
		let slow = [Step::Interrupt, Step::Most(1)];
		let mut run = |steps: &[Step], cycle: bool, fail: Fail| {
			case(r, v, &e, skips, steps, cycle, fail);
		};
		if n <= 10 {
			for s in compositions(n) {
				run(&s, false, Fail::Never)
			}
		}
		if n <= 600 {
			for s in &seqs {
				run(s, false, Fail::Never)
			}
		}
		for s in [&one[..], &slow[..], &[Step::Most(3)], &[Step::Most(7), Step::Interrupt], &[Step::Most(2), Step::Most(5)], &[Step::Most(4095)], &[Step::Most(4096), Step::Most(1)], &[Step::Most(1), Step::Interrupt, Step::Interrupt]] {
			run(s, true, Fail::Never)
		}
		// every single split point, and an interruption at it
		if n <= 600 {
			for i in 1..n {
				run(&[Step::Most(i)], false, Fail::Never);
				run(&[Step::Most(i), Step::Interrupt], false, Fail::Never);
			}
		}
		// a permanent failure at every offset
		let at: Vec<usize> = if n <= 600 { (0..=n).collect() } else { (0..40).chain(4086..4100.min(n)).chain(n - 20..=n).collect() };
		for f in at {
			for fail in [Fail::ErrorAt(f), Fail::ZeroAt(f)] {
				run(&[], false, fail);
				run(&one, true, fail);
				run(&[Step::Most(2), Step::Interrupt], false, fail);
				run(&[Step::Interrupt, Step::Most(3)], true, fail);
			}
		}
	}
	r.sample(|| format!("{} encodings x all answer sequences up to depth {depth} over {{all,1,2,3,interrupt}}, all compositions up to 10 bytes, all split points, failures at every offset", vals.len()));
}

fn case<T: Model>(r: &mut Rep, v: &T, e: &[u8], skips: &[(&'static str, SkipFn)], steps: &[Step], cycle: bool, fail: Fail) {
	let n = e.len();
	let whole = match fail {
		Fail::Never => true,
		Fail::ErrorAt(f) | Fail::ZeroAt(f) => f >= n,
	};
	let d = |w: &str| {
		let s: Vec<String> = steps.iter().map(|s| match s { Step::Interrupt => "interrupt".into(), Step::Most(usize::MAX) => "all".into(), Step::Most(n) => n.to_string() }).collect();
		format!("{w}: encoding {}, answers [{}]{} {fail:?}", hex(e), s.join(","), if cycle { " repeated" } else { "" })
	};
	// serialize
	r.count(hash(&(e, steps, cycle, fail)));
	let res = r.on(e, || {
		let mut w = ScriptWriter {
			s: Script::new(steps, cycle, fail),
			out: vec![],
		};
		let x = to_writer(&mut w, v).is_ok();
		let mut w2 = ScriptWriter {
			s: Script::new(steps, cycle, fail),
			out: vec![],
		};
		let y = v.serialize_revisioned(&mut w2).is_ok();
		(x, w.out, y, w2.out)
	});
	match res {
		Err(p) => return r.fail("panic", d(&p)),
		Ok((x, out, y, out2)) => {
			for (what, ok, out) in [("to_writer", x, out), ("serialize_revisioned", y, out2)] {
				if ok != whole {
					r.fail(what, d(&format!("reported {}", if ok { "success" } else { "an error" })))
				}
				if whole && out != e || !e.starts_with(&out) {
					r.fail(what, d(&format!("wrote {}", hex(&out))))
				}
			}
		}
	}
	// deserialize and skip; the source goes on with other bytes unless it fails inside the value
	let mut data = e.to_vec();
	data.extend_from_slice(&[0xa5; 4]);
	r.evaluations += 1 + skips.len() as u64;
	let res = r.on(e, || {
		let mut s = ScriptReader {
			s: Script::new(steps, cycle, fail),
			data: &data,
		};
		let x: Option<T> = from_reader(&mut s).ok();
		let at = s.s.pos;
		let mut rest = vec![];
		if whole && fail == Fail::Never {
			let _ = s.read_to_end(&mut rest);
		}
		(x, at, rest)
	});
	match res {
		Err(p) => return r.fail("panic", d(&p)),
		Ok((x, at, rest)) => match x {
			Some(x) if !whole => {
				let _ = x;
				r.fail("from_reader", d("reported success"))
			}
			Some(x) => {
				if !x.same(v) {
					r.fail("from_reader", d("gave another value"))
				}
				if at != n || fail == Fail::Never && rest != [0xa5; 4] {
					r.fail("from_reader", d(&format!("took {at} of {n} bytes")))
				}
			}
			None if whole => r.fail("from_reader", d("reported an error")),
			None => {}
		},
	}
	for (what, f) in skips {
		let res = r.on(e, || {
			let mut s = ScriptReader {
				s: Script::new(steps, cycle, fail),
				data: &data,
			};
			(f(&mut s).is_ok(), s.s.pos)
		});
		match res {
			Err(p) => return r.fail("panic", d(&p)),
			Ok((ok, at)) => {
				if ok != whole {
					r.fail(what, d(&format!("reported {}", if ok { "success" } else { "an error" })))
				}
				if ok && at != n {
					r.fail(what, d(&format!("took {at} of {n} bytes")))
				}
			}
		}
	}
}

/// The indexed layouts by themselves (a struct or variant reads them from memory).
mod indexed {
	use super::*;
	use mc::model::Lvl;
	use mc::wire::{Bad, Rd};
	use mc::derived::{IMap, ISeq, ISet};
	use mc::derived::FieldKind;
	use revision::optimised::indexed::{IndexedMapEncoded, IndexedSeqEncoded, IndexedSetEncoded};
	use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
	use std::io::Write;

	macro_rules! wrap {
		($($n:ident, $t:ty, $k:ty, $tr:ident, $ser:ident, $de:ident;)*) => {$(
			struct $n($t);
			impl Revisioned for $n { fn revision() -> u16 { 1 } }
			impl SerializeRevisioned for $n {
				fn serialize_revisioned<W: Write>(&self, w: &mut W) -> Result<(), Error> { $tr::$ser(&self.0, w) }
			}
			impl DeserializeRevisioned for $n {
				fn deserialize_revisioned<R: Read>(r: &mut R) -> Result<Self, Error> { <$t as $tr>::$de(r).map($n) }
			}
			impl Model for $n {
				fn name() -> String { format!("indexed {}", stringify!($t)) }
				fn vals(l: Lvl) -> Vec<Self> { <$t>::vals(l).into_iter().map($n).collect() }
				fn enc(&self, o: &mut Vec<u8>) { <$k as FieldKind<$t>>::enc(&self.0, o) }
				fn dec(r: &mut Rd) -> Result<Self, Bad> { <$k as FieldKind<$t>>::dec(r).map($n) }
				fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
			}
		)*
		pub fn add(v: &mut V) { $( v.plain::<$n>(); )* }
		};
	}
	wrap! {
		A, BTreeMap<u8, u8>, IMap, IndexedMapEncoded, serialize_indexed_map, deserialize_indexed_map;
		B, HashMap<u16, String>, IMap, IndexedMapEncoded, serialize_indexed_map, deserialize_indexed_map;
		C, Vec<String>, ISeq, IndexedSeqEncoded, serialize_indexed_seq, deserialize_indexed_seq;
		D, BTreeSet<u32>, ISet, IndexedSetEncoded, serialize_indexed_set, deserialize_indexed_set;
		E, HashSet<String>, ISet, IndexedSetEncoded, serialize_indexed_set, deserialize_indexed_set;
	}
}

fn main() {
	let mut v = V(vec![]);
	all(&mut v);
	indexed::add(&mut v);
	run("P07", v.0);
}
