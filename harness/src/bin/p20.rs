//! P20: containers of the same contents are interchangeable on the wire; indexed encodings depend on
//! contents only. All insertion orders of small contents x container kinds x hash orders.
use mc::rep::*;
use mc::wire::*;
use revision::optimised::indexed::{IndexedMapEncoded, IndexedSeqEncoded, IndexedSetEncoded};
use revision::{from_slice, to_vec, DeserializeRevisioned, SerializeRevisioned, SkipRevisioned};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Arc;

/// Deterministic hashers: each gives the same contents another iteration order; the last one collides.
#[derive(Clone, Copy, Default)]
struct Seeded<const S: u64>;
struct H(u64, u64);
impl Hasher for H {
	fn write(&mut self, b: &[u8]) {
		for x in b {
			self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) ^ self.1;
		}
	}
	fn finish(&self) -> u64 {
		if self.1 == 99 {
			0
		} else {
			self.0
		}
	}
}
impl<const S: u64> BuildHasher for Seeded<S> {
	type Hasher = H;
	fn build_hasher(&self) -> H {
		H(S.wrapping_mul(0xD134_2543_DE82_EF95), S)
	}
}

trait Elem: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + Ord + Hash + Clone + Debug + Send + Sync + 'static {
	const NAME: &'static str;
	/// Vec<Self> uses the bulk layout when specialised vectors are on
	const BULK: bool;
	fn universe() -> Vec<Self>;
	fn put(&self) -> Vec<u8>;
}
macro_rules! elem {
	($t:ty, $bulk:expr, [$($v:expr),*], |$x:ident, $o:ident| $b:expr) => {
		impl Elem for $t {
			const NAME: &'static str = stringify!($t);
			const BULK: bool = $bulk;
			fn universe() -> Vec<Self> { vec![$($v),*] }
			fn put(&self) -> Vec<u8> { let mut v = vec![]; { let $x = self; let $o = &mut v; $b; } v }
		}
	};
}
// universes where byte order, numeric order and encoded length disagree
elem!(u16, true, [1, 256, 250, 251, 0, 2, 255, 512, 65535, 249, 1000, 513], |x, o| put_uint(o, *x as u128, 2));
elem!(i32, true, [-1, 1, 0, -126, 125, 300, -300, 70000, i32::MIN, i32::MAX, 2, -2], |x, o| put_sint(o, *x as i128, 4));
elem!(u8, true, [5, 4, 255, 0, 1, 2, 3, 9, 8, 7, 250, 251], |x, o| o.push(*x));
elem!(i8, true, [-5, 4, -128, 0, 1, 127, 3, -1, 8, -7, 10, 11], |x, o| o.push(*x as u8));
elem!(bool, true, [true, false], |x, o| o.push(*x as u8));
elem!(u64, true, [1, 256, 250, 251, 0, 1 << 33, 255, 512, u64::MAX, 249, 65536, 513], |x, o| put_uint(o, *x as u128, 8));
elem!(u128, true, [1, 256, 250, 251, 0, 1 << 70, 255, 512, u128::MAX, 249, 65536, 513], |x, o| put_uint(o, *x, 16));
elem!(char, false, ['b', 'a', 'é', '\0', '😀', 'z', 'c', 'd', 'e', 'ÿ', 'g', 'h'], |x, o| {
	let mut b = [0; 4];
	o.extend_from_slice(x.encode_utf8(&mut b).as_bytes())
});
elem!(String, false, ["b".into(), "aa".into(), "".into(), "é".into(), "z".into(), "a".into(), "ab".into(), "ba".into(), "c".into(), "ccc".into(), "\0".into(), "d".into()], |x, o| put_bytes(o, x.as_bytes()));
elem!(Option<u16>, false, [None, Some(1), Some(256), Some(0), Some(300), Some(2), Some(3), Some(4), Some(65535), Some(6), Some(7), Some(8)], |x, o| {
	o.push(x.is_some() as u8);
	if let Some(x) = x {
		put_uint(o, *x as u128, 2)
	}
});
elem!((u8, String), false, [(1, "b".into()), (0, "b".into()), (1, "a".into()), (1, "".into()), (2, "".into()), (3, "c".into()), (3, "b".into()), (255, "".into()), (4, "".into()), (5, "".into()), (6, "".into()), (7, "".into())], |x, o| {
	o.push(x.0);
	put_bytes(o, x.1.as_bytes())
});
elem!(Vec<u8>, false, [vec![1], vec![], vec![0, 0], vec![255], vec![2], vec![1, 1], vec![3], vec![4], vec![5], vec![6], vec![7], vec![8]], |x, o| put_bytes(o, x));

fn list<T: Elem>(e: &[T]) -> Vec<u8> {
	let mut o = vec![];
	put_len(&mut o, e.len());
	for x in e {
		o.extend_from_slice(&x.put());
	}
	o
}
fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
	if ok {
		Ok(())
	} else {
		Err(what())
	}
}
fn enc<T: SerializeRevisioned>(what: &str, t: &T) -> Result<Vec<u8>, String> {
	to_vec(t).map_err(|e| format!("{what}: serialize failed: {e}"))
}
fn dec<T: DeserializeRevisioned>(what: &str, b: &[u8]) -> Result<T, String> {
	let mut r = b;
	let v = T::deserialize_revisioned(&mut r).map_err(|e| format!("{} as {what}: {e}", hex(b)))?;
	ck(r.is_empty(), || format!("{} as {what}: {} bytes left", hex(b), r.len()))?;
	Ok(v)
}
/// What a container wrote, read back element by element.
fn parse<T: Elem>(what: &str, b: &[u8]) -> Result<Vec<T>, String> {
	let mut r = b;
	let mut rd = Rd::new(b);
	let n = get_len(&mut rd).map_err(|_| format!("{what}: no length in {}", hex(b)))?;
	r = &r[rd.p..];
	let mut v = vec![];
	for _ in 0..n {
		v.push(T::deserialize_revisioned(&mut r).map_err(|e| format!("{what} wrote {}: {e}", hex(b)))?);
	}
	ck(r.is_empty(), || format!("{what} wrote {} with {} bytes too many", hex(b), r.len()))?;
	Ok(v)
}

/// One list of elements in the given order (duplicates allowed).
fn seq<T: Elem>(e: &[T]) -> Result<(), String> {
	let plain = list(e);
	let sorted: BTreeSet<T> = e.iter().cloned().collect();
	let asc: Vec<T> = sorted.iter().cloned().collect();
	let mut all = e.to_vec();
	all.sort();
	// reading a plain list as anything
	if !T::BULK || !SPEC {
		ck(enc("Vec", &e.to_vec())? == plain, || format!("Vec of {e:?} is not a plain list"))?;
		ck(dec::<Vec<T>>("Vec", &plain)? == e, || format!("{} as Vec differs", hex(&plain)))?;
		ck(enc("Box<Vec>", &Box::new(e.to_vec()))? == plain, || "Box<Vec> differs".into())?;
	}
	ck(dec::<BTreeSet<T>>("BTreeSet", &plain)? == sorted, || format!("{} as BTreeSet differs", hex(&plain)))?;
	ck(dec::<HashSet<T>>("HashSet", &plain)?.into_iter().collect::<BTreeSet<_>>() == sorted, || format!("{} as HashSet differs", hex(&plain)))?;
	ck(dec::<BinaryHeap<T>>("BinaryHeap", &plain)?.into_sorted_vec() == all, || format!("{} as BinaryHeap differs", hex(&plain)))?;
	// what each container writes
	let want = list(&asc);
	ck(enc("BTreeSet", &sorted)? == want, || format!("BTreeSet of {asc:?} is not in key order"))?;
	let mut hs: HashSet<T> = HashSet::default();
	let mut bs: BTreeSet<T> = BTreeSet::new();
	let mut heap = BinaryHeap::new();
	for x in e {
		hs.insert(x.clone());
		bs.insert(x.clone());
		heap.push(x.clone());
	}
	ck(enc("BTreeSet", &bs)? == want, || format!("BTreeSet filled as {e:?} is not in key order"))?;
	let mut p = parse::<T>("HashSet", &enc("HashSet", &hs)?)?;
	p.sort();
	ck(p == asc, || format!("HashSet of {asc:?} wrote {p:?}"))?;
	let mut p = parse::<T>("BinaryHeap", &enc("BinaryHeap", &heap)?)?;
	p.sort();
	ck(p == all, || format!("BinaryHeap of {all:?} wrote {p:?}"))?;
	#[cfg(feature = "opt")]
	{
		let v: imbl::Vector<T> = e.iter().cloned().collect();
		ck(enc("imbl::Vector", &v)? == plain, || format!("imbl::Vector of {e:?} is not a plain list"))?;
		ck(dec::<imbl::Vector<T>>("imbl::Vector", &plain)? == v, || format!("{} as imbl::Vector differs", hex(&plain)))?;
		// the same list put together in other ways, which gives other trees inside
		let mut front = imbl::Vector::new();
		for x in e.iter().rev() {
			front.push_front(x.clone())
		}
		let mut cat: imbl::Vector<T> = e[..e.len() / 3].iter().cloned().collect();
		cat.append(v.skip(e.len() / 3));
		for v in [front, cat] {
			ck(enc("imbl::Vector", &v)? == plain, || format!("imbl::Vector built as {e:?} in pieces is not a plain list"))?;
			let (mut got, mut want) = (vec![], vec![]);
			v.serialize_indexed_seq(&mut got).map_err(|x| format!("indexed imbl::Vector: {x}"))?;
			put_indexed_seq(&mut want, &e.iter().map(|x| x.put()).collect::<Vec<_>>());
			ck(got == want, || format!("indexed imbl::Vector of {e:?} built in pieces is {}", hex(&got)))?;
		}
		let o: imbl::OrdSet<T> = e.iter().cloned().collect();
		ck(enc("imbl::OrdSet", &o)? == want, || format!("imbl::OrdSet of {asc:?} is not in key order"))?;
		ck(dec::<imbl::OrdSet<T>>("imbl::OrdSet", &plain)? == o, || format!("{} as imbl::OrdSet differs", hex(&plain)))?;
		let h: imbl::HashSet<T> = e.iter().cloned().collect();
		ck(dec::<imbl::HashSet<T>>("imbl::HashSet", &plain)? == h, || format!("{} as imbl::HashSet differs", hex(&plain)))?;
		let mut p = parse::<T>("imbl::HashSet", &enc("imbl::HashSet", &h)?)?;
		p.sort();
		ck(p == asc, || format!("imbl::HashSet of {asc:?} wrote {p:?}"))?;
	}
	// indexed sequence and set
	let mut iw = vec![];
	put_indexed_seq(&mut iw, &e.iter().map(|x| x.put()).collect::<Vec<_>>());
	let mut got = vec![];
	e.to_vec().serialize_indexed_seq(&mut got).map_err(|x| format!("indexed Vec: {x}"))?;
	ck(got == iw, || format!("indexed sequence of {e:?} is {} not {}", hex(&got), hex(&iw)))?;
	let back = Vec::<T>::deserialize_indexed_seq(&mut iw.as_slice()).map_err(|x| format!("indexed sequence of {e:?}: {x}"))?;
	ck(back == e, || format!("indexed sequence of {e:?} decodes to {back:?}"))?;
	let mut sw = vec![];
	put_indexed_set(&mut sw, asc.iter().map(|x| x.put()).collect());
	fn set<S: IndexedSetEncoded>(what: &str, s: &S, w: &[u8]) -> Result<S, String> {
		let mut got = vec![];
		s.serialize_indexed_set(&mut got).map_err(|x| format!("indexed {what}: {x}"))?;
		ck(got == w, || format!("indexed {what} is {} not {}", hex(&got), hex(w)))?;
		let mut r = w;
		S::skip_indexed_set(&mut r).map_err(|x| format!("indexed {what}: skip {x}"))?;
		ck(r.is_empty(), || format!("indexed {what}: skip leaves {}", r.len()))?;
		S::deserialize_indexed_set(&mut &w[..]).map_err(|x| format!("indexed {what}: {x}"))
	}
	ck(set("BTreeSet", &bs, &sw)? == bs, || "indexed BTreeSet comes back different".into())?;
	ck(set("HashSet", &hs, &sw)? == hs, || "indexed HashSet comes back different".into())?;
	macro_rules! seeds {
		($($s:literal)*) => {$(
			let mut h: HashSet<T, Seeded<$s>> = HashSet::default();
			for x in e { h.insert(x.clone()); }
			ck(set(concat!("HashSet seed ", $s), &h, &sw)? == h, || "indexed seeded HashSet comes back different".into())?;
		)*};
	}
	seeds!(1 2 3 99);
	#[cfg(feature = "opt")]
	{
		let o: imbl::OrdSet<T> = e.iter().cloned().collect();
		ck(set("imbl::OrdSet", &o, &sw)? == o, || "indexed imbl::OrdSet comes back different".into())?;
		let h: imbl::HashSet<T> = e.iter().cloned().collect();
		ck(set("imbl::HashSet", &h, &sw)? == h, || "indexed imbl::HashSet comes back different".into())?;
		let v: imbl::Vector<T> = e.iter().cloned().collect();
		let mut got = vec![];
		v.serialize_indexed_seq(&mut got).map_err(|x| format!("indexed imbl::Vector: {x}"))?;
		ck(got == iw, || format!("indexed imbl::Vector of {e:?} is {} not {}", hex(&got), hex(&iw)))?;
		let back = imbl::Vector::<T>::deserialize_indexed_seq(&mut iw.as_slice()).map_err(|x| format!("indexed imbl::Vector of {e:?}: {x}"))?;
		ck(back == v, || format!("indexed imbl::Vector of {e:?} decodes differently"))?;
	}
	Ok(())
}

/// One list of entries with distinct keys, in insertion order.
fn map<K: Elem, V: Elem>(e: &[(K, V)]) -> Result<(), String> {
	let mut asc = e.to_vec();
	asc.sort_by(|a, b| a.0.cmp(&b.0));
	let pairs = |l: &[(K, V)]| {
		let mut o = vec![];
		put_len(&mut o, l.len());
		for (k, v) in l {
			o.extend_from_slice(&k.put());
			o.extend_from_slice(&v.put());
		}
		o
	};
	let (plain, want) = (pairs(e), pairs(&asc));
	ck(enc("Vec of pairs", &e.to_vec())? == plain, || format!("Vec of pairs {e:?} is not a plain list"))?;
	ck(dec::<Vec<(K, V)>>("Vec of pairs", &plain)? == e, || "Vec of pairs differs".into())?;
	let bm: BTreeMap<K, V> = e.iter().cloned().collect();
	let hm: HashMap<K, V> = e.iter().cloned().collect();
	ck(enc("BTreeMap", &bm)? == want, || format!("BTreeMap filled as {e:?} is not in key order"))?;
	ck(dec::<BTreeMap<K, V>>("BTreeMap", &plain)? == bm, || format!("{} as BTreeMap differs", hex(&plain)))?;
	ck(dec::<HashMap<K, V>>("HashMap", &plain)? == hm, || format!("{} as HashMap differs", hex(&plain)))?;
	ck(dec::<BTreeMap<K, V>>("BTreeMap", &enc("HashMap", &hm)?)? == bm, || format!("HashMap of {asc:?} read as BTreeMap differs"))?;
	let mut iw = vec![];
	put_indexed_map(&mut iw, e.iter().map(|(k, v)| (k.put(), v.put())).collect());
	fn one<M: IndexedMapEncoded>(what: &str, m: &M, w: &[u8]) -> Result<M, String> {
		let mut got = vec![];
		m.serialize_indexed_map(&mut got).map_err(|x| format!("indexed {what}: {x}"))?;
		ck(got == w, || format!("indexed {what} is {} not {}", hex(&got), hex(w)))?;
		let mut r = w;
		M::skip_indexed_map(&mut r).map_err(|x| format!("indexed {what}: skip {x}"))?;
		ck(r.is_empty(), || format!("indexed {what}: skip leaves {}", r.len()))?;
		M::deserialize_indexed_map(&mut &w[..]).map_err(|x| format!("indexed {what}: {x}"))
	}
	ck(one("BTreeMap", &bm, &iw)? == bm, || "indexed BTreeMap comes back different".into())?;
	ck(one("HashMap", &hm, &iw)? == hm, || "indexed HashMap comes back different".into())?;
	macro_rules! seeds {
		($($s:literal)*) => {$(
			let mut h: HashMap<K, V, Seeded<$s>> = HashMap::default();
			for x in e { h.insert(x.0.clone(), x.1.clone()); }
			ck(one(concat!("HashMap seed ", $s), &h, &iw)? == h, || "indexed seeded HashMap comes back different".into())?;
		)*};
	}
	seeds!(1 2 3 99);
	#[cfg(feature = "opt")]
	{
		let o: imbl::OrdMap<K, V> = e.iter().cloned().collect();
		ck(enc("imbl::OrdMap", &o)? == want, || format!("imbl::OrdMap filled as {e:?} is not in key order"))?;
		ck(dec::<imbl::OrdMap<K, V>>("imbl::OrdMap", &plain)? == o, || format!("{} as imbl::OrdMap differs", hex(&plain)))?;
		ck(one("imbl::OrdMap", &o, &iw)? == o, || "indexed imbl::OrdMap comes back different".into())?;
		let h: imbl::HashMap<K, V> = e.iter().cloned().collect();
		ck(dec::<imbl::HashMap<K, V>>("imbl::HashMap", &plain)? == h, || format!("{} as imbl::HashMap differs", hex(&plain)))?;
		ck(dec::<BTreeMap<K, V>>("BTreeMap", &enc("imbl::HashMap", &h)?)? == bm, || format!("imbl::HashMap of {asc:?} read as BTreeMap differs"))?;
		ck(one("imbl::HashMap", &h, &iw)? == h, || "indexed imbl::HashMap comes back different".into())?;
	}
	Ok(())
}

/// All sequences of distinct picks of up to `k` of `n` things.
fn perms(n: usize, k: usize, cur: &mut Vec<usize>, f: &mut impl FnMut(&[usize])) {
	f(cur);
	if cur.len() < k {
		for i in 0..n {
			if !cur.contains(&i) {
				cur.push(i);
				perms(n, k, cur, f);
				cur.pop();
			}
		}
	}
}
/// Orders of the first `n` things: rotations, reversals, every transposition.
fn orders(n: usize) -> Vec<Vec<usize>> {
	let base: Vec<usize> = (0..n).collect();
	let mut v = vec![];
	for k in 0..n.max(1) {
		let mut r = base.clone();
		r.rotate_left(k.min(n));
		v.push(r.clone());
		r.reverse();
		v.push(r);
	}
	for i in 0..n {
		for j in i + 1..n {
			let mut r = base.clone();
			r.swap(i, j);
			v.push(r);
		}
	}
	v
}
fn tuples(n: usize, k: usize, cur: &mut Vec<usize>, f: &mut impl FnMut(&[usize])) {
	f(cur);
	if cur.len() < k {
		for i in 0..n {
			cur.push(i);
			tuples(n, k, cur, f);
			cur.pop();
		}
	}
}

fn seqs<T: Elem>(r: &mut Rep) {
	let u = T::universe();
	let go = |r: &mut Rep, i: &[usize]| {
		let e: Vec<T> = i.iter().map(|i| u[*i].clone()).collect();
		r.count(hash(&i));
		if let Err(x) | Ok(Err(x)) = r.guard(|| format!("{e:?}"), || seq(&e)) {
			r.fail("sequence", x)
		}
	};
	let (n, k) = if thorough() { (7.min(u.len()), 6) } else { (6.min(u.len()), 5) };
	tuples(n, k, &mut vec![], &mut |i| go(r, i));
	for n in 6..=u.len() {
		for o in orders(n) {
			go(r, &o)
		}
	}
	// long lists with repetitions, around the table threshold
	for n in 0..40 {
		let o: Vec<usize> = (0..n).map(|i| (i * 5 + i / u.len()) % u.len()).collect();
		go(r, &o)
	}
	r.sample(|| format!("lists of {} over {:?}", T::NAME, u));
}
fn maps<K: Elem, V: Elem>(r: &mut Rep) {
	let (u, w) = (K::universe(), V::universe());
	let go = |r: &mut Rep, i: &[usize]| {
		// values differ from entry to entry but not with the insertion order
		let e: Vec<(K, V)> = i.iter().map(|i| (u[*i].clone(), w[(*i * 7 + 3) % w.len()].clone())).collect();
		r.count(hash(&i));
		if let Err(x) | Ok(Err(x)) = r.guard(|| format!("{e:?}"), || map(&e)) {
			r.fail("map", x)
		}
	};
	let k = if thorough() { 7 } else { 6 };
	perms(k.min(u.len()), k, &mut vec![], &mut |i| go(r, i));
	for n in 6..=u.len() {
		for o in orders(n) {
			go(r, &o)
		}
	}
	if thorough() && u.len() >= 8 {
		perms(8, 8, &mut vec![], &mut |i| {
			if i.len() == 8 {
				go(r, i)
			}
		});
	}
	r.sample(|| format!("maps from {} to {}", K::NAME, V::NAME));
}

/// Contents beyond the node sizes of the tree and hash containers and beyond one-byte lengths, in
/// five insertion orders.
fn large<T: Elem>(r: &mut Rep, of: fn(usize) -> T) {
	let sizes: &[usize] = if thorough() { &[63, 64, 65, 127, 128, 129, 200, 249, 250, 251, 252, 255, 256, 257, 300, 511, 513, 1000, 1025, 2049, 4097, 8193] } else { &[63, 64, 65, 128, 129, 250, 251, 255, 256, 257, 600, 4097] };
	for &n in sizes {
		for (o, step) in [("up", 1), ("down", n - 1), ("thirds", n / 3 * 2 + 1), ("golden", n * 5 / 8 + 1), ("repeats", n / 2 + 1)] {
			let e: Vec<T> = (0..n).map(|i| of(if o == "repeats" { i * step % (n / 2) } else { i * step % n })).collect();
			r.count(hash(&(n, o)));
			if let Err(x) | Ok(Err(x)) = r.guard(|| format!("{n} x {} {o}", T::NAME), || seq(&e)) {
				r.fail("long sequence", format!("{n} x {} {o}: {}", T::NAME, x.chars().take(600).collect::<String>()))
			}
			let mut seen = HashSet::new();
			let m: Vec<(T, u16)> = e.into_iter().filter(|k| seen.insert(k.clone())).map(|k| (k.clone(), hash(&k) as u16)).collect();
			if let Err(x) | Ok(Err(x)) = r.guard(|| format!("map of {n} x {} {o}", T::NAME), || map(&m)) {
				r.fail("long map", format!("{n} x {} {o}: {}", T::NAME, x.chars().take(600).collect::<String>()))
			}
		}
	}
	r.sample(|| format!("long lists and maps of {}", T::NAME));
}

/// Owned, borrowed, boxed and shared forms.
fn forms<T: Elem>(r: &mut Rep) {
	for v in T::universe() {
		r.count(hash(&v));
		let f = || -> Result<(), String> {
			let w = v.put();
			ck(enc("owned", &v)? == w, || format!("{v:?} encodes differently"))?;
			ck(enc("Box", &Box::new(v.clone()))? == w, || format!("Box of {v:?} differs"))?;
			ck(enc("Arc", &Arc::new(v.clone()))? == w, || format!("Arc of {v:?} differs"))?;
			ck(enc("Cow owned", &Cow::<T>::Owned(v.clone()))? == w, || format!("Cow::Owned of {v:?} differs"))?;
			ck(enc("Cow borrowed", &Cow::<T>::Borrowed(&v))? == w, || format!("Cow::Borrowed of {v:?} differs"))?;
			ck(enc("nested", &Box::new(Arc::new(Box::new(v.clone()))))? == w, || format!("nested boxes of {v:?} differ"))?;
			ck(*dec::<Box<T>>("Box", &w)? == v && *dec::<Arc<T>>("Arc", &w)? == v && *dec::<Cow<T>>("Cow", &w)? == v, || format!("{v:?} comes back different from a Box, Arc or Cow"))?;
			let mut o = vec![1];
			o.extend_from_slice(&w);
			ck(enc("Option<Box>", &Some(Box::new(v.clone())))? == o && dec::<Option<Arc<T>>>("Option<Arc>", &o)?.as_deref() == Some(&v), || format!("Option of {v:?} differs"))?;
			ck(enc("Wrapped", &std::cmp::Reverse(v.clone()))? == w, || format!("Reverse of {v:?} differs"))?;
			Ok(())
		};
		if let Err(x) | Ok(Err(x)) = r.guard(|| T::NAME.into(), f) {
			r.fail("form", x)
		}
	}
}
fn strings(r: &mut Rep) {
	for n in (0..300).chain([65535, 65536, 70000]) {
		let s: String = "aé\0😀".chars().cycle().take(n).collect();
		r.count(n as u64);
		let f = || -> Result<(), String> {
			let mut w = vec![];
			put_bytes(&mut w, s.as_bytes());
			ck(enc("String", &s)? == w, || "String".into())?;
			let mut got = vec![];
			s.as_str().serialize_revisioned(&mut got).map_err(|e| e.to_string())?;
			ck(got == w, || "str".into())?;
			ck(enc("Box<str>", &s.clone().into_boxed_str())? == w, || "Box<str>".into())?;
			ck(enc("Arc<str>", &Arc::<str>::from(s.as_str()))? == w, || "Arc<str>".into())?;
			ck(enc("Cow<str>", &Cow::Borrowed(s.as_str()))? == w, || "Cow<str>".into())?;
			ck(enc("Cow<str>", &Cow::<str>::Owned(s.clone()))? == w, || "Cow<str> owned".into())?;
			ck(enc("PathBuf", &std::path::PathBuf::from(&s))? == w, || "PathBuf".into())?;
			ck(&*dec::<Box<str>>("Box<str>", &w)? == s && &*dec::<Arc<str>>("Arc<str>", &w)? == s && dec::<Cow<str>>("Cow<str>", &w)? == s, || "string forms come back different".into())?;
			ck(enc("Vec<u8>", &s.clone().into_bytes())? == w && dec::<Vec<u8>>("Vec<u8>", &w)? == s.as_bytes(), || "Vec<u8> form".into())?;
			#[cfg(feature = "opt")]
			{
				let b = bytes::Bytes::copy_from_slice(s.as_bytes());
				ck(enc("Bytes", &b)? == w && dec::<bytes::Bytes>("Bytes", &w)? == b, || "Bytes form".into())?;
			}
			Ok(())
		};
		if let Err(x) | Ok(Err(x)) = r.guard(|| format!("string of {n}"), f) {
			r.fail("string form", x)
		}
	}
	let _ = from_slice::<u8>(&[0]);
}

fn main() {
	let mut t: Vec<Task> = vec![];
	macro_rules! each { ($($t:ty),*) => {$(
		t.push((format!("lists of {}", <$t>::NAME), Box::new(seqs::<$t>)));
		t.push((format!("forms of {}", <$t>::NAME), Box::new(forms::<$t>)));
	)*} }
	each!(u16, i32, u8, i8, bool, u64, u128, char, String, Option<u16>, (u8, String), Vec<u8>);
	macro_rules! pairs { ($($k:ty => $v:ty),*) => {$( t.push((format!("maps of {} to {}", <$k>::NAME, <$v>::NAME), Box::new(maps::<$k, $v>))); )*} }
	pairs!(u16 => String, i32 => u8, u8 => u16, String => u16, String => String, char => Option<u16>, Option<u16> => Vec<u8>, (u8, String) => i32, Vec<u8> => (u8, String), u64 => bool, u128 => u8);
	t.push(("strings".into(), Box::new(strings)));
	t.push(("long contents of u16".into(), Box::new(|r| large::<u16>(r, |i| (i as u16).wrapping_mul(257)))));
	t.push(("long contents of u64".into(), Box::new(|r| large::<u64>(r, |i| i as u64 * 83))));
	t.push(("long contents of strings".into(), Box::new(|r| large::<String>(r, |i| format!("{:x}", i * 7)))));
	t.push(("long contents of options".into(), Box::new(|r| large::<Option<u16>>(r, |i| i.checked_sub(1).map(|i| i as u16)))));
	run("P20", t)
}
