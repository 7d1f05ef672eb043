//! P15: key search in walked sorted maps, and byte views, against a plain sorted list.
use mc::model::Model;
use mc::rep::*;
use mc::walk::*;
use mc::wire::put_len;
use revision::*;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::path::PathBuf;
use std::sync::Arc;

const TAIL: [u8; 9] = [0xff, 0, 1, 0xfb, 0xff, 0xff, 0x61, 0xff, 0xff];

/// Sorted maps under test; both iterate in key order.
trait Sorted<K, V>: Model {
	fn make(v: &[(K, V)]) -> Self;
}
impl<K: Ord + Clone, V: Clone> Sorted<K, V> for BTreeMap<K, V>
where
	BTreeMap<K, V>: Model,
{
	fn make(v: &[(K, V)]) -> Self {
		v.iter().cloned().collect()
	}
}
#[cfg(feature = "opt")]
impl<K: Ord + Clone, V: Clone> Sorted<K, V> for imbl::OrdMap<K, V>
where
	imbl::OrdMap<K, V>: Model,
{
	fn make(v: &[(K, V)]) -> Self {
		v.iter().cloned().collect()
	}
}

/// Where the search aims: below everything, at a universe index, between two, above everything.
fn cmp(i: usize, target: usize) -> Ordering {
	// targets are odd positions for universe members, even positions for the gaps
	(2 * i + 1).cmp(&target)
}

#[derive(Clone, Copy, PartialEq)]
enum How {
	Decoded,
	Bytes,
}

type FindBytes<K, V> = for<'r> fn(MapWalker<'r, K, V, &'static [u8]>, &mut dyn FnMut(&[u8]) -> Ordering) -> Result<Option<LeafWalker<'r, V, &'static [u8]>>, Error>;
type ValBytes<V> = for<'r> fn(LeafWalker<'r, V, &'static [u8]>) -> Result<Vec<u8>, Error>;

struct Case<'a, K, V> {
	uni: &'a [K],
	items: &'a [(usize, K, V)],
	data: &'static [u8],
	/// start of every key and value, end of the map
	at: Vec<(usize, usize)>,
	end: usize,
}

/// One search: `pre` entries are consumed first, then the search for `target` runs and its result is used.
fn once<K: Walk + Ord + Debug, V: Walk>(k: &Case<K, V>, c: &mut Chooser, how: How, fb: Option<FindBytes<K, V>>, vb: Option<ValBytes<V>>, pre: usize, target: usize) -> Result<(), String> {
	let mut rd: &'static [u8] = k.data;
	let n = k.items.len();
	let r0: *const &'static [u8] = &rd;
	let mut w: MapWalker<'_, K, V, &'static [u8]> = er("map walker", MapWalker::new(&mut rd))?;
	for j in 0..pre {
		let mut e = w.next_entry().ok_or("no next entry")?;
		match c.pick(0, j, &["decode", "skip", "parts"]) {
			"decode" => {
				let (a, b) = er("decode_pair", e.decode_pair())?;
				ck(a.same(&k.items[j].1) && b.same(&k.items[j].2), "decode_pair gave another pair")?
			}
			"skip" => er("skip_pair", e.skip_pair())?,
			_ => {
				er("skip_key", e.skip_key())?;
				er("skip_value", e.skip_value())?
			}
		}
	}
	let mut seen: Vec<usize> = vec![];
	let mut odd = false;
	let found = match how {
		How::Decoded => w.find(|key| match k.uni.iter().position(|u| u.same(key)) {
			Some(i) => {
				seen.push(i);
				cmp(i, target)
			}
			None => {
				odd = true;
				Ordering::Less
			}
		}),
		How::Bytes => fb.unwrap()(w, &mut |b| match k.uni.iter().position(|u| u.payload().as_deref() == Some(b)) {
			Some(i) => {
				seen.push(i);
				cmp(i, target)
			}
			None => {
				odd = true;
				Ordering::Less
			}
		}),
	};
	let found = er("find", found)?;
	ck(!odd, "the predicate saw a key the map does not hold")?;
	// the specification: keys in order, up to and including the first not below the target
	let rest: Vec<usize> = (pre..n).collect();
	let stop = rest.iter().position(|&j| cmp(k.items[j].0, target) != Ordering::Less);
	let visited: Vec<usize> = rest[..stop.map_or(rest.len(), |s| s + 1)].iter().map(|&j| k.items[j].0).collect();
	ck(seen == visited, &format!("visited keys {seen:?}, not {visited:?}"))?;
	let hit = stop.map(|s| rest[s]).filter(|&j| cmp(k.items[j].0, target) == Ordering::Equal);
	let stands = match (found, hit) {
		(None, None) => k.end,
		(None, Some(_)) => return Err("a present key was not found".into()),
		(Some(_), None) => return Err("an absent key was found".into()),
		(Some(mut leaf), Some(j)) => {
			let (kp, vp) = (k.at[j].1, k.at.get(j + 1).map_or(k.end, |a| a.0));
			ck(k.data.len() - leaf.reader().len() == kp, "the found leaf does not stand at the value")?;
			let mut ops = vec!["decode", "skip", "into_reader", "walk"];
			if vb.is_some() {
				ops.push("with_bytes")
			}
			match c.pick(1, j, &ops) {
				"decode" => {
					ck(er("decode", leaf.decode())?.same(&k.items[j].2), "decode gave another value")?;
					vp
				}
				"skip" => {
					er("skip", leaf.skip())?;
					vp
				}
				"into_reader" => {
					leaf.into_reader();
					kp
				}
				"with_bytes" => {
					ck(Some(er("with_bytes", vb.unwrap()(leaf))?) == k.items[j].2.payload(), "with_bytes showed other bytes")?;
					vp
				}
				_ => {
					let inner = leaf.walk();
					if V::REFUSED {
						ck(inner.is_err(), "a bulk vector was walked into")?;
						kp
					} else {
						match V::go(er("walk", inner)?, &k.items[j].2, c, kp)? {
							Out::Whole => vp,
							Out::At(x) => kp + x,
						}
					}
				}
			}
		}
	};
	let _ = r0;
	let at = k.data.len() - rd.len();
	ck(at == stands, &format!("the reader stands at {at}, not {stands}, of {}", k.end))
}

fn case<'a, M: Sorted<K, V>, K: Walk + Ord + Clone, V: Walk + Clone>(uni: &'a [K], items: &'a [(usize, K, V)]) -> Case<'a, K, V> {
	let m = M::make(&items.iter().map(|x| (x.1.clone(), x.2.clone())).collect::<Vec<_>>());
	let mut data = to_vec(&m).unwrap();
	let mut at = vec![];
	let mut b = vec![];
	put_len(&mut b, items.len());
	for (_, k, v) in items {
		let s = b.len();
		k.enc(&mut b);
		at.push((s, b.len()));
		v.enc(&mut b);
	}
	let end = b.len();
	data.extend_from_slice(&TAIL);
	Case {
		uni,
		items,
		data: Box::leak(data.into_boxed_slice()),
		at,
		end,
	}
}

fn search<M: Sorted<K, V>, K: Walk + Ord + Clone + Debug, V: Walk + Clone>(r: &mut Rep, fb: Option<FindBytes<K, V>>, vb: Option<ValBytes<V>>) {
	let t = thorough();
	let mut uni: Vec<K> = vec![];
	for k in K::vals(1).into_iter().chain(K::vals(0)) {
		if k.bytes().len() <= 60 && !uni.iter().any(|u| u.same(&k)) {
			uni.push(k)
		}
	}
	uni.sort();
	let max = if t { 8 } else { 6 };
	if uni.len() > max {
		let n = uni.len();
		uni = (0..max).map(|i| uni[i * (n - 1) / (max - 1)].clone()).collect();
	}
	let vals: Vec<V> = V::vals(1).into_iter().filter(|v| v.bytes().len() <= 40).take(12).collect();
	let cap = if t { 5_000 } else { 120 };
	for set in 0..1u32 << uni.len() {
		let items: Vec<(usize, K, V)> = (0..uni.len()).filter(|i| set >> i & 1 == 1).map(|i| (i, uni[i].clone(), vals[(i * 5 + set as usize) % vals.len()].clone())).collect();
		let k = case::<M, K, V>(&uni, &items);
		for how in [How::Decoded, How::Bytes] {
			if how == How::Bytes && fb.is_none() {
				continue;
			}
			for pre in 0..=items.len() {
				for target in 0..=2 * uni.len() {
					let mut c = Chooser::default();
					c.all(cap, |c| {
						let res = r.on(k.data, || once(&k, c, how, fb, vb, pre, target));
						match res {
							Err(p) => r.fail("panic", format!("{} skip {pre}, find position {target}, ops {:?}: {p}", hex(k.data), c.log)),
							Ok(Err(m)) => r.fail(m.split([':', '[', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']).next().unwrap_or(""), format!("{} skip {pre}, find position {target}, ops {:?}: {m}", hex(k.data), c.log)),
							Ok(Ok(())) => {}
						}
					});
					r.states += c.states.len() as u64;
					r.transitions += c.transitions;
					r.traces += c.paths;
				}
			}
		}
		// every truncation: found only when the key is whole; never an answer beyond the data
		for cut in 0..k.end {
			let short: &'static [u8] = &k.data[..cut];
			for how in [How::Decoded, How::Bytes] {
				if how == How::Bytes && fb.is_none() {
					continue;
				}
				for target in 0..=2 * uni.len() {
					r.traces += 1;
					r.transitions += 1;
					let res = r.on(short, || -> Result<Option<usize>, ()> {
						let mut rd = short;
						let w: MapWalker<'_, K, V, &'static [u8]> = MapWalker::new(&mut rd).map_err(|_| ())?;
						let f = match how {
							How::Decoded => w.find(|key| uni.iter().position(|u| u.same(key)).map_or(Ordering::Less, |i| cmp(i, target))),
							How::Bytes => fb.unwrap()(w, &mut |b| uni.iter().position(|u| u.payload().as_deref() == Some(b)).map_or(Ordering::Less, |i| cmp(i, target))),
						};
						Ok(f.map_err(|_| ())?.map(|l| cut - l.into_reader().len()))
					});
					let stop = items.iter().position(|x| cmp(x.0, target) != Ordering::Less);
					let hit = stop.filter(|&j| cmp(items[j].0, target) == Ordering::Equal);
					let want = match hit {
						Some(j) if k.at[j].1 <= cut => Ok(Some(k.at[j].1)),
						_ => Err(()),
					};
					match res {
						Err(p) => r.fail("panic", format!("{} cut: {p}", hex(short))),
						Ok(got) if got != want => r.fail("truncated", format!("{} find position {target}: {got:?}, not {want:?}", hex(short))),
						_ => {}
					}
				}
			}
		}
	}
	r.sample(|| format!("{}: all subsets of {} keys, all positions, all uses of the match", M::name(), uni.len()));
}

/// Long maps, so that positions and counts cross the length-prefix boundaries.
fn long(r: &mut Rep) {
	for n in [9usize, 250, 251, 252, 300] {
		let m: BTreeMap<String, u32> = (0..n).map(|i| (format!("k{:05}", i * 2), i as u32 * 77)).collect();
		let data: &'static [u8] = Box::leak(to_vec(&m).unwrap().into_boxed_slice());
		for want in 0..2 * n + 1 {
			let key = format!("k{want:05}");
			for how in [How::Decoded, How::Bytes] {
				r.traces += 1;
				r.states += 1;
				r.transitions += 1;
				let res = r.on(data, || -> Result<(), String> {
					let mut rd = data;
					let w: MapWalker<'_, String, u32, &'static [u8]> = er("map walker", MapWalker::new(&mut rd))?;
					let f = match how {
						How::Decoded => er("find", w.find(|k| k.cmp(&key)))?,
						How::Bytes => er("find_bytes", w.find_bytes(|k| k.cmp(key.as_bytes())))?,
					};
					match f {
						Some(l) => ck(m.get(&key) == Some(&er("decode", l.decode())?), "another value")?,
						None => ck(!m.contains_key(&key) && rd.is_empty(), "not found, or not at the end")?,
					}
					Ok(())
				});
				if !matches!(res, Ok(Ok(()))) {
					r.fail("long map", format!("{n} keys, {key}: {res:?}"));
				}
			}
		}
	}
}

/// Byte views of every length-prefixed type, at every length around the prefix boundaries.
fn views<T: Model + LengthPrefixedBytes + SkipRevisioned>(r: &mut Rep, make: fn(&[u8]) -> T) {
	let mut lens: Vec<usize> = (0..=if thorough() { 3000 } else { 300 }).collect();
	lens.extend([4095, 4096, 65534, 65535, 65536, 65537, 70000]);
	for n in lens {
		let payload: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
		let v = make(&payload);
		let mut data = to_vec(&v).unwrap();
		let len = data.len();
		data.extend_from_slice(&TAIL);
		let pos = |rd: &[u8]| data.len() - rd.len();
		r.states += 1;
		let res = r.on(&data, || -> Result<(), String> {
			let mut rd: &[u8] = &data;
			let mut calls = 0;
			let got = er("with_bytes", LeafWalker::<T, _>::new(&mut rd).with_bytes(|b| {
				calls += 1;
				b == payload
			}))?;
			ck(got && calls == 1, "leaf with_bytes showed other bytes")?;
			ck(pos(rd) == len, "leaf with_bytes left the reader elsewhere")?;
			let mut s = SliceReader::new(&data);
			ck(er("with_bytes", LeafWalker::<T, _>::new(&mut s).with_bytes(|b| b == payload))?, "leaf with_bytes showed other bytes")?;
			ck(s.consumed_len() == len, "leaf with_bytes left the reader elsewhere")?;
			// cut anywhere: an error, and no bytes
			for cut in [0, 1, len / 2, len.saturating_sub(2), len - 1] {
				let mut rd: &[u8] = &data[..cut.min(len - 1)];
				ck(LeafWalker::<T, _>::new(&mut rd).with_bytes(|b| b.len()).is_err(), "with_bytes on a truncated value succeeded")?;
			}
			// three items in a sequence, viewed, skipped and decoded in every combination
			if n <= 300 || n == 65536 {
				let mut q = vec![];
				put_len(&mut q, 3);
				for _ in 0..3 {
					q.extend_from_slice(&data[..len]);
				}
				let end = q.len();
				q.extend_from_slice(&TAIL);
				for code in 0..27u32 {
					let mut rd: &[u8] = &q;
					let mut w = er("seq walker", SeqWalker::<T, _>::new(&mut rd))?;
					for j in 0..3 {
						let it = w.next_item().ok_or("no next item")?;
						match code / 3u32.pow(j) % 3 {
							0 => ck(er("item with_bytes", it.with_bytes(|b| b == payload))?, "item with_bytes showed other bytes")?,
							1 => er("skip", it.skip())?,
							_ => ck(er("decode", it.decode())?.same(&v), "another item")?,
						}
						ck(w.remaining() == 2 - j as usize, "remaining is wrong")?;
					}
					ck(q.len() - rd.len() == end, "the reader is not after the sequence")?;
				}
				// map entries, as keys and as values
				let mut q = vec![];
				put_len(&mut q, 2);
				for _ in 0..2 {
					q.extend_from_slice(&data[..len]);
					q.extend_from_slice(&data[..len]);
				}
				let end = q.len();
				q.extend_from_slice(&TAIL);
				for code in 0..81u32 {
					let mut rd: &[u8] = &q;
					let mut w = er("map walker", MapWalker::<T, T, _>::new(&mut rd))?;
					for j in 0..2 {
						let mut e = w.next_entry().ok_or("no next entry")?;
						match code / 9u32.pow(j) % 3 {
							0 => ck(er("with_key_bytes", e.with_key_bytes(|b| b == payload))?, "with_key_bytes showed other bytes")?,
							1 => er("skip_key", e.skip_key())?,
							_ => ck(er("decode_key", e.decode_key())?.same(&v), "another key")?,
						}
						match code / 9u32.pow(j) / 3 % 3 {
							0 => ck(er("with_value_bytes", e.with_value_bytes(|b| b == payload))?, "with_value_bytes showed other bytes")?,
							1 => er("skip_value", e.skip_value())?,
							_ => ck(er("decode_value", e.decode_value())?.same(&v), "another value")?,
						}
						ck(w.remaining() == 1 - j as usize, "remaining is wrong")?;
					}
					ck(q.len() - rd.len() == end, "the reader is not after the map")?;
				}
			}
			Ok(())
		});
		r.transitions += 5 + 81 + 162;
		r.traces += 5 + 27 + 81;
		match res {
			Err(p) => r.fail("panic", format!("length {n}: {p}")),
			Ok(Err(m)) => r.fail("view", format!("length {n}: {m}")),
			_ => {}
		}
	}
}

fn main() {
	let mut t: Vec<Task> = vec![];
	macro_rules! maps {
		($m:ident: $($k:ty, $v:ty, [$($fb:ident)?], [$($vb:ident)?]);* $(;)?) => { $( maps!(@ $m<$k, $v>, $k, $v, [$($fb)?], [$($vb)?]); )* };
		(@ $t:ty, $k:ty, $v:ty, [$($fb:ident)?], [$($vb:ident)?]) => {
			#[allow(unused_mut, unused_assignments)]
			let mut fb: Option<FindBytes<$k, $v>> = None;
			$( let $fb = (); let _ = $fb; fb = Some(|w, p| w.find_bytes(|b| p(b))); )?
			#[allow(unused_mut, unused_assignments)]
			let mut vb: Option<ValBytes<$v>> = None;
			$( let $vb = (); let _ = $vb; vb = Some(|l| l.with_bytes(|b| b.to_vec())); )?
			t.push((<$t as Model>::name(), Box::new(move |r| search::<$t, $k, $v>(r, fb, vb))));
		};
	}
	maps!(BTreeMap:
		u8, u8, [], []; u16, String, [], [y]; i32, Option<u8>, [], []; String, u16, [y], []; String, String, [y], [y]; String, Vec<u16>, [y], []; Vec<u8>, u8, [y], [];
		(u8, u16), bool, [], []; Option<u8>, u32, [], []; String, BTreeMap<u8, u8>, [y], []; Box<str>, Option<String>, [y], []; Arc<str>, u64, [y], []; PathBuf, u8, [y], [];
		Vec<i8>, i8, [y], []; char, Vec<String>, [], []; bool, String, [], [y]; Vec<String>, (u8, String), [], []; String, Result<u8, u8>, [y], []);
	#[cfg(feature = "opt")]
	{
		use imbl::OrdMap;
		maps!(OrdMap: u8, u16, [], []; String, bool, [y], []);
		maps!(BTreeMap: bytes::Bytes, u16, [y], []);
		maps!(BTreeMap: uuid::Uuid, u8, [], []);
	}
	t.push(("long maps".into(), Box::new(long)));
	fn s(b: &[u8]) -> String {
		String::from_utf8(b.to_vec()).unwrap()
	}
	t.push(("byte views of String".into(), Box::new(|r| views::<String>(r, s))));
	t.push(("byte views of Box<str>".into(), Box::new(|r| views::<Box<str>>(r, |b| s(b).into()))));
	t.push(("byte views of Arc<str>".into(), Box::new(|r| views::<Arc<str>>(r, |b| s(b).into()))));
	t.push(("byte views of Cow<String>".into(), Box::new(|r| views::<Cow<'static, String>>(r, |b| Cow::Owned(s(b))))));
	t.push(("byte views of PathBuf".into(), Box::new(|r| views::<PathBuf>(r, |b| s(b).into()))));
	t.push(("byte views of Vec<u8>".into(), Box::new(|r| views::<Vec<u8>>(r, |b| b.to_vec()))));
	t.push(("byte views of Vec<i8>".into(), Box::new(|r| views::<Vec<i8>>(r, |b| b.iter().map(|x| *x as i8).collect()))));
	#[cfg(feature = "opt")]
	t.push(("byte views of Bytes".into(), Box::new(|r| views::<bytes::Bytes>(r, |b| b.to_vec().into()))));
	run("P15", t);
}
