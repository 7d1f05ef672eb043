//! P16: lookups, hinted lookups and iteration of indexed maps against a plain map of byte strings.
use mc::model::Model;
use mc::rep::*;
use mc::wire::{put_indexed_map, OFFSET_TABLE_MIN_LEN};
use revision::optimised::indexed::IndexedMapEncoded;
use revision::optimised::IndexedMapWalker;
use revision::SkipRevisioned;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;

type Entries = Vec<(Vec<u8>, Vec<u8>)>;

fn e<T>(what: &str, r: Result<T, revision::Error>) -> Result<T, String> {
	r.map_err(|x| format!("{what} failed: {x}"))
}
fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
	if ok {
		Ok(())
	} else {
		Err(what())
	}
}

/// Every question that can be asked of one payload. `keys`: the keys to look for, present or not.
fn ask(r: &mut Rep, payload: &[u8], want: &Entries, keys: &[Vec<u8>], validated: bool) -> Result<(), String> {
	let w: IndexedMapWalker<'_, (), ()> = if validated {
		e("from_payload", IndexedMapWalker::from_payload(payload))?
	} else {
		e("from_payload_unvalidated", IndexedMapWalker::from_payload_unvalidated(payload))?
	};
	let n = want.len();
	ck(w.is_indexed() && w.legacy_body().is_none(), || "not indexed".into())?;
	ck(w.len() == n && w.is_empty() == (n == 0), || format!("len {} of {n}", w.len()))?;
	let got: Vec<(&[u8], &[u8])> = w.entries().unwrap().collect();
	ck(got.len() == n && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && a.1 == b.1), || "entries differ".into())?;
	ck(w.entries().unwrap().count() == n, || "entries differ the second time".into())?;
	let mut hints: Vec<Option<u32>> = vec![None, Some(u32::MAX), Some(u32::MAX / 2)];
	if n <= 40 {
		hints.extend((0..n as u32 + 3).map(Some));
	} else {
		let n = n as u32;
		hints.extend([0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n, n + 1, 255, 256].map(Some));
	}
	for k in keys {
		let at = want.binary_search_by(|x| x.0.cmp(k)).ok();
		let val = at.map(|i| want[i].1.as_slice());
		let mut bad = false;
		let plain = e("find_value_bytes", w.find_value_bytes(|b| {
			bad |= want.binary_search_by(|x| x.0.as_slice().cmp(b)).is_err();
			b.cmp(k)
		}))?;
		ck(!bad, || format!("looking for {}: the predicate saw bytes that are no key", hex(k)))?;
		ck(plain == val, || format!("looking for {}: {:?}, not {:?}", hex(k), plain.map(hex), val.map(hex)))?;
		for h in &hints {
			r.states += 1;
			r.transitions += 1;
			let mut bad = false;
			let got = e("find_value_bytes_with_hint", w.find_value_bytes_with_hint(*h, |b| {
				bad |= want.binary_search_by(|x| x.0.as_slice().cmp(b)).is_err();
				b.cmp(k)
			}))?;
			ck(!bad, || format!("looking for {} with hint {h:?}: the predicate saw bytes that are no key", hex(k)))?;
			ck(got.value == val, || format!("looking for {} with hint {h:?}: {:?}, not {:?}", hex(k), got.value.map(hex), val.map(hex)))?;
			// the hint handed back: the entry found, or else what was passed in
			let next = match at {
				Some(i) => Some(i as u32),
				None => *h,
			};
			ck(got.hint == next, || format!("looking for {} with hint {h:?}: hint {:?} handed back, not {next:?}", hex(k), got.hint))?;
		}
	}
	// chains of three hinted lookups, the hint passed on each time
	let few: Vec<&Vec<u8>> = if keys.len() <= 9 {
		keys.iter().collect()
	} else {
		(0..9).map(|i| &keys[i * (keys.len() - 1) / 8]).collect()
	};
	let vals: Vec<Option<&[u8]>> = few.iter().map(|k| want.binary_search_by(|x| x.0.cmp(k)).ok().map(|i| want[i].1.as_slice())).collect();
	for a in 0..few.len() {
		for b in 0..few.len() {
			for c in 0..few.len() {
				let mut h = None;
				for i in [a, b, c] {
					let got = e("find_value_bytes_with_hint", w.find_value_bytes_with_hint(h, |x| x.cmp(few[i])))?;
					ck(got.value == vals[i], || format!("chain {a},{b},{c}: another answer"))?;
					h = got.hint;
				}
				r.traces += 1;
				r.transitions += 3;
			}
		}
	}
	Ok(())
}

fn one<C, K: Model, V: Model>(r: &mut Rep, entries: &[(K, V)], keys: &[Vec<u8>])
where
	C: IndexedMapEncoded + FromIterator<(K, V)>,
	K: Clone,
	V: Clone,
{
	let c: C = entries.iter().cloned().collect();
	let mut want: Entries = entries.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect();
	want.sort();
	want.dedup_by(|a, b| a.0 == b.0);
	let mut payload = vec![];
	let res = r.guard(String::new, || c.serialize_indexed_map(&mut payload));
	if !matches!(res, Ok(Ok(()))) {
		return r.fail("serialize", format!("{res:?}"));
	}
	let mut reference = vec![];
	put_indexed_map(&mut reference, want.clone());
	if payload != reference {
		return r.fail("bytes", format!("{} entries: wrote {}, not {}", want.len(), hex(&payload), hex(&reference)));
	}
	for validated in [true, false] {
		set(r, &payload, |r| ask(r, &payload, &want, keys, validated));
	}
	// the payload inside more data: decoding and skipping stop exactly at its end
	let mut more = payload.clone();
	more.extend_from_slice(&[0xff, 0, 1, 0xfb, 0xff]);
	set(r, &payload, |r| {
		r.traces += 2;
		let mut rd: &[u8] = &more;
		let back = e("deserialize_indexed_map", C::deserialize_indexed_map(&mut rd))?;
		ck(more.len() - rd.len() == payload.len(), || "decoding stopped elsewhere".into())?;
		let mut again = vec![];
		e("serialize", back.serialize_indexed_map(&mut again))?;
		ck(again == payload, || "the decoded map differs".into())?;
		let mut rd: &[u8] = &more;
		e("skip_indexed_map", C::skip_indexed_map(&mut rd))?;
		ck(more.len() - rd.len() == payload.len(), || "skipping stopped elsewhere".into())
	});
}

fn set(r: &mut Rep, payload: &[u8], f: impl FnOnce(&mut Rep) -> Result<(), String>) {
	let mut inner = Rep::default();
	let res = r.on(payload, || f(&mut inner));
	r.merge(inner);
	match res {
		Err(p) => r.fail("panic", format!("{}: {p}", hex(payload))),
		Ok(Err(m)) => r.fail(m.split([':', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']).next().unwrap_or(""), format!("{}: {m}", hex(payload))),
		_ => {}
	}
}

/// All maps of 8 or more keys out of a universe, then longer ones.
fn maps<C, K: Model + Clone + Ord, V: Model + Clone>(r: &mut Rep)
where
	C: IndexedMapEncoded + FromIterator<(K, V)>,
{
	let t = thorough();
	let mut uni: Vec<K> = vec![];
	for l in [1, 2] {
		for k in K::vals(l) {
			if k.bytes().len() <= 80 && !uni.iter().any(|u| u.same(&k)) {
				uni.push(k)
			}
		}
	}
	let pool = uni.clone();
	let max = if t { 12 } else { 10 };
	if uni.len() > max {
		// spread over the byte order of the keys
		uni.sort_by_key(|k| k.bytes());
		let n = uni.len();
		uni = (0..max).map(|i| uni[i * (n - 1) / (max - 1)].clone()).collect();
	}
	let vals: Vec<V> = V::vals(1).into_iter().filter(|v| v.bytes().len() <= 60).take(14).collect();
	let mut keys: Vec<Vec<u8>> = uni.iter().map(|k| k.bytes()).collect();
	// keys that cannot be there: empty, past the end, an extension and a cut of a real one
	keys.push(vec![]);
	keys.push(vec![0xff; 20]);
	keys.push([keys[uni.len() / 2].clone(), vec![0]].concat());
	keys.push(keys[uni.len() - 1][..keys[uni.len() - 1].len() - 1].to_vec());
	keys.sort();
	keys.dedup();
	for m in 0..1u32 << uni.len() {
		if (m.count_ones() as usize) < OFFSET_TABLE_MIN_LEN {
			continue;
		}
		for shift in [0usize, 3] {
			let mut en: Vec<(K, V)> = (0..uni.len()).filter(|i| m >> i & 1 == 1).map(|i| (uni[i].clone(), vals[(i * (shift + 1) + m as usize + shift) % vals.len()].clone())).collect();
			if shift == 3 {
				en.reverse();
			}
			one::<C, K, V>(r, &en, &keys);
		}
	}
	// every size up to the whole pool
	let mut by = pool;
	by.sort_by_key(|k| k.bytes());
	for n in OFFSET_TABLE_MIN_LEN..=by.len() {
		if n > 40 && n % 16 != 0 && !(249..=257).contains(&n) && n != by.len() {
			continue;
		}
		let en: Vec<(K, V)> = (0..n).map(|i| (by[i * (by.len() - 1) / (n - 1)].clone(), vals[i % vals.len()].clone())).collect();
		let keys: Vec<Vec<u8>> = by.iter().take(600).map(|k| k.bytes()).collect();
		one::<C, K, V>(r, &en, &keys);
	}
	r.sample(|| format!("IndexedMap<{},{}>: all maps of 8 to {} keys, all hints and keys", K::name(), V::name(), uni.len()));
}

fn long<K: Model + SkipRevisioned + Clone + Ord + Hash>(r: &mut Rep, key: fn(u32) -> K) {
	let mut ns = vec![249u32, 250, 251, 252, 256, 257, 1000, 65537, 70000];
	if thorough() {
		ns.extend([65534, 65535, 65536, 131073])
	}
	for n in ns {
		let en: Vec<(K, u32)> = (0..n).map(|i| (key(2 * i), i)).collect();
		let keys: Vec<Vec<u8>> = if n > 1000 {
			// all over, and around the place where a 16-bit index ends
			(0..64).map(|i| i * (2 * n / 64) + i % 2).chain((0..8).map(|i| 2 * n - i)).chain((0..12).map(|i| 131_064 + i)).map(|i| key(i).bytes()).collect()
		} else {
			(0..2 * n).map(|i| key(i).bytes()).collect()
		};
		one::<BTreeMap<K, u32>, K, u32>(r, &en, &keys);
		one::<HashMap<K, u32>, K, u32>(r, &en, &keys);
	}
}

/// Payloads whose offsets need more than 16 bits: in the key region, the value region or both.
fn wide(r: &mut Rep) {
	for n in [OFFSET_TABLE_MIN_LEN, 9, 12] {
		for (kl, vl) in [(8191usize, 1usize), (8192, 3), (1, 8192), (3, 9000), (9000, 9000), (33000, 2), (2, 33000), (65535, 1), (66000, 65536), (1, 70000)] {
			let key = |i: usize| char::from(b'b' + 2 * i as u8).to_string().repeat(kl);
			let en: Vec<(String, Vec<u8>)> = (0..n).map(|i| (key(i), vec![i as u8; vl + i])).collect();
			let mut keys: Vec<Vec<u8>> = en.iter().map(|e| e.0.bytes()).collect();
			keys.extend((0..=n).map(|i| char::from(b'a' + 2 * i as u8).to_string().repeat(kl).bytes()));
			one::<BTreeMap<String, Vec<u8>>, String, Vec<u8>>(r, &en, &keys);
			one::<HashMap<String, Vec<u8>>, String, Vec<u8>>(r, &en, &keys);
		}
	}
	r.sample(|| "indexed maps of up to 1600000 bytes".into());
}

/// Fewer than eight entries: no offset table, and the walker says so.
fn small(r: &mut Rep) {
	for n in 0..OFFSET_TABLE_MIN_LEN {
		let m: BTreeMap<u16, String> = (0..n).map(|i| (i as u16 * 300, "x".repeat(i))).collect();
		let mut p = vec![];
		m.serialize_indexed_map(&mut p).unwrap();
		let mut en: Entries = m.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect();
		en.sort();
		set(r, &p.clone(), |r| {
			r.states += 1;
			r.traces += 1;
			for v in [true, false] {
				let w: IndexedMapWalker<'_, u16, String> = e("from_payload", if v { IndexedMapWalker::from_payload(&p) } else { IndexedMapWalker::from_payload_unvalidated(&p) })?;
				ck(w.len() == n && w.is_empty() == (n == 0) && !w.is_indexed(), || "len or is_indexed wrong".into())?;
				let body: Vec<u8> = en.iter().flat_map(|(k, v)| [k.clone(), v.clone()].concat()).collect();
				ck(w.legacy_body() == Some(&body), || "legacy_body differs".into())?;
				ck(w.entries().is_none(), || "entries without a table".into())?;
			}
			Ok(())
		});
	}
}

fn main() {
	let mut t: Vec<Task> = vec![];
	macro_rules! add { ($($c:ident<$k:ty, $v:ty>),* $(,)?) => { $( t.push((format!("{} {} {}", stringify!($c), <$k>::name(), <$v>::name()), Box::new(|r| maps::<$c<$k, $v>, $k, $v>(r)))); )* } }
	add!(BTreeMap<u8, u8>, BTreeMap<u16, String>, BTreeMap<u32, u64>, BTreeMap<i32, u8>, BTreeMap<String, u32>, BTreeMap<String, String>, BTreeMap<String, Vec<u16>>, BTreeMap<i64, Option<u8>>, BTreeMap<u8, Vec<u8>>, BTreeMap<char, bool>);
	add!(BTreeMap<(u8, u16), String>, BTreeMap<Vec<u8>, u8>, BTreeMap<Option<u16>, u16>, BTreeMap<String, BTreeMap<u8, u8>>, BTreeMap<u128, i128>, BTreeMap<u64, mc::derived::OEnum>, BTreeMap<String, mc::derived::LStruct>);
	add!(HashMap<u8, String>, HashMap<u16, u16>, HashMap<String, u8>, HashMap<i32, Vec<bool>>);
	#[cfg(feature = "opt")]
	{
		type ImOrd<K, V> = imbl::OrdMap<K, V>;
		type ImHash<K, V> = imbl::HashMap<K, V>;
		add!(ImOrd<u16, String>, ImHash<u16, String>, ImOrd<String, u8>, ImHash<i64, u8>, BTreeMap<uuid::Uuid, u8>);
	}
	t.push(("long u32".into(), Box::new(|r| long::<u32>(r, |i| i))));
	t.push(("long String".into(), Box::new(|r| long::<String>(r, |i| format!("k{i}")))));
	t.push(("wide payloads".into(), Box::new(wide)));
	t.push(("below the threshold".into(), Box::new(small)));
	run("P16", t);
}
