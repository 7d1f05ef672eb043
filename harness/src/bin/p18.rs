//! P18: every bounded corruption of indexed map, sequence, set and struct payloads, against an
//! independent validator that decides acceptance and the error class.
use mc::model::Model;
use mc::rep::*;
use mc::wire::{put_indexed_map, put_indexed_seq, put_indexed_set};
use revision::optimised::indexed::{IndexedMapEncoded, IndexedMapView, IndexedSeqEncoded, IndexedSeqView, IndexedSetEncoded, IndexedSetView};
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker, IndexedStructWalker};
use revision::*;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Class {
	Range,
	Mono,
	Asc,
	Other,
}
fn class(e: &Error) -> Class {
	match e {
		Error::OptimisedOffsetOutOfRange {
			..
		} => Class::Range,
		Error::OptimisedOffsetsNonMonotonic => Class::Mono,
		Error::OptimisedKeyRegionNotAscending => Class::Asc,
		_ => Class::Other,
	}
}
fn u32at(b: &[u8], i: usize) -> Option<usize> {
	Some(u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?) as usize)
}
/// Flag, count and where the table starts; the count is always in the variable-width form.
fn head(p: &[u8]) -> Option<(bool, u64, usize)> {
	let f = *p.first()? & 1 == 1;
	let (n, l) = match *p.get(1)? {
		t @ 0..=250 => (t as u64, 2),
		251 => (u16::from_le_bytes(p.get(2..4)?.try_into().ok()?) as u64, 4),
		252 => (u32::from_le_bytes(p.get(2..6)?.try_into().ok()?) as u64, 6),
		253 => (u64::from_le_bytes(p.get(2..10)?.try_into().ok()?), 10),
		_ => return None,
	};
	Some((f, n, l))
}
enum Verdict {
	/// accepted, not indexed: the body starts here
	Plain(usize, usize),
	/// accepted: (key range, value range) or (element range, empty) in the payload
	Entries(Vec<(std::ops::Range<usize>, std::ops::Range<usize>)>),
	/// rejected, with one of these classes
	Reject(Vec<Class>),
}
fn ranges(offs: &[usize], from: usize, len: usize, bad: &mut Vec<Class>) -> Vec<std::ops::Range<usize>> {
	if offs.iter().any(|&o| o > len) {
		bad.push(Class::Range)
	}
	if offs.windows(2).any(|w| w[1] <= w[0]) {
		bad.push(Class::Mono)
	}
	if !bad.is_empty() {
		return vec![];
	}
	(0..offs.len()).map(|i| from + offs[i]..from + offs.get(i + 1).copied().unwrap_or(len)).collect()
}
fn judge_map(p: &[u8]) -> Verdict {
	let Some((indexed, n, at)) = head(p) else {
		return Verdict::Reject(vec![Class::Other]);
	};
	if !indexed {
		return Verdict::Plain(n as usize, at);
	}
	let left = (p.len() - at) as u64;
	let Some(table) = n.checked_mul(8).filter(|&t| t <= left) else {
		return Verdict::Reject(vec![Class::Other]);
	};
	let (n, r) = (n as usize, at + table as usize);
	let (Some(kl), Some(vl)) = (u32at(p, r), u32at(p, r + 4)) else {
		return Verdict::Reject(vec![Class::Other]);
	};
	let (k0, v0) = (r + 8, r + 8 + kl);
	if v0 + vl > p.len() {
		return Verdict::Reject(vec![Class::Other]);
	}
	let ko: Vec<usize> = (0..n).map(|i| u32at(p, at + i * 8).unwrap()).collect();
	let vo: Vec<usize> = (0..n).map(|i| u32at(p, at + i * 8 + 4).unwrap()).collect();
	let mut bad = vec![];
	let mut badv = vec![];
	let kr = ranges(&ko, k0, kl, &mut bad);
	let vr = ranges(&vo, v0, vl, &mut badv);
	if bad.is_empty() && kr.windows(2).any(|w| p[w[1].clone()] <= p[w[0].clone()]) {
		bad.push(Class::Asc)
	}
	bad.extend(badv);
	if bad.is_empty() {
		Verdict::Entries(kr.into_iter().zip(vr).collect())
	} else {
		Verdict::Reject(bad)
	}
}
fn judge_seq(p: &[u8]) -> Verdict {
	let Some((indexed, n, at)) = head(p) else {
		return Verdict::Reject(vec![Class::Other]);
	};
	if !indexed {
		return Verdict::Plain(n as usize, at);
	}
	let left = (p.len() - at) as u64;
	let Some(table) = n.checked_mul(4).filter(|&t| t <= left) else {
		return Verdict::Reject(vec![Class::Other]);
	};
	let (n, r) = (n as usize, at + table as usize);
	let o: Vec<usize> = (0..n).map(|i| u32at(p, at + i * 4).unwrap()).collect();
	let mut bad = vec![];
	let er = ranges(&o, r, p.len() - r, &mut bad);
	if bad.is_empty() {
		Verdict::Entries(er.into_iter().map(|e| (e, 0..0)).collect())
	} else {
		Verdict::Reject(bad)
	}
}
fn judge_struct(p: &[u8], n: usize) -> Verdict {
	if p.len() < n * 4 {
		return Verdict::Reject(vec![Class::Other]);
	}
	let o: Vec<usize> = (0..n).map(|i| u32at(p, i * 4).unwrap()).collect();
	let mut bad = vec![];
	if o.first().is_some_and(|&f| f < n * 4) {
		bad.push(Class::Range)
	}
	let er = ranges(&o, 0, p.len(), &mut bad);
	if bad.is_empty() {
		Verdict::Entries(er.into_iter().map(|e| (e, 0..0)).collect())
	} else {
		Verdict::Reject(bad)
	}
}

fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
	if ok {
		Ok(())
	} else {
		Err(what())
	}
}
fn rejected<T>(r: Result<T, Error>, bad: &[Class]) -> Result<(), String> {
	match r {
		Ok(_) => Err(format!("accepted although {bad:?}")),
		Err(e) => ck(bad.contains(&class(&e)) || bad == [Class::Other], || format!("rejected with `{e}`, expected one of {bad:?}")),
	}
}

fn map_walker(p: &[u8]) -> Result<(), String> {
	let verdict = judge_map(p);
	let view = IndexedMapView::<u8, u8>::new(Cow::Borrowed(p));
	for w in [IndexedMapWalker::<u8, u8>::from_payload(p), view.walker()] {
		match (&verdict, w) {
			(Verdict::Reject(bad), w) => rejected(w, bad)?,
			(_, Err(e)) => return Err(format!("refused: {e}")),
			(Verdict::Plain(n, at), Ok(w)) => {
				ck(w.len() == *n && w.is_empty() == (*n == 0) && !w.is_indexed() && w.entries().is_none(), || "plain walker".into())?;
				ck(w.legacy_body() == Some(&p[*at..]), || "plain body".into())?;
				// no table to search: must not panic
				let _ = w.find_value_bytes(|_| Ordering::Equal);
				let _ = w.find_value_bytes_with_hint(Some(3), |_| Ordering::Equal);
			}
			(Verdict::Entries(es), Ok(w)) => {
				let n = es.len();
				ck(w.len() == n && w.is_empty() == (n == 0) && w.is_indexed(), || "walker length".into())?;
				let got: Vec<(&[u8], &[u8])> = w.entries().ok_or("no entries")?.collect();
				ck(got.len() == n, || "entry count".into())?;
				for (i, (k, v)) in es.iter().enumerate() {
					ck(got[i] == (&p[k.clone()], &p[v.clone()]), || format!("entry {i} differs"))?;
					let f = w.find_value_bytes(|x| x.cmp(&p[k.clone()])).map_err(|e| format!("find: {e}"))?;
					ck(f == Some(&p[v.clone()]), || format!("find entry {i} differs"))?;
					for h in [None, Some(0), Some(i as u32), Some(n as u32 - 1), Some(n as u32), Some(u32::MAX)] {
						let f = w.find_value_bytes_with_hint(h, |x| x.cmp(&p[k.clone()])).map_err(|e| format!("hinted find: {e}"))?;
						ck(f.value == Some(&p[v.clone()]), || format!("hinted find entry {i} differs"))?;
					}
				}
				for (o, q) in [(Ordering::Less, "all less"), (Ordering::Greater, "all greater")] {
					ck(w.find_value_bytes(|_| o).map_err(|e| format!("{q}: {e}"))?.is_none(), || format!("{q} found something"))?;
					ck(w.find_value_bytes_with_hint(Some(1), |_| o).map_err(|e| format!("{q}: {e}"))?.value.is_none(), || format!("{q} found something"))?;
				}
			}
		}
	}
	Ok(())
}
fn seq_access<T>(p: &[u8], verdict: &Verdict, w: Result<IndexedSeqWalker<'_, T>, Error>) -> Result<(), String> {
	match (verdict, w) {
		(Verdict::Reject(bad), w) => rejected(w, bad),
		(_, Err(e)) => Err(format!("refused: {e}")),
		(Verdict::Plain(n, at), Ok(w)) => {
			ck(w.len() == *n && !w.is_indexed() && w.body() == &p[*at..], || "plain walker".into())?;
			ck(w.element_bytes(0).is_err() && w.element_bytes(usize::MAX).is_err(), || "element served without a table".into())
		}
		(Verdict::Entries(es), Ok(w)) => {
			ck(w.len() == es.len() && w.is_indexed(), || "walker length".into())?;
			for (i, (k, _)) in es.iter().enumerate() {
				ck(w.element_bytes(i).map_err(|e| format!("element: {e}"))? == &p[k.clone()], || format!("element {i} differs"))?;
			}
			for i in [es.len(), es.len() + 1, usize::MAX] {
				ck(w.element_bytes(i).is_err(), || "element out of range served".into())?
			}
			Ok(())
		}
	}
}
fn seq_walker(p: &[u8]) -> Result<(), String> {
	let v = judge_seq(p);
	seq_access(p, &v, IndexedSeqWalker::<u8>::from_payload(p))?;
	seq_access(p, &v, IndexedSeqView::<u8>::new(Cow::Borrowed(p)).walker())?;
	seq_access(p, &v, IndexedSetView::<u8>::new(Cow::Borrowed(p)).walker())
}
fn struct_walker(p: &[u8], n: u16) -> Result<(), String> {
	match (judge_struct(p, n as usize), IndexedStructWalker::from_payload(p, 1, n)) {
		(Verdict::Reject(bad), w) => rejected(w, &bad),
		(_, Err(e)) => Err(format!("refused: {e}")),
		(Verdict::Entries(es), Ok(w)) => {
			for (i, (k, _)) in es.iter().enumerate() {
				ck(w.field_bytes(i as u16).map_err(|e| format!("field: {e}"))? == &p[k.clone()], || format!("field {i} differs"))?;
				let _ = w.decode_field::<(u8, Option<char>)>(i as u16);
				let _ = w.decode_field::<u64>(i as u16);
				w.skip_field(i as u16).map_err(|e| format!("skip_field: {e}"))?;
			}
			for i in [n, n.saturating_add(1), u16::MAX] {
				ck(w.field_bytes(i).is_err() && w.decode_field::<u8>(i).is_err(), || "field out of range served".into())?
			}
			Ok(())
		}
		_ => unreachable!(),
	}
}

/// All corruptions of one payload: single bytes, 32-bit slots at `slots` (singly and in pairs),
/// truncations, extensions, insertions, deletions, swaps.
fn corrupt(r: &mut Rep, base: &[u8], slots: &[usize], f: &dyn Fn(&mut Rep, &[u8])) {
	f(r, base);
	let mut b = base.to_vec();
	for i in 0..base.len() {
		for x in 0..=255u8 {
			if x != base[i] {
				b[i] = x;
				f(r, &b);
			}
		}
		b[i] = base[i];
	}
	let put = |b: &mut [u8], at: usize, v: u32| b[at..at + 4].copy_from_slice(&v.to_le_bytes());
	let old: Vec<u32> = slots.iter().map(|&s| u32at(base, s).unwrap() as u32).collect();
	let len = base.len() as u32;
	let mut edges: Vec<u32> = vec![0, 1, 2, 255, 256, 65535, 65536, len.wrapping_sub(1), len, len + 1, i32::MAX as u32, 1 << 31, u32::MAX - 7, u32::MAX - 1, u32::MAX];
	for &o in &old {
		edges.extend([o, o.wrapping_sub(1), o + 1])
	}
	edges.sort();
	edges.dedup();
	for &s in slots {
		for &v in &edges {
			put(&mut b, s, v);
			f(r, &b);
		}
		b[s..s + 4].copy_from_slice(&base[s..s + 4]);
	}
	let small: Vec<u32> = if thorough() { edges.clone() } else { edges.iter().copied().filter(|e| old.contains(e) || [0, 1, len, u32::MAX, 1 << 31].contains(e)).collect() };
	for (i, &s) in slots.iter().enumerate() {
		for &t in &slots[i + 1..] {
			for &v in &small {
				put(&mut b, s, v);
				for &w in &small {
					put(&mut b, t, w);
					f(r, &b);
				}
			}
			b[t..t + 4].copy_from_slice(&base[t..t + 4]);
		}
		b[s..s + 4].copy_from_slice(&base[s..s + 4]);
	}
	if thorough() {
		// runs of three neighbouring slots
		for w in slots.windows(3) {
			let tiny: Vec<u32> = old.iter().copied().chain([0, len, u32::MAX]).collect();
			for &x in &tiny {
				for &y in &tiny {
					for &z in &tiny {
						put(&mut b, w[0], x);
						put(&mut b, w[1], y);
						put(&mut b, w[2], z);
						f(r, &b);
					}
				}
			}
			b.copy_from_slice(base);
		}
	}
	for n in 0..base.len() {
		f(r, &base[..n]);
		let mut d = base.to_vec();
		d.remove(n);
		f(r, &d);
		for x in [0, 1, 0xff] {
			let mut d = base.to_vec();
			d.insert(n, x);
			f(r, &d);
		}
		for m in n + 1..base.len() {
			let mut d = base.to_vec();
			d.swap(n, m);
			f(r, &d);
		}
	}
	for e in [&[0][..], &[0xff], &[0; 4], &[0xff; 4], &[1; 9]] {
		f(r, &[base, e].concat());
	}
}
fn check(r: &mut Rep, id: u64, p: &[u8], f: impl FnOnce() -> Result<(), String>) {
	r.count(hash(&(id, p)));
	match r.on(p, f) {
		Err(m) => r.fail("panic", format!("{}: {m}", hex(p))),
		Ok(Err(m)) => r.fail(m.split([':', '`', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '[']).next().unwrap_or(""), format!("{}: {m}", hex(p))),
		_ => {}
	}
}
fn counts() -> Vec<usize> {
	if thorough() {
		vec![8, 9, 12, 17]
	} else {
		vec![8, 11]
	}
}
/// Replaces the count by every form of an edge count.
fn recount(r: &mut Rep, base: &[u8], f: &dyn Fn(&mut Rep, &[u8])) {
	let (_, n, at) = head(base).unwrap();
	let mut heads: Vec<Vec<u8>> = vec![];
	for v in (0..=n + 3).chain([250, 65535]) {
		heads.push([&[251][..], &(v as u16).to_le_bytes()].concat())
	}
	for v in (0..=n + 3).chain([250, 65536, u32::MAX as u64, 1 << 29, 1 << 30, 1 << 31]) {
		heads.push([&[252][..], &(v as u32).to_le_bytes()].concat())
	}
	for v in (0..=n + 3).chain([250, 1 << 32, 1 << 60, 1 << 61, 1 << 62, 1 << 63, u64::MAX, u64::MAX / 8, u64::MAX / 8 + 1, u64::MAX / 4, u64::MAX / 4 + 1, (u64::MAX - 8) / 8]) {
		heads.push([&[253][..], &v.to_le_bytes()].concat())
	}
	for flag in [0u8, 1, 2, 3, 0x81, 0xff] {
		for h in &heads {
			f(r, &[&[flag], &h[..], &base[at..]].concat());
		}
	}
}

fn maps<C: IndexedMapEncoded>(r: &mut Rep, es: impl Fn(usize) -> Vec<(Vec<u8>, Vec<u8>)>) {
	// tables of every small size too: the layout allows them although the encoder omits them
	for n in (0..=3).chain(counts()) {
		let mut base = vec![];
		let mut e = es(n);
		e.sort();
		if n < 8 {
			base.extend([1, n as u8]);
			let (mut k, mut v) = (vec![], vec![]);
			for (a, b) in &e {
				base.extend((k.len() as u32).to_le_bytes());
				base.extend((v.len() as u32).to_le_bytes());
				k.extend_from_slice(a);
				v.extend_from_slice(b);
			}
			base.extend((k.len() as u32).to_le_bytes());
			base.extend((v.len() as u32).to_le_bytes());
			base.extend(k);
			base.extend(v);
		} else {
			put_indexed_map(&mut base, e);
		}
		let at = head(&base).unwrap().2;
		let slots: Vec<usize> = (0..n * 2 + 2).map(|i| at + i * 4).collect();
		let one = |r: &mut Rep, p: &[u8]| {
			check(r, 1, p, || map_walker(p));
			check(r, 2, p, || {
				let mut rd = p;
				let _ = C::deserialize_indexed_map(&mut rd);
				let mut rd = p;
				let _ = C::skip_indexed_map(&mut rd);
				Ok(())
			});
		};
		corrupt(r, &base, &slots, &one);
		recount(r, &base, &one);
		r.sample(|| format!("map payload {} and all its corruptions", hex(&base)));
	}
}
fn seqs(r: &mut Rep, set: bool, es: impl Fn(usize) -> Vec<Vec<u8>>, consume: &dyn Fn(&[u8])) {
	for n in (0..=3).chain(counts()) {
		let mut base = vec![];
		let mut e = es(n);
		if n < 8 {
			base.extend([1, n as u8]);
			let mut off = 0u32;
			for x in &e {
				base.extend(off.to_le_bytes());
				off += x.len() as u32;
			}
			base.extend(e.concat());
		} else if set {
			e.sort();
			put_indexed_set(&mut base, e);
		} else {
			put_indexed_seq(&mut base, &e);
		}
		let at = head(&base).unwrap().2;
		let slots: Vec<usize> = (0..n).map(|i| at + i * 4).collect();
		let one = |r: &mut Rep, p: &[u8]| {
			check(r, 3, p, || seq_walker(p));
			check(r, 4, p, || {
				consume(p);
				Ok(())
			});
		};
		corrupt(r, &base, &slots, &one);
		recount(r, &base, &one);
		r.sample(|| format!("sequence payload {} and all its corruptions", hex(&base)));
	}
}
fn structs(r: &mut Rep) {
	for n in 0..=if thorough() { 7 } else { 5 } {
		for lens in [[1usize; 7], [2, 1, 5, 1, 3, 1, 1], [9, 1, 1, 2, 4, 1, 2]] {
			let mut base = vec![];
			let mut off = n as u32 * 4;
			for l in &lens[..n] {
				base.extend(off.to_le_bytes());
				off += *l as u32;
			}
			for (i, l) in lens[..n].iter().enumerate() {
				base.extend((0..*l).map(|j| (i * 16 + j) as u8))
			}
			let slots: Vec<usize> = (0..n).map(|i| i * 4).collect();
			corrupt(r, &base, &slots, &|r, p| {
				for c in [n as u16, n as u16 + 1, n.saturating_sub(1) as u16, 300, u16::MAX] {
					check(r, 5 + c as u64, p, || struct_walker(p, c));
				}
			});
		}
	}
}

/// Larger tables, one damage at every place: an offset moved to, before or past its neighbours or the
/// end, two neighbouring offsets exchanged, a key made equal to or greater than its successor.
fn larger_sizes() -> Vec<usize> {
	if thorough() {
		vec![66_000, 16, 17, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 250, 251, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]
	} else {
		vec![66_000, 257, 17, 33, 65, 129]
	}
}
fn larger(r: &mut Rep, n: usize, two: bool) {
	let at: Vec<usize> = if n < 2000 { (0..n).collect() } else { vec![1, 65_535, 65_536, n - 1] };
	// keys of five or six bytes, values of one to five
	let es: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|i| ([&(i as u32 * 2 + 1).to_be_bytes()[..], if two && i % 3 == 0 { &[1, 7] } else { &[1] }].concat(), vec![i as u8; if two { 1 + i % 5 } else { 1 }])).collect();
	let (mut m, mut q, mut st) = (vec![], vec![], vec![]);
	put_indexed_map(&mut m, es.clone());
	put_indexed_seq(&mut q, &es.iter().map(|e| e.1.clone()).collect::<Vec<_>>());
	let mut off = n as u32 * 4;
	for e in &es {
		st.extend(off.to_le_bytes());
		off += e.0.len() as u32;
	}
	st.extend(es.iter().flat_map(|e| e.0.clone()));
	let damage = |r: &mut Rep, base: &[u8], table: usize, step: usize, end: u32, f: &dyn Fn(&mut Rep, &[u8])| {
		f(r, base);
		let mut b = base.to_vec();
		let get = |i: usize| u32at(base, table + i * step).unwrap() as u32;
		for &i in &at {
			let s = table + i * step;
			let (prev, next) = (if i > 0 { get(i - 1) } else { 0 }, if i + 1 < n { get(i + 1) } else { end });
			let o = get(i);
			for v in [u32::MAX, prev, prev.wrapping_sub(1), prev + 1, next, next + 1, next.wrapping_sub(1), o + 1, o.wrapping_sub(1), end, end + 1, 0, 1 << 16, 1 << 31, o + (1 << 16), o ^ (1 << 8)].into_iter().take(if n < 2000 { 99 } else { 2 }) {
				b[s..s + 4].copy_from_slice(&v.to_le_bytes());
				f(r, &b);
			}
			b[s..s + 4].copy_from_slice(&base[s..s + 4]);
			if i + 1 < n {
				b[s..s + 4].copy_from_slice(&next.to_le_bytes());
				b[s + step..s + step + 4].copy_from_slice(&o.to_le_bytes());
				f(r, &b);
				b[s..s + 4].copy_from_slice(&base[s..s + 4]);
				b[s + step..s + step + 4].copy_from_slice(&base[s + step..s + step + 4]);
			}
		}
	};
	let map = |r: &mut Rep, p: &[u8]| {
		check(r, 20, p, || map_walker(p));
		check(r, 21, p, || {
			let _ = BTreeMap::<[u8; 5], u8>::deserialize_indexed_map(&mut &p[..]);
			let _ = BTreeMap::<[u8; 5], u8>::skip_indexed_map(&mut &p[..]);
			Ok(())
		});
	};
	let t = head(&m).unwrap().2;
	let (kl, vl) = (u32at(&m, t + n * 8).unwrap() as u32, u32at(&m, t + n * 8 + 4).unwrap() as u32);
	damage(r, &m, t, 8, kl, &map);
	damage(r, &m, t + 4, 8, vl, &map);
	let keys = t + n * 8 + 8;
	let mut b = m.clone();
	for &i in &at {
		let k = keys + u32at(&m, t + i * 8).unwrap();
		let prev = (i > 0).then(|| keys + u32at(&m, t + (i - 1) * 8).unwrap());
		for j in 0..if n < 2000 { 5 } else { 0 } {
			for x in [0, 1, 0xff, m[k + j] ^ 1, m[k + j].wrapping_sub(2), m[k + j].wrapping_add(2), prev.map_or(0, |p| m[p + j])] {
				b[k + j] = x;
				map(r, &b);
			}
			b[k + j] = m[k + j];
		}
		if let Some(p) = prev {
			b[k..k + 5].copy_from_slice(&m[p..p + 5]);
			map(r, &b);
			b[k..k + 5].copy_from_slice(&m[k..k + 5]);
		}
	}
	let t = head(&q).unwrap().2;
	let end = (q.len() - t - n * 4) as u32;
	damage(r, &q, t, 4, end, &|r, p| {
		check(r, 22, p, || seq_walker(p));
		check(r, 23, p, || {
			let _ = Vec::<u8>::deserialize_indexed_seq(&mut &p[..]);
			let _ = Vec::<u8>::skip_indexed_seq(&mut &p[..]);
			let _ = BTreeSet::<u8>::deserialize_indexed_set(&mut &p[..]);
			Ok(())
		});
	});
	if n < 65_536 {
		damage(r, &st, 0, 4, st.len() as u32, &|r, p| check(r, 24, p, || struct_walker(p, n as u16)));
	}
	r.sample(|| format!("tables of {n} entries, one damage at every place"));
}

/// Every assignment of `n` slots from `dom`.
fn assign(n: usize, dom: &[u32], f: &mut dyn FnMut(&[u32])) {
	let mut at = vec![0usize; n];
	loop {
		let v: Vec<u32> = at.iter().map(|&i| dom[i]).collect();
		f(&v);
		let Some(i) = at.iter().rposition(|&i| i + 1 < dom.len()) else { return };
		at[i] += 1;
		at[i + 1..].fill(0);
	}
}
fn le(v: &[u32]) -> Vec<u8> {
	v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
/// All tables of a few entries over bodies of a few bytes: every offset up to two past the end, and
/// the largest ones; both region lengths of maps; every content of the key region over two values.
fn tables(r: &mut Rep) {
	let far = [u32::MAX, 1 << 31, u32::MAX - 3];
	let (deep, wide) = if thorough() { (4, 5) } else { (3, 4) };
	for n in 0..=deep {
		for body in 0..=wide {
			let dom: Vec<u32> = (0..=body as u32 + 2).chain(far).collect();
			let tail: Vec<u8> = (0..body as u8).map(|i| 0x41 + i).collect();
			assign(n, &dom, &mut |o| {
				let p = [&[1, n as u8][..], &le(o), &tail].concat();
				check(r, 3, &p, || seq_walker(&p));
			});
			let dom: Vec<u32> = (0..=(n * 4 + body) as u32 + 2).chain(far).collect();
			if n < 4 {
				assign(n, &dom, &mut |o| {
					let p = [&le(o)[..], &tail].concat();
					check(r, 5 + n as u64, &p, || struct_walker(&p, n as u16));
				});
			}
		}
	}
	// maps: offsets and region lengths, then the bytes of the key region
	for n in 0..=2 {
		for keys in 0..=2u32 {
			for vals in 0..=2u32 {
				let (kd, vd): (Vec<u32>, Vec<u32>) = ((0..=keys + 1).chain([u32::MAX]).collect(), (0..=vals + 1).chain([u32::MAX]).collect());
				assign(n, &kd, &mut |ko| {
					assign(n, &vd, &mut |vo| {
						for (kl, vl) in [(keys, vals), (keys + 1, vals), (keys, vals + 1), (keys + vals, 0), (0, keys + vals), (u32::MAX, vals), (keys, u32::MAX), (u32::MAX, u32::MAX)] {
							for kb in 0..1u32 << keys {
								let mut p = vec![1, n as u8];
								for i in 0..n {
									p.extend(le(&[ko[i], vo[i]]))
								}
								p.extend(le(&[kl, vl]));
								p.extend((0..keys).map(|i| 7 + (kb >> i & 1) as u8));
								p.extend((0..vals).map(|i| 0x51 + i as u8));
								check(r, 1, &p, || map_walker(&p));
							}
						}
					})
				});
			}
		}
	}
	// the order of the keys: every split of every key region over two values into three or four keys
	for n in 3..=if thorough() { 5 } else { 4 } {
		for keys in n as u32..=n as u32 + 2 {
			let dom: Vec<u32> = (0..=keys).collect();
			assign(n, &dom, &mut |ko| {
				if ko[0] > 1 || ko.windows(2).any(|w| w[1] < w[0]) {
					return;
				}
				for kb in 0..1u32 << keys {
					let mut p = vec![1, n as u8];
					for i in 0..n {
						p.extend(le(&[ko[i], i as u32]))
					}
					p.extend(le(&[keys, n as u32]));
					p.extend((0..keys).map(|i| 7 + (kb >> i & 1) as u8));
					p.extend((0..n).map(|i| 0x51 + i as u8));
					check(r, 1, &p, || map_walker(&p));
				}
			});
		}
	}
	r.sample(|| "every small offset table".into());
}

/// The generated walkers over corrupted field-indexed payloads: no panic, and every byte view is
/// the range its two offsets name.
macro_rules! generated {
	($f:ident, $t:ty, $vals:expr, $n:expr, $(($i:expr, $dec:ident, $skip:ident, $walk:ident, $into:ident, $bytes:ident)),*) => {
		fn $f(r: &mut Rep) {
			for v in $vals().iter() {
				let base = to_vec(v).unwrap();
				if base.len() > 400 {
					continue;
				}
				// header, then u32 payload length, then the table
				let at = base.len() - u32at(&base, if cfg!(feature = "fixed") { 2 } else { 1 }).unwrap();
				let slots: Vec<usize> = (0..=$n).map(|i| at - 4 + i * 4).collect();
				corrupt(r, &base, &slots, &|r, p| {
					check(r, 9, p, || {
						let _ = from_slice::<$t>(p);
						let _ = skip_slice::<$t>(p);
						let _ = skip_reader::<$t, _>(&mut &p[..]);
						let mut rd = p;
						let Ok(mut w) = <$t>::walk_revisioned(&mut rd) else { return Ok(()) };
						$( let _ = w.$dec(); let _ = w.$skip(); drop(w.$walk()); )*
						drop(w);
						$(
							let mut rd = p;
							let w = <$t>::walk_revisioned(&mut rd).map_err(|e| format!("second walk refused: {e}"))?;
							drop(w.$into());
							let mut rd = p;
							let w = <$t>::walk_revisioned(&mut rd).map_err(|e| format!("second walk refused: {e}"))?;
							if let Ok(b) = w.$bytes() {
								let len = u32at(p, at - 4).unwrap();
								let pl = &p[at..at + len];
								let s = u32at(pl, $i * 4).ok_or("bytes served from a short table")?;
								let e = if $i + 1 < $n { u32at(pl, $i * 4 + 4).ok_or("bytes served from a short table")? } else { pl.len() };
								ck(s <= e && e <= pl.len() && *b == pl[s..e], || format!("bytes of field {} are not {s}..{e} of the payload", $i))?;
							}
						)*
						Ok(())
					});
				});
			}
		}
	};
}
// Element types without legacy length prefixes: what those allocate for a damaged length is
// documented behaviour of the legacy format and not judged here.
#[revisioned(revision(1, optimised, indexed_struct))]
#[derive(Clone, Debug, PartialEq)]
struct Fields {
	a: u16,
	b: Option<u32>,
	c: char,
	d: (u8, i64),
}
#[revisioned(revision(1, optimised, indexed_struct))]
#[derive(Clone, Debug, PartialEq)]
struct Compounds {
	#[revision(indexed_map)]
	m: BTreeMap<u8, char>,
	x: u8,
	#[revision(indexed_seq)]
	s: Vec<u16>,
	#[revision(indexed_set)]
	t: BTreeSet<char>,
}
const CH: [char; 20] = ['\0', 'a', 'b', 'z', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', 'c', 'd', 'e'];
fn fields() -> Vec<Fields> {
	let mut o = vec![];
	for a in [0u16, 250, 251, 65535] {
		for b in [None, Some(0), Some(u32::MAX)] {
			o.push(Fields { a, b, c: CH[o.len() % 17], d: (a as u8, -(a as i64) * 1000003) })
		}
	}
	o
}
fn compounds() -> Vec<Compounds> {
	[(0, 0, 0), (8, 8, 8), (9, 3, 8), (2, 10, 1), (8, 0, 9)]
		.iter()
		.map(|&(m, s, t)| Compounds {
			m: (0..m).map(|i| (i as u8 * 3, CH[i])).collect(),
			x: 9,
			s: (0..s).map(|i| i as u16 * 99).collect(),
			t: CH[..t].iter().copied().collect(),
		})
		.collect()
}
generated!(gen_indexed, Fields, fields, 4, (0, decode_a, skip_a, walk_a, into_walk_a, into_a_bytes), (1, decode_b, skip_b, walk_b, into_walk_b, into_b_bytes), (2, decode_c, skip_c, walk_c, into_walk_c, into_c_bytes), (3, decode_d, skip_d, walk_d, into_walk_d, into_d_bytes));
generated!(gen_maps, Compounds, compounds, 4, (0, decode_m, skip_m, walk_m, into_walk_m, into_m_bytes), (1, decode_x, skip_x, walk_x, into_walk_x, into_x_bytes), (2, decode_s, skip_s, walk_s, into_walk_s, into_s_bytes), (3, decode_t, skip_t, walk_t, into_walk_t, into_t_bytes));

/// Payloads of a few bytes: every word over the interesting bytes, and every kind of count cut off at
/// every place.
fn short(r: &mut Rep) {
	let mut go = |r: &mut Rep, p: &[u8]| {
		check(r, 1, p, || map_walker(p));
		check(r, 3, p, || seq_walker(p));
		for n in 0..4 {
			check(r, 5 + n as u64, p, || struct_walker(p, n));
		}
		check(r, 2, p, || {
			for k in 0..2 {
				let mut rd = p;
				let _ = if k == 0 { BTreeMap::<u8, char>::deserialize_indexed_map(&mut rd).map(|_| ()) } else { BTreeMap::<u8, char>::skip_indexed_map(&mut rd) };
				let mut rd = p;
				let _ = if k == 0 { Vec::<u16>::deserialize_indexed_seq(&mut rd).map(|_| ()) } else { Vec::<u16>::skip_indexed_seq(&mut rd) };
				let mut rd = p;
				let _ = if k == 0 { BTreeSet::<u8>::deserialize_indexed_set(&mut rd).map(|_| ()) } else { BTreeSet::<u8>::skip_indexed_set(&mut rd) };
			}
			Ok(())
		});
	};
	let alpha = [0u8, 1, 2, 4, 8, 250, 251, 252, 253, 254, 255];
	for n in 0..=if thorough() { 6 } else { 5 } {
		let k = if n < 5 { alpha.len() } else { 9 };
		mc::bytesgen::words(&alpha[alpha.len() - k..], n, &mut |p| go(r, p));
	}
	for flags in [0u8, 1, 2, 0x80, 0xff] {
		for (tag, width) in [(250u8, 0usize), (251, 2), (252, 4), (253, 8), (254, 16), (255, 16)] {
			for first in [0u8, 1, 2, 3, 8, 0x7f, 0xff] {
				for rest in [0u8, 1, 0x1f, 0x20, 0x80, 0xff] {
					for len in (0..=width + 14).chain([width + 40, width + 90]) {
						let mut p = vec![flags, tag];
						p.extend((0..len).map(|i| if i == 0 { first } else if i < width { rest } else { i as u8 & 3 }));
						go(r, &p);
					}
				}
			}
		}
	}
	r.sample(|| "every short payload".into());
}

fn main() {
	let mut t: Vec<Task> = vec![];
	macro_rules! map { ($($c:ty, $n:ident: $k:expr, $v:expr;)*) => { $( t.push((stringify!($c).into(), Box::new(|r| maps::<$c>(r, |n| (0..n).map(|$n| ($k.bytes(), $v.bytes())).collect())))); )* } }
	macro_rules! seq { ($set:expr, $d:ident, $s:ident: $($c:ty, $n:ident: $v:expr;)*) => { $( t.push((stringify!($c).into(), Box::new(|r| seqs(r, $set, |n| (0..n).map(|$n| $v.bytes()).collect(), &|p| {
		let _ = <$c>::$d(&mut &p[..]);
		let _ = <$c>::$s(&mut &p[..]);
	})))); )* } }
	map! {
		BTreeMap<u8, char>, i: (i as u8 * 3), CH[i];
		BTreeMap<char, Option<u16>>, i: CH[i], (i % 3 != 0).then_some(i as u16 * 7);
		HashMap<(u8, char), i32>, i: (i as u8 / 3, CH[i]), (i as i32 * 70000);
		HashMap<u16, Option<u8>>, i: (i as u16 * 77), (i % 3 != 0).then_some(i as u8);
	}
	seq! {false, deserialize_indexed_seq, skip_indexed_seq: Vec<char>, i: CH[i]; Vec<Option<u32>>, i: (i % 3 != 0).then_some(i as u32 * 65);}
	seq! {true, deserialize_indexed_set, skip_indexed_set: BTreeSet<u16>, i: (i as u16 * 99); BTreeSet<char>, i: CH[i]; HashSet<(u8, u16)>, i: (i as u8, 5u16);}
	#[cfg(feature = "opt")]
	{
		map! {
			imbl::OrdMap<u8, char>, i: (i as u8 * 3), CH[i];
			imbl::HashMap<char, u8>, i: CH[i], (i as u8);
		}
		seq! {false, deserialize_indexed_seq, skip_indexed_seq: imbl::Vector<char>, i: CH[i];}
		seq! {true, deserialize_indexed_set, skip_indexed_set: imbl::OrdSet<char>, i: CH[i]; imbl::HashSet<u16>, i: (i as u16 * 99);}
	}
	t.push(("field tables".into(), Box::new(structs)));
	for n in larger_sizes() {
		for two in [false, true].into_iter().take(if n < 2000 { 2 } else { 1 }) {
			t.push((format!("tables of {n} entries"), Box::new(move |r| larger(r, n, two))));
		}
	}
	t.push(("short payloads".into(), Box::new(short)));
	t.push(("all small tables".into(), Box::new(tables)));
	t.push(("generated walker, plain fields".into(), Box::new(gen_indexed)));
	t.push(("generated walker, indexed fields".into(), Box::new(gen_maps)));
	run("P18", t);
}
