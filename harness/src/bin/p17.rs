//! P17: element and field access of indexed sequences, sets and structs against the full value.
use mc::derived::{OIndexed, OMapPlain};
use mc::model::Model;
use mc::rep::*;
use mc::walk::Chooser;
use mc::wire::{put_indexed_seq, put_indexed_set, OFFSET_TABLE_MIN_LEN};
use revision::optimised::indexed::{IndexedSeqEncoded, IndexedSeqView, IndexedSetEncoded, IndexedSetView};
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker, IndexedStructWalker};
use revision::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashSet};

fn e<T>(what: &str, r: Result<T, Error>) -> Result<T, String> {
	r.map_err(|x| format!("{what} failed: {x}"))
}
fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
	if ok {
		Ok(())
	} else {
		Err(what())
	}
}
fn set(r: &mut Rep, payload: &[u8], f: impl FnOnce(&mut Rep) -> Result<(), String>) {
	let mut inner = Rep::default();
	let res = r.on(payload, || f(&mut inner));
	r.merge(inner);
	match res {
		Err(p) => r.fail("panic", format!("{}: {p}", hex(payload))),
		Ok(Err(m)) => r.fail(m.split([':', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']).next().unwrap_or(""), format!("{}: {m}", hex(payload))),
		_ => {}
	}
}

/// Every access to one sequence payload holding the encoded elements `want`.
fn access<T>(r: &mut Rep, w: &IndexedSeqWalker<'_, T>, payload: &[u8], want: &[Vec<u8>], all_pairs: bool) -> Result<(), String> {
	let n = want.len();
	ck(w.len() == n && w.is_empty() == (n == 0), || format!("len {} of {n}", w.len()))?;
	ck(w.is_indexed() == (n >= OFFSET_TABLE_MIN_LEN), || "is_indexed wrong".into())?;
	let body = want.concat();
	ck(w.body() == body, || "body differs".into())?;
	let at = payload.as_ptr() as usize;
	for i in [n, n + 1, n + 7, u32::MAX as usize, usize::MAX / 4, usize::MAX - 1, usize::MAX] {
		r.states += 1;
		r.transitions += 1;
		ck(w.element_bytes(i).is_err(), || format!("element {i} of {n} was served"))?;
	}
	if n < OFFSET_TABLE_MIN_LEN {
		return Ok(());
	}
	let one = |i: usize| -> Result<(), String> {
		let b = e("element_bytes", w.element_bytes(i))?;
		ck(b == want[i], || format!("element {i} of {n}: {}, not {}", hex(b), hex(&want[i])))?;
		let s = b.as_ptr() as usize;
		ck(s >= at && s + b.len() <= at + payload.len(), || format!("element {i} of {n} is outside the payload"))
	};
	for i in (0..n).chain((0..n).rev()) {
		r.states += 1;
		r.transitions += 1;
		one(i)?;
	}
	if all_pairs {
		// any order: every ordered triple of accesses
		for i in 0..n {
			for j in 0..n {
				for k in [0, i, n - 1, n] {
					one(i)?;
					one(j)?;
					ck(w.element_bytes(k).is_ok() == (k < n), || format!("element {k} of {n}"))?;
					r.transitions += 3;
					r.traces += 1;
				}
			}
		}
	}
	Ok(())
}

fn pool<T: Model>() -> Vec<T> {
	let mut p: Vec<T> = vec![];
	for l in [1, 2] {
		for v in T::vals(l) {
			if v.bytes().len() <= 300 && !p.iter().any(|u| u.same(&v)) {
				p.push(v)
			}
			if p.len() > 300 {
				return p;
			}
		}
	}
	p
}

fn sizes(n: usize) -> bool {
	n <= 40 || (249..=257).contains(&n) || n == 1000 || (thorough() && (n <= 300 || n >= 65534))
}

fn one_seq<C, T: Model + Clone>(r: &mut Rep, v: Vec<T>, deep: bool)
where
	C: IndexedSeqEncoded + FromIterator<T>,
{
	let want: Vec<Vec<u8>> = v.iter().map(|x| x.bytes()).collect();
	let c: C = v.iter().cloned().collect();
	let mut p = vec![];
	set(r, &[want.len() as u8], |_| e("serialize_indexed_seq", c.serialize_indexed_seq(&mut p)));
	let mut reference = vec![];
	put_indexed_seq(&mut reference, &want);
	if p != reference {
		r.fail("bytes", format!("{} elements: {}, not {}", want.len(), hex(&p), hex(&reference)));
		return;
	}
	set(r, &p, |r| {
		let view = IndexedSeqView::<T>::new(Cow::Borrowed(&p));
		ck(view.as_bytes() == p, || "view bytes".into())?;
		access(r, &e("view walker", view.walker())?, &p, &want, deep)?;
		ck(view.into_bytes() == p, || "view bytes".into())?;
		let w: IndexedSeqWalker<'_, T> = e("from_payload_unvalidated", IndexedSeqWalker::from_payload_unvalidated(&p))?;
		access(r, &w, &p, &want, false)
	});
	let mut more = p.clone();
	more.extend_from_slice(&[0xff, 0, 1, 0xfb, 0xff]);
	set(r, &p, |r| {
		r.traces += 2;
		let mut rd: &[u8] = &more;
		let back = e("deserialize_indexed_seq", C::deserialize_indexed_seq(&mut rd))?;
		ck(more.len() - rd.len() == p.len(), || "decoding stopped elsewhere".into())?;
		let mut again = vec![];
		e("serialize", back.serialize_indexed_seq(&mut again))?;
		ck(again == p, || "the decoded sequence differs".into())?;
		let mut rd: &[u8] = &more;
		e("skip_indexed_seq", C::skip_indexed_seq(&mut rd))?;
		ck(more.len() - rd.len() == p.len(), || "skipping stopped elsewhere".into())
	});
}

fn seqs<C, T: Model + Clone>(r: &mut Rep)
where
	C: IndexedSeqEncoded + FromIterator<T>,
{
	let pool = pool::<T>();
	let max = if thorough() { 65537 } else { 1000 };
	for n in (0..=300).chain([1000, 65534, 65535, 65536, 65537]).filter(|&n| n <= max && sizes(n)) {
		// element contents: rotations of the pool, so that every value meets every position
		let turns = if n <= 12 { pool.len().min(if thorough() { 300 } else { 60 }) } else if n <= 40 { pool.len().min(5) } else { 1 };
		for turn in 0..turns {
			let v: Vec<T> = (0..n).map(|i| pool[(i + turn * if n <= 12 { 1 } else { 7 }) % pool.len()].clone()).collect();
			one_seq::<C, T>(r, v, n <= 12 && turn == 0);
		}
	}
	r.sample(|| format!("indexed sequence of {}: every element of every size", T::name()));
}

fn one_set<C, T: Model + Clone>(r: &mut Rep, v: Vec<T>)
where
	C: IndexedSetEncoded + FromIterator<T>,
{
	let mut want: Vec<Vec<u8>> = v.iter().map(|x| x.bytes()).collect();
	want.sort();
	want.dedup();
	let c: C = v.into_iter().collect();
	let mut p = vec![];
	set(r, &[], |_| e("serialize_indexed_set", c.serialize_indexed_set(&mut p)));
	let mut reference = vec![];
	put_indexed_set(&mut reference, want.clone());
	if p != reference {
		r.fail("bytes", format!("{} elements: {}, not {}", want.len(), hex(&p), hex(&reference)));
		return;
	}
	set(r, &p, |r| {
		let view = IndexedSetView::<T>::new(Cow::Borrowed(&p));
		ck(view.as_bytes() == p, || "view bytes".into())?;
		access(r, &e("view walker", view.walker())?, &p, &want, want.len() <= 9)?;
		ck(view.into_bytes() == p, || "view bytes".into())
	});
	let mut more = p.clone();
	more.extend_from_slice(&[0xff, 0, 1, 0xfb, 0xff]);
	set(r, &p, |r| {
		r.traces += 2;
		let mut rd: &[u8] = &more;
		let back = e("deserialize_indexed_set", C::deserialize_indexed_set(&mut rd))?;
		ck(more.len() - rd.len() == p.len(), || "decoding stopped elsewhere".into())?;
		let mut again = vec![];
		e("serialize", back.serialize_indexed_set(&mut again))?;
		ck(again == p, || "the decoded set differs".into())?;
		let mut rd: &[u8] = &more;
		e("skip_indexed_set", C::skip_indexed_set(&mut rd))?;
		ck(more.len() - rd.len() == p.len(), || "skipping stopped elsewhere".into())
	});
}

fn sets<C, T: Model + Clone>(r: &mut Rep)
where
	C: IndexedSetEncoded + FromIterator<T>,
{
	let mut pool = pool::<T>();
	pool.sort_by_key(|x| x.bytes());
	let mut choices: Vec<Vec<T>> = vec![];
	// every subset of a few, every size of many
	let few: Vec<T> = (0..pool.len().min(10)).map(|i| pool[i * (pool.len() - 1) / (pool.len().min(10) - 1).max(1)].clone()).collect();
	for m in 0..1u32 << few.len() {
		choices.push((0..few.len()).rev().filter(|i| m >> i & 1 == 1).map(|i| few[i].clone()).collect());
	}
	for n in (1..=pool.len()).filter(|&n| sizes(n)) {
		choices.push((0..n).map(|i| pool[i * (pool.len() - 1) / (n - 1).max(1)].clone()).collect());
	}
	for v in choices {
		one_set::<C, T>(r, v);
	}
}

/// Field tables of every field count, with field lengths over a small alphabet.
fn structs(r: &mut Rep) {
	let lens: &[usize] = if thorough() { &[1, 2, 5, 251] } else { &[1, 2, 7] };
	let mut shapes: Vec<Vec<usize>> = vec![];
	for count in 0..=7usize {
		for mut c in 0..lens.len().pow(count as u32) {
			shapes.push((0..count).map(|_| (lens[c % lens.len()], c /= lens.len()).0).collect());
		}
	}
	// payloads and offsets around and beyond 2^16 bytes, tables of many fields
	for big in [65_523, 65_524, 65_525, 65_535, 65_536, 70_000, 200_000] {
		shapes.extend([vec![big], vec![big, 1], vec![1, big, 3], vec![40_000, big, 40_000]]);
	}
	shapes.extend([250, 251, 256, 257, 1000, 16_383, 16_384, 16_385, 40_000, 65_535].map(|n| (0..n).map(|i| 1 + i % 3).collect()));
	for shape in shapes {
		let count = shape.len();
		let fields: Vec<Vec<u8>> = shape.iter().enumerate().map(|(i, l)| (0..*l).map(|j| (i * 16 + j) as u8).collect()).collect();
		let mut p = vec![];
		let mut off = count as u32 * 4;
		for f in &fields {
			p.extend_from_slice(&off.to_le_bytes());
			off += f.len() as u32;
		}
		p.extend(fields.concat());
		set(r, &p, |r| {
			for (rev, validated) in [(1u16, true), (7, false), (65535, true)] {
				let w = e("from_payload", if validated { IndexedStructWalker::from_payload(&p, rev, count as u16) } else { IndexedStructWalker::from_payload_unvalidated(&p, rev, count as u16) })?;
				ck(w.revision() == rev && w.field_count() == count as u16, || "revision or field_count".into())?;
				for i in (0..count).chain((0..count).rev()) {
					r.states += 1;
					r.transitions += 3;
					let b = e("field_bytes", w.field_bytes(i as u16))?;
					ck(b == fields[i], || format!("field {i} of {count}: {}", hex(b)))?;
					e("skip_field", w.skip_field(i as u16))?;
					// u8 fields decode from the first byte of the field
					ck(e("decode_field", w.decode_field::<u8>(i as u16))? == fields[i][0], || format!("field {i} of {count} decoded to another value"))?;
				}
				for i in [count, count + 1, 255, 256, 32_767, 65_534, 65_535].into_iter().filter(|i| *i >= count && *i < 65_536).map(|i| i as u16) {
					r.states += 1;
					r.transitions += 1;
					ck(w.field_bytes(i).is_err() && w.decode_field::<u8>(i).is_err(), || format!("field {i} of {count} was served"))?;
				}
			}
			r.traces += 1;
			Ok(())
		});
	}
}

/// The generated walkers of field-indexed structs: any order of field operations.
fn derived(r: &mut Rep) {
	let depth = if thorough() { 5 } else { 4 };
	let mut vals = OIndexed::vals(if thorough() { 1 } else { 0 });
	// offsets that need more than 16 bits, after the first or only after a later field
	vals.push(OIndexed { a: 1 << 20, b: "é".repeat(40_000), c: vec![1, 2, 3], d: true });
	vals.push(OIndexed { a: 5, b: "b".into(), c: vec![7; 66_000], d: true });
	for v in &vals {
		let mut b = to_vec(v).unwrap();
		let n = b.len();
		b.extend_from_slice(&[9, 9, 9]);
		let mut ch = Chooser::default();
		ch.all(u64::MAX, |c| {
			let res = r.on(&b, || -> Result<(), String> {
				let mut rd: &[u8] = &b;
				let mut w = e("walk", OIndexed::walk_revisioned(&mut rd))?;
				ck(w.revision() == 1, || "revision".into())?;
				for d in 0..depth {
					match c.pick(d, 0, &["decode a", "decode b", "decode c", "decode d", "skip a", "skip b", "skip c", "skip d", "bytes a", "bytes b", "bytes c", "bytes d", "stop"]) {
						"decode a" => ck(e("decode_a", w.decode_a())? == v.a, || "decode_a".into())?,
						"decode b" => ck(e("decode_b", w.decode_b())? == v.b, || "decode_b".into())?,
						"decode c" => ck(e("decode_c", w.decode_c())? == v.c, || "decode_c".into())?,
						"decode d" => ck(e("decode_d", w.decode_d())? == v.d, || "decode_d".into())?,
						"skip a" => e("skip_a", w.skip_a())?,
						"skip b" => e("skip_b", w.skip_b())?,
						"skip c" => e("skip_c", w.skip_c())?,
						"skip d" => e("skip_d", w.skip_d())?,
						"bytes a" => return ck(e("into_a_bytes", w.into_a_bytes())? == v.a.bytes(), || "into_a_bytes".into()),
						"bytes b" => return ck(e("into_b_bytes", w.into_b_bytes())? == v.b.bytes(), || "into_b_bytes".into()),
						"bytes c" => return ck(e("into_c_bytes", w.into_c_bytes())? == v.c.bytes(), || "into_c_bytes".into()),
						"bytes d" => return ck(e("into_d_bytes", w.into_d_bytes())? == v.d.bytes(), || "into_d_bytes".into()),
						_ => break,
					}
				}
				drop(w);
				ck(b.len() - rd.len() == n, || "the reader is not after the struct".into())
			});
			match res {
				Err(p) => r.fail("panic", format!("OIndexed {} {:?}: {p}", hex(&b), c.log)),
				Ok(Err(m)) => r.fail("OIndexed", format!("{} {:?}: {m}", hex(&b), c.log)),
				_ => {}
			}
		});
		r.states += ch.states.len() as u64;
		r.transitions += ch.transitions;
		r.traces += ch.paths;
	}
	let mut vals = OMapPlain::vals(1);
	vals.push(OMapPlain { m: (0..200u8).map(|k| (k, vec![k; 400])).collect(), s: (0..40).collect() });
	vals.push(OMapPlain { m: (0..9u8).map(|k| (k, vec![k; 9000])).collect(), s: vec![300] });
	vals.push(OMapPlain { m: (0..2u8).map(|k| (k, vec![k; 40_000])).collect(), s: (0..40_000).collect() });
	for v in &vals {
		let mut b = to_vec(v).unwrap();
		let n = b.len();
		b.extend_from_slice(&[9, 9, 9]);
		let mut map: Vec<(Vec<u8>, Vec<u8>)> = v.m.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect();
		map.sort();
		let seq: Vec<Vec<u8>> = v.s.iter().map(|x| x.bytes()).collect();
		let mut mb = vec![];
		mc::wire::put_indexed_map(&mut mb, map.clone());
		let mut sb = vec![];
		put_indexed_seq(&mut sb, &seq);
		let map_ok = |w: IndexedMapWalker<'_, u8, Vec<u8>>| -> Result<(), String> {
			ck(w.len() == map.len(), || "len".into())?;
			if w.is_indexed() {
				for (k, val) in &map {
					ck(e("find", w.find_value_bytes(|x| x.cmp(k)))? == Some(val.as_slice()), || "find".into())?;
				}
			} else {
				ck(w.legacy_body() == Some(map.iter().flat_map(|(k, v)| [k.clone(), v.clone()].concat()).collect::<Vec<_>>().as_slice()), || "legacy_body".into())?;
			}
			Ok(())
		};
		let mut ch = Chooser::default();
		ch.all(u64::MAX, |c| {
			let mut inner = Rep::default();
			let res = r.on(&b, || -> Result<(), String> {
				let mut rd: &[u8] = &b;
				let mut w = e("walk", OMapPlain::walk_revisioned(&mut rd))?;
				for d in 0..3 {
					match c.pick(d, 0, &["decode m", "decode s", "skip m", "skip s", "walk m", "walk s", "into m", "into s", "bytes m", "bytes s", "stop"]) {
						"decode m" => ck(e("decode_m", w.decode_m())? == v.m, || "decode_m".into())?,
						"decode s" => ck(e("decode_s", w.decode_s())? == v.s, || "decode_s".into())?,
						"skip m" => e("skip_m", w.skip_m())?,
						"skip s" => e("skip_s", w.skip_s())?,
						"walk m" => map_ok(e("walker", e("walk_m", w.walk_m())?.walker())?)?,
						"walk s" => access(&mut inner, &e("walker", e("walk_s", w.walk_s())?.walker())?, &b, &seq, false)?,
						"into m" => {
							let view = e("into_walk_m", w.into_walk_m())?;
							map_ok(e("walker", view.walker())?)?;
							return ck(view.as_bytes() == mb, || "view bytes".into());
						}
						"into s" => {
							let view = e("into_walk_s", w.into_walk_s())?;
							access(&mut inner, &e("walker", view.walker())?, &b, &seq, false)?;
							return ck(view.as_bytes() == sb, || "view bytes".into());
						}
						"bytes m" => return ck(e("into_m_bytes", w.into_m_bytes())? == mb, || "into_m_bytes".into()),
						"bytes s" => return ck(e("into_s_bytes", w.into_s_bytes())? == sb, || "into_s_bytes".into()),
						_ => break,
					}
				}
				drop(w);
				ck(b.len() - rd.len() == n, || "the reader is not after the struct".into())
			});
			r.merge(inner);
			match res {
				Err(p) => r.fail("panic", format!("OMapPlain {} {:?}: {p}", hex(&b), c.log)),
				Ok(Err(m)) => r.fail("OMapPlain", format!("{} {:?}: {m}", hex(&b), c.log)),
				_ => {}
			}
		});
		r.states += ch.states.len() as u64;
		r.transitions += ch.transitions;
		r.traces += ch.paths;
	}
	r.sample(|| "OIndexed, OMapPlain: every sequence of decode/skip/walk/bytes on any field".into());
}

/// Payloads whose offsets need more than 16 bits.
fn wide(r: &mut Rep) {
	for n in [OFFSET_TABLE_MIN_LEN, 9, 12] {
		for len in [8191usize, 8192, 9000, 33000, 65536, 70000] {
			one_seq::<Vec<Vec<u8>>, Vec<u8>>(r, (0..n).map(|i| vec![i as u8; len + i]).collect(), false);
			one_seq::<Vec<String>, String>(r, (0..n).map(|i| "é".repeat((len + i) / 2)).collect(), false);
			one_set::<BTreeSet<String>, String>(r, (0..n).map(|i| char::from(b'a' + i as u8).to_string().repeat(len)).collect());
			one_set::<HashSet<Vec<u8>>, Vec<u8>>(r, (0..n).map(|i| vec![i as u8; len]).collect());
		}
	}
	// indexes that need more than 16 bits
	for n in [65537u32, 70_000] {
		one_seq::<Vec<u32>, u32>(r, (0..n).map(|i| i * 7).collect(), false);
		one_seq::<Vec<String>, String>(r, (0..n).map(|i| i.to_string()).collect(), false);
		one_set::<BTreeSet<u32>, u32>(r, (0..n).map(|i| i * 7).collect());
		one_set::<HashSet<String>, String>(r, (0..n).map(|i| i.to_string()).collect());
	}
	r.sample(|| "indexed sequences and sets of up to 70000 elements or 900000 bytes".into());
}

fn main() {
	let mut t: Vec<Task> = vec![];
	macro_rules! add { ($f:ident: $($c:ident<$k:ty>),* $(,)?) => { $( t.push((format!("{} {}", stringify!($c), <$k>::name()), Box::new(|r| $f::<$c<$k>, $k>(r)))); )* } }
	add!(seqs: Vec<u8>, Vec<bool>, Vec<u16>, Vec<u32>, Vec<i64>, Vec<f64>, Vec<u128>, Vec<String>, Vec<char>, Vec<Option<u8>>, Vec<Vec<u8>>, Vec<Vec<String>>, Vec<(u8, String)>, Vec<BTreeMap<u8, u8>>, Vec<mc::derived::OEnum>, Vec<mc::derived::LStruct>, Vec<mc::derived::OIndexed>, Vec<mc::derived::LUnit>);
	add!(sets: BTreeSet<u8>, BTreeSet<u16>, BTreeSet<i32>, BTreeSet<String>, BTreeSet<Vec<u8>>, BTreeSet<(u8, String)>, BTreeSet<char>, BTreeSet<bool>, HashSet<u8>, HashSet<u16>, HashSet<String>);
	#[cfg(feature = "opt")]
	{
		type ImVec<T> = imbl::Vector<T>;
		type ImOrd<T> = imbl::OrdSet<T>;
		type ImHash<T> = imbl::HashSet<T>;
		add!(seqs: ImVec<u16>, ImVec<String>, Vec<uuid::Uuid>, Vec<rust_decimal::Decimal>);
		add!(sets: ImOrd<u16>, ImOrd<String>, ImHash<u16>, ImHash<String>);
	}
	t.push(("wide payloads".into(), Box::new(wide)));
	t.push(("field tables".into(), Box::new(structs)));
	t.push(("generated walkers".into(), Box::new(derived)));
	run("P17", t);
}
