//! P14: container walkers under every sequence of operations.
use mc::model::Model;
use mc::rep::*;
use mc::walk::*;
use revision::*;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;

const TAIL: [u8; 9] = [0xff, 0, 1, 0xfb, 0xff, 0xff, 0x61, 0xff, 0xff];

fn small<T: Model>(max: usize) -> Vec<T> {
	let mut seen = std::collections::HashSet::new();
	let mut v: Vec<(usize, T)> = T::vals(0).into_iter().chain(T::vals(1)).map(|v| (to_vec(&v).map(|b| b.len()).unwrap_or(usize::MAX), v)).filter(|v| v.0 <= max).filter(|v| seen.insert(to_vec(&v.1).unwrap())).collect();
	v.sort_by_key(|v| v.0);
	v.into_iter().map(|v| v.1).collect()
}

fn on<T: Walk, R: BorrowedReader + 'static>(c: &mut Chooser, v: &T, n: usize, mut rd: R, left: impl Fn(&R) -> usize) -> Result<(), String> {
	let all = left(&rd);
	let w = T::walk_revisioned(&mut rd);
	if T::REFUSED {
		ck(w.is_err(), "a bulk vector was walked")?;
		drop(w);
		ck(left(&rd) == all, "a refused walk read something")?;
		return ck(T::deserialize_revisioned(&mut rd).is_ok_and(|x| x.same(v)), "after a refused walk the value no longer decodes");
	}
	let o = T::go(er("walk_revisioned", w)?, v, c, 0)?;
	let at = all - left(&rd);
	let want = match o {
		Out::Whole => n,
		Out::At(k) => k,
	};
	ck(at == want, &format!("the reader stands at {at}, not {want}, of {n}"))
}

fn explore<T: Walk>(r: &mut Rep) {
	let cap = if thorough() { 300_000 } else { 8_000 };
	for v in small::<T>(if thorough() { 60 } else { 40 }) {
		let e = to_vec(&v).unwrap();
		let mut data = e.clone();
		data.extend_from_slice(&TAIL);
		let data: &'static [u8] = Box::leak(data.into_boxed_slice());
		for kind in 0..3 {
			let mut c = Chooser::default();
			let done = c.all(if kind == 0 { cap } else { cap / 3 }, |c| {
				let res = r.on(data, || match kind {
					0 => on::<T, &'static [u8]>(c, &v, e.len(), data, |s| s.len()),
					1 => on::<T, SliceReader<'static>>(c, &v, e.len(), SliceReader::new(data), |s| data.len() - s.consumed_len()),
					_ => {
						// nothing follows the value
						let only: &'static [u8] = &data[..e.len()];
						on::<T, &'static [u8]>(c, &v, e.len(), only, |s| s.len())
					}
				});
				match res {
					Err(p) => r.fail("panic", format!("{} ops {:?}: {p}", hex(&e), c.log)),
					Ok(Err(m)) => r.fail(m.split([':', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']).next().unwrap_or(""), format!("{} ops {:?}: {m}", hex(&e), c.log)),
					Ok(Ok(())) => {}
				}
			});
			match done {
				None => r.add("walks with every operation sequence", 1),
				Some(d) => r.add(&format!("walks with every sequence of at most {d} departures"), 1),
			}
			r.states += c.states.len() as u64;
			r.transitions += c.transitions;
			r.traces += c.paths;
		}
		// the data ends within the value: an operation may fail, but none may pretend to succeed
		for cut in 0..if T::REFUSED { 0 } else { e.len() } {
			let short: &'static [u8] = &data[..cut];
			let mut c = Chooser::default();
			c.all(cap / 80, |c| {
				let res = r.on(short, || on::<T, &'static [u8]>(c, &v, e.len(), short, |s| s.len()));
				match res {
					Err(p) => r.fail("panic", format!("the first {cut} bytes of {} ops {:?}: {p}", hex(&e), c.log)),
					Ok(Err(m)) if !m.contains(" failed: ") && !m.contains("is not at the value") => r.fail("cut short", format!("the first {cut} bytes of {} ops {:?}: {m}", hex(&e), c.log)),
					Ok(_) => {}
				}
			});
			r.states += c.states.len() as u64;
			r.transitions += c.transitions;
			r.traces += c.paths;
		}
		r.sample(|| format!("{}: every operation sequence on {}", T::name(), hex(&e)));
	}
}

/// A container whose `bad`-th element is damaged: up to there everything works, the failing
/// operation leaves the counters alone.
fn damaged(r: &mut Rep) {
	let mut put = |what: &str, x: Result<Result<(), String>, String>| {
		r.traces += 1;
		r.states += 1;
		r.transitions += 3;
		match x {
			Err(p) => r.fail("panic", format!("{what}: {p}")),
			Ok(Err(m)) => r.fail("damaged", format!("{what}: {m}")),
			Ok(Ok(())) => {}
		}
	};
	let _ = &mut put;
	for n in 1..=4usize {
		for bad in 0..n {
			for tag in [2u8, 3, 9, 255] {
				// Vec<Option<u8>> with a bad tag
				let items: Vec<Option<u8>> = (0..n).map(|i| if i % 2 == 0 { Some(5) } else { None }).collect();
				let mut b = vec![];
				mc::wire::put_len(&mut b, n);
				let mut off = vec![];
				for x in &items {
					off.push(b.len());
					x.enc(&mut b);
				}
				b[off[bad]] = tag;
				for op in 0..3 {
					let res = std::panic::catch_unwind(|| -> Result<(), String> {
						let mut s: &[u8] = &b;
						let mut w = er("walk", <Vec<Option<u8>>>::walk_revisioned(&mut s))?;
						for i in 0..bad {
							ck(w.next_item().unwrap().decode().ok() == Some(items[i]), "item before the damaged one")?;
						}
						let it = w.next_item().unwrap();
						let failed = match op {
							0 => it.decode().is_err(),
							1 => it.skip().is_err(),
							_ => it.walk().is_err(),
						};
						ck(failed, "the damaged item was accepted")?;
						ck(w.remaining() == n - bad, "the failed operation changed remaining")
					})
					.map_err(|_| "panicked".to_string());
					put(&format!("Vec<Option<u8>> {} bad item {bad} op {op}", hex(&b)), res);
				}
				// BTreeMap<u8, Option<u8>>: damaged value
				let mut m = vec![];
				mc::wire::put_len(&mut m, n);
				let mut off = vec![];
				for i in 0..n {
					m.push(i as u8);
					off.push(m.len());
					items[i].enc(&mut m);
				}
				m[off[bad]] = tag;
				for op in 0..5 {
					let res = std::panic::catch_unwind(|| -> Result<(), String> {
						let mut s: &[u8] = &m;
						let mut w = er("walk", <BTreeMap<u8, Option<u8>>>::walk_revisioned(&mut s))?;
						for i in 0..bad {
							ck(w.next_entry().unwrap().decode_pair().ok() == Some((i as u8, items[i])), "entry before the damaged one")?;
						}
						let mut e = w.next_entry().unwrap();
						let failed = match op {
							0 => e.decode_pair().is_err(),
							1 => e.skip_pair().is_err(),
							2 => {
								ck(e.decode_key().ok() == Some(bad as u8), "key of the damaged entry")?;
								e.decode_value().is_err()
							}
							3 => {
								er("skip_key", e.skip_key())?;
								e.skip_value().is_err()
							}
							_ => {
								er("skip_key", e.skip_key())?;
								e.walk_value().is_err()
							}
						};
						ck(failed, "the damaged value was accepted")?;
						ck(w.remaining() == n - bad, "the failed operation changed remaining")
					})
					.map_err(|_| "panicked".to_string());
					put(&format!("BTreeMap<u8, Option<u8>> {} bad value {bad} op {op}", hex(&m)), res);
				}
			}
			// BTreeMap<bool, u8> with a damaged key: the cursor does not move to the value
			let mut m = vec![];
			mc::wire::put_len(&mut m, n);
			for i in 0..n {
				m.push(if i == bad { 7 } else { (i % 2) as u8 });
				m.push(9);
			}
			for op in 0..2 {
				let res = std::panic::catch_unwind(|| -> Result<(), String> {
					let mut s: &[u8] = &m;
					let mut w = er("walk", <BTreeMap<bool, u8>>::walk_revisioned(&mut s))?;
					for _ in 0..bad {
						ck(w.next_entry().unwrap().skip_pair().is_ok(), "entry before the damaged one")?;
					}
					let mut e = w.next_entry().unwrap();
					if op == 0 {
						ck(e.decode_key().is_err(), "the damaged key was accepted")?;
						ck(e.decode_value().is_err(), "a value was taken after its key failed")?;
					} else {
						ck(e.decode_pair().is_err(), "the damaged key was accepted")?;
					}
					ck(w.remaining() == n - bad, "the failed operation changed remaining")
				})
				.map_err(|_| "panicked".to_string());
				put(&format!("BTreeMap<bool, u8> {} bad key {bad} op {op}", hex(&m)), res);
			}
		}
	}
	// unknown tags never make an option or result walker
	for t in 2..=255u8 {
		let b = [t, 0, 0, 0, 0, 0, 0, 0, 0];
		put("option tag", Ok(ck(<Option<u8>>::walk_revisioned(&mut &b[..]).is_err(), &format!("option tag {t} accepted"))));
		let ok = <Result<u8, u8>>::walk_revisioned(&mut &b[..]).is_err();
		// in variable width 251.. start longer numbers, all of them zero here: a valid, if wasteful, 0
		let valid_zero = !mc::wire::FIXED && (t == 251 || t == 252 || t == 253);
		put("result tag", Ok(ck(ok || valid_zero, &format!("result tag {t} accepted"))));
	}
}

/// Generic struct and enum walkers over a record (u16 field, Vec<Option<u8>>, String, BTreeMap).
fn generic(r: &mut Rep) {
	type A = u16;
	type B = Vec<Option<u8>>;
	type C = String;
	type D = BTreeMap<u8, u8>;
	for rev in [0u16, 1, 3, 65535] {
		for (a, b, cc, d) in [(7u16, vec![Some(1u8), None], "ab".to_string(), BTreeMap::from([(1u8, 2u8)])), (65535, vec![], String::new(), BTreeMap::new())] {
			let parts = [a.bytes(), b.bytes(), cc.bytes(), d.bytes()];
			let offs: Vec<usize> = (0..=4).map(|i| parts[..i].iter().map(|p| p.len()).sum()).collect();
			let mut data = parts.concat();
			data.extend_from_slice(&TAIL);
			let mut c = Chooser::default();
			let done = c.all(if thorough() { 1_000_000 } else { 60_000 }, |c| {
				let res = r.on(&data, || -> Result<(), String> {
					let mut rd: &[u8] = &data;
					let o = {
						let mut w = StructWalker::new(&mut rd, rev);
						let mut res = Out::Whole;
						let mut peeked = false;
						let mut i = 0;
						while i < 4 {
							ck(w.revision() == rev, "revision changed")?;
							ck(w.position() == i as u32, "position is wrong")?;
							ck(w.reader().remaining().starts_with(&parts[i]), "reader() is not at the field")?;
							let mut ops = vec!["decode", "skip", "walk", "into_walk", "into_reader"];
							if !peeked {
								ops.push("bad decode")
							}
							macro_rules! field {
								($t:ty, $v:expr) => {
									match c.pick(offs[i], i, &ops) {
										"decode" => ck(er("decode", w.decode::<$t>())?.same($v), "decode gave another value")?,
										"skip" => er("skip", w.skip::<$t>())?,
										"walk" => {
											let o = <$t>::go(er("walk", w.walk::<$t>())?, $v, c, offs[i])?;
											if let Out::At(k) = o {
												res = Out::At(offs[i] + k);
												break;
											}
										}
										"into_walk" => {
											let o = <$t>::go(er("into_walk", w.into_walk::<$t>())?, $v, c, offs[i])?;
											res = Out::At(match o {
												Out::At(k) => offs[i] + k,
												Out::Whole => offs[i + 1],
											});
											break;
										}
										"into_reader" => {
											ck(w.into_reader().remaining().starts_with(&parts[i]), "into_reader is not at the field")?;
											res = Out::At(offs[i]);
											break;
										}
										_ => {
											// decoding nothing at all as a refused type must not count
											let refused = if mc::wire::SPEC { w.walk::<Vec<u8>>().is_err() } else { true };
											ck(refused, "a bulk vector was walked into")?;
											peeked = true;
											continue;
										}
									}
								};
							}
							match i {
								0 => field!(A, &a),
								1 => field!(B, &b),
								2 => field!(C, &cc),
								_ => field!(D, &d),
							}
							peeked = false;
							i += 1;
						}
						res
					};
					let at = data.len() - rd.len();
					let want = match o {
						Out::Whole => offs[4],
						Out::At(k) => k,
					};
					ck(at == want, &format!("the reader stands at {at}, not {want}"))
				});
				match res {
					Err(p) => r.fail("panic", format!("struct walker {:?}: {p}", c.log)),
					Ok(Err(m)) => r.fail("struct walker", format!("{:?}: {m}", c.log)),
					_ => {}
				}
			});
			match done {
				None => r.add("walks with every operation sequence", 1),
				Some(d) => r.add(&format!("walks with every sequence of at most {d} departures"), 1),
			}
			r.states += c.states.len() as u64;
			r.transitions += c.transitions;
			r.traces += c.paths;
			// enums: every discriminant x payload use
			for disc in [0u32, 1, 5, 250, 251, 255, 256, 65535, 65536, u32::MAX] {
				let mut data = vec![];
				mc::wire::put_tag32(&mut data, disc);
				let h = data.len();
				b.enc(&mut data);
				let end = data.len();
				data.extend_from_slice(&TAIL);
				let mut c = Chooser::default();
				c.all(20_000, |c| {
					let res = r.on(&data, || -> Result<(), String> {
						let mut rd: &[u8] = &data;
						let o = {
							let mut w = er("new", EnumWalker::new(&mut rd, rev))?;
							ck(w.revision() == rev && w.discriminant() == disc, "revision or discriminant wrong")?;
							ck(w.reader().remaining() == &data[h..], "reader() is not at the payload")?;
							match c.pick(h, 0, &["decode", "skip", "into_walk", "into_reader"]) {
								"decode" => {
									ck(er("decode", w.decode::<B>())?.same(&b), "decode gave another value")?;
									Out::Whole
								}
								"skip" => {
									er("skip", w.skip::<B>())?;
									Out::Whole
								}
								"into_walk" => match B::go(er("into_walk", w.into_walk::<B>())?, &b, c, h)? {
									Out::At(k) => Out::At(h + k),
									o => o,
								},
								_ => {
									ck(w.into_reader().remaining() == &data[h..], "into_reader is not at the payload")?;
									Out::At(h)
								}
							}
						};
						let at = data.len() - rd.len();
						ck(at == if let Out::At(k) = o { k } else { end }, &format!("the reader stands at {at}"))?;
						let mut rd: &[u8] = &data;
						ck(er("read_enum_discriminant", revision::read_enum_discriminant(&mut rd))? == disc && rd == &data[h..], "read_enum_discriminant")
					});
					match res {
						Err(p) => r.fail("panic", format!("enum walker {:?}: {p}", c.log)),
						Ok(Err(m)) => r.fail("enum walker", format!("{:?}: {m}", c.log)),
						_ => {}
					}
				});
				r.states += c.states.len() as u64;
				r.transitions += c.transitions;
				r.traces += c.paths;
			}
		}
	}
	r.sample(|| "StructWalker over 4 fields and EnumWalker over 10 discriminants: every operation sequence".into());
}

fn main() {
	let mut t: Vec<Task> = vec![];
	macro_rules! types { ($($t:ty),* $(,)?) => { $( t.push((<$t>::name(), Box::new(explore::<$t>))); )* } }
	types!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, f32, f64, char, std::time::Duration, std::time::SystemTime);
	types!((u8,), (u8, u16), (String, bool, i32), (u8, String), [u8; 2], [u16; 3], [bool; 4], Bound<u8>, Bound<String>, Range<u8>, Range<i64>);
	types!(String, Box<str>, Arc<str>, PathBuf, Cow<'static, u64>, Cow<'static, String>);
	types!(Option<u8>, Option<bool>, Option<String>, Option<Option<u8>>, Option<Vec<u8>>, Option<Box<u32>>, Option<(u8, u16)>, Option<Result<u8, bool>>, Option<Vec<Option<u8>>>);
	types!(Result<u8, String>, Result<String, u16>, Result<bool, bool>, Result<Vec<u16>, Option<String>>, Result<Result<u8, u16>, String>, Result<Vec<Option<u8>>, BTreeMap<u8, u8>>);
	types!(Box<u32>, Box<String>, Arc<i64>, Arc<String>, Wrapping<u32>, Wrapping<u8>, Reverse<u32>, Reverse<String>, Box<Option<Box<u8>>>, Arc<Vec<String>>, Box<Vec<u64>>, Reverse<Vec<u8>>);
	types!(Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<bool>, Vec<usize>, Vec<isize>, Vec<char>, Vec<String>, Vec<Option<u8>>, Vec<Option<String>>, Vec<Vec<u8>>, Vec<Vec<bool>>, Vec<Vec<String>>, Vec<(u8, String)>, Vec<[u16; 3]>, Vec<Box<u16>>, Vec<BTreeMap<u8, u8>>, Vec<Wrapping<u32>>, Vec<Reverse<u16>>, Vec<std::time::Duration>, Vec<Option<Vec<u8>>>);
	types!(BTreeSet<u8>, BTreeSet<bool>, BTreeSet<String>, BTreeSet<i16>, BTreeSet<u32>, BTreeSet<Vec<u8>>, BTreeSet<(u8, String)>, BTreeSet<Option<u16>>, HashSet<u8>, HashSet<u64>, HashSet<String>, BinaryHeap<u8>, BinaryHeap<u32>, BinaryHeap<String>);
	types!(BTreeMap<u8, u8>, BTreeMap<u32, String>, BTreeMap<String, u16>, BTreeMap<String, String>, BTreeMap<String, bool>, BTreeMap<u8, Vec<u16>>, BTreeMap<u8, BTreeMap<u8, u8>>, BTreeMap<(u8, u16), Option<String>>, BTreeMap<u8, Option<u8>>, BTreeMap<Option<u8>, Result<u8, u8>>, HashMap<u8, u8>, HashMap<u16, String>, HashMap<String, u32>);
	#[cfg(feature = "opt")]
	types!(bytes::Bytes, rust_decimal::Decimal, uuid::Uuid, regex::Regex, roaring::RoaringBitmap, roaring::RoaringTreemap, chrono::NaiveDate, chrono::NaiveTime, chrono::TimeDelta, geo::Point, geo::Polygon, Vec<uuid::Uuid>, Vec<rust_decimal::Decimal>, Vec<bytes::Bytes>, Vec<chrono::NaiveDate>, imbl::Vector<u8>, imbl::Vector<u32>, imbl::Vector<String>, imbl::OrdSet<u16>, imbl::OrdSet<String>, imbl::HashSet<u8>, imbl::HashSet<String>, imbl::OrdMap<u8, u16>, imbl::OrdMap<String, bool>, imbl::HashMap<u32, String>);
	t.push(("damaged containers".into(), Box::new(damaged)));
	t.push(("generic walkers".into(), Box::new(generic)));
	run("P14", t);
}
