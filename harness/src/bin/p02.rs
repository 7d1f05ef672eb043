//! P02: the bytes of every value of every catalogued type equal the reference encoding.
use mc::catalog::*;
use mc::model::Model;
use mc::rep::*;
use revision::{to_vec, to_writer};

struct V(Vec<Task>);
impl Visit for V {
	fn plain<T: Model>(&mut self) {
		self.0.push((T::name(), Box::new(check::<T>)))
	}
}

fn check<T: Model>(r: &mut Rep) {
	for v in T::vals(top()) {
		let want = v.bytes();
		r.count(hash(&want));
		r.sample(|| hex(&want));
		let res = r.on(&want, || {
			let a = to_vec(&v);
			let b = to_vec(&v);
			let mut w = vec![0xAA];
			let c = to_writer(&mut w, &v);
			(a, b, c, w)
		});
		match res {
			Err(p) => r.fail("panic", format!("{} {p}", hex(&want))),
			Ok((Ok(a), Ok(b), Ok(()), w)) => {
				if a != want {
					r.fail("bytes", format!("wrote {} but the format is {}", hex(&a), hex(&want)))
				}
				if b != a || w[0] != 0xAA || w[1..] != a[..] {
					r.fail("repeat", format!("serializing again wrote {} / {} after {}", hex(&b), hex(&w[1..]), hex(&a)))
				}
			}
			Ok(_) => r.fail("error", format!("serializing failed; format {}", hex(&want))),
		}
	}
}

/// The envelopes of optimised values: one tag byte, for variable sizes a 32-bit length, the body.
fn envelopes(r: &mut Rep) {
	use revision::optimised::envelope::*;
	use revision::optimised::tag::*;
	for id in 0..32u8 {
		for (class, bits) in [(SizeClass::Inline, 0u8), (SizeClass::Fixed, 1), (SizeClass::Varlen, 2)] {
			let want = bits << 5 | id;
			for n in [0usize, 1, 2, 5, 250, 255, 256, 257, 65535, 65536, 70000] {
				if class == SizeClass::Inline && n > 0 {
					continue;
				}
				let body: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
				let mut all = vec![0xAA, want];
				if class == SizeClass::Varlen {
					all.extend((n as u32).to_le_bytes());
				}
				all.extend(&body);
				r.count(hash(&(want, n)));
				let res = r.guard(
					|| format!("envelope of {class:?} variant {id} with {n} bytes"),
					|| -> Result<Vec<u8>, revision::Error> {
						let mut o = vec![0xAA];
						match class {
							SizeClass::Inline => encode_inline(&mut o, id)?,
							SizeClass::Fixed => encode_fixed(&mut o, id, |w: &mut Vec<u8>| {
								w.extend(&body);
								Ok(())
							})?,
							SizeClass::Varlen => encode_varlen(&mut o, id, |w| {
								w.extend(&body);
								Ok(())
							})?,
						}
						let mut t = vec![];
						write_tag(&mut t, Tag::new(id, class))?;
						if t != [want] {
							return Err(revision::Error::Serialize(format!("tag {}", hex(&t))));
						}
						Ok(o)
					},
				);
				if !matches!(&res, Ok(Ok(o)) if *o == all) {
					r.fail("envelope", format!("{class:?} variant {id} with {n} bytes: {:?}, not {}", res.map(|x| x.map(|o| hex(&o))), hex(&all)))
				}
			}
		}
	}
	r.sample(|| "every variant id in every size class".into());
}

fn main() {
	let mut v = V(vec![]);
	all(&mut v);
	v.0.push(("envelopes".into(), Box::new(envelopes)));
	run("P02", v.0);
}
