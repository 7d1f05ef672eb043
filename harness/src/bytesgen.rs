//! Bounded exhaustive families of byte strings for a type: all short strings, and all single (and,
//! in the thorough tier, double) edits of encodings of its values.

use crate::model::Model;
use crate::rep::thorough;

pub const BYTES: [u8; 24] =
	[0, 1, 2, 3, 251, 252, 253, 254, 255, 0x80, b'a', 0x7f, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 8, 7, 250, 0x40, 0x20, 0x60, 0xbf];

/// All strings of exactly `n` bytes over an alphabet.
pub fn words(alpha: &[u8], n: usize, f: &mut impl FnMut(&[u8])) {
	let mut idx = vec![0usize; n];
	let mut b: Vec<u8> = vec![alpha[0]; n];
	loop {
		f(&b);
		let mut i = 0;
		loop {
			if i == n {
				return;
			}
			idx[i] += 1;
			if idx[i] < alpha.len() {
				b[i] = alpha[idx[i]];
				break;
			}
			idx[i] = 0;
			b[i] = alpha[0];
			i += 1;
		}
	}
}

/// Encodings of values of a type that are worth editing: small, and of different shapes.
pub fn seeds<T: Model>(max_len: usize, max_n: usize) -> Vec<Vec<u8>> {
	let mut out: Vec<Vec<u8>> = vec![];
	let mut per_len = std::collections::HashMap::<usize, usize>::new();
	for v in T::vals(0).into_iter().chain(T::vals(1)) {
		let b = v.bytes();
		let k = per_len.entry(b.len()).or_default();
		if b.len() <= max_len && *k < 3 && !out.contains(&b) {
			*k += 1;
			out.push(b);
		}
	}
	if out.len() > max_n {
		// keep the spread over lengths
		out.sort_by_key(|b| b.len());
		let n = out.len();
		out = (0..max_n).map(|i| out[i * (n - 1) / (max_n - 1)].clone()).collect();
		out.dedup();
	}
	out
}

pub fn strings<T: Model>(f: &mut impl FnMut(&[u8])) {
	let all: Vec<u8> = (0..=255).collect();
	let t = thorough();
	f(&[]);
	words(&all, 1, f);
	if t || !T::name().contains('<') {
		words(&all, 2, f);
	} else {
		// containers in the quick run: every byte beside every edge byte, in both orders
		for a in 0..=255u8 {
			for b in BYTES {
				f(&[a, b]);
				if !BYTES.contains(&a) {
					f(&[b, a]);
				}
			}
		}
	}
	let plan: &[(usize, usize)] = if t {
		&[(24, 3), (24, 4), (11, 5), (9, 6)]
	} else {
		&[(15, 3), (7, 4), (4, 5), (3, 6)]
	};
	for (k, n) in plan {
		words(&BYTES[..*k], *n, f);
	}
	let (ml, mn) = if t {
		(160, 40)
	} else {
		(72, 14)
	};
	for s in seeds::<T>(ml, mn) {
		edits(&s, t, f);
	}
	long_edits::<T>(ml, f);
}

/// Single edits of long encodings: at the edges, around block sizes and on a grid.
fn long_edits<T: Model>(over: usize, f: &mut impl FnMut(&[u8])) {
	let mut all: Vec<Vec<u8>> = T::vals(2).iter().map(|v| v.bytes()).filter(|b| b.len() > over).collect();
	all.sort_by_key(|b| b.len());
	let mut last = 0;
	for want in [over + 1, 130, 300, 1100, 4200, 60000] {
		let Some(s) = all.iter().find(|b| b.len() >= want && b.len() > last) else {
			return;
		};
		last = s.len();
		if last > 300_000 {
			return;
		}
		let big = last > 9000 && !thorough();
		let edge = if big { 3 } else { 10 };
		let grid = if big { 5 } else if thorough() { 97 } else { 23 };
		let mut b = s.clone();
		for i in 0..s.len() {
			let near = [64usize, 128, 256, 4096, 65536].iter().any(|p| i.abs_diff(*p) < edge / 3);
			if i >= edge && i + edge < s.len() && !near && i % (s.len() / grid) != 1 {
				continue;
			}
			for x in [0xff, 0x80, 0xc3, 0, 2, s[i] ^ 1] {
				if x != s[i] && !(big && i > edge && x != 0xff && x != 2) {
					b[i] = x;
					f(&b)
				}
			}
			b[i] = s[i];
			f(&s[..i]);
		}
	}
}

/// All single edits of `s` (and double edits when `deep`).
pub fn edits(s: &[u8], deep: bool, f: &mut impl FnMut(&[u8])) {
	f(s);
	for n in 0..s.len() {
		f(&s[..n]);
	}
	let mut b = s.to_vec();
	for i in 0..s.len() {
		for x in 0..=255u8 {
			// far into long encodings the quick run keeps edge bytes, single bit flips and neighbours
			let near = BYTES.contains(&x) || (x ^ s[i]).is_power_of_two() || x.wrapping_sub(s[i]).wrapping_add(1) < 3;
			if x != s[i] && (thorough() || i < 10 || near) {
				b[i] = x;
				f(&b)
			}
		}
		b[i] = s[i];
	}
	for i in 0..=s.len() {
		for x in &BYTES[..12] {
			let mut c = s.to_vec();
			c.insert(i, *x);
			f(&c)
		}
		if i < s.len() {
			let mut c = s.to_vec();
			c.remove(i);
			f(&c)
		}
	}
	// aligned 2- and 4-byte overwrites: lengths and offsets at their extremes
	for i in 0..s.len() {
		for p in [[0xff, 0xff, 0xff, 0xff], [0, 0, 0, 0], [0xff, 0xff, 0xff, 0x7f], [0, 0, 0, 0x80]] {
			if i + 4 <= s.len() {
				let mut c = s.to_vec();
				c[i..i + 4].copy_from_slice(&p);
				f(&c)
			}
		}
	}
	if deep && s.len() <= 40 {
		for i in 0..s.len() {
			for j in i + 1..s.len() {
				for x in &BYTES[..12] {
					for y in &BYTES[..12] {
						b[i] = *x;
						b[j] = *y;
						f(&b);
					}
				}
				b[i] = s[i];
				b[j] = s[j];
			}
		}
	}
}
