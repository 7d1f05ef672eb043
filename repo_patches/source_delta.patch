From 20967fc42a4aa26474b94d6e556f0c924b368aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 01/18] fix: write bools with write_all so short or interrupted
 writes cannot lose the byte

---
 src/implementations/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations/primitives.rs b/src/implementations/primitives.rs
index 6645e8c..fc2f9d9 100644
--- a/src/implementations/primitives.rs
+++ b/src/implementations/primitives.rs
@@ -143,7 +143,7 @@ impl SerializeRevisioned for bool {
 	#[inline]
 	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
 		let v = *self as u8;
-		w.write(&[v]).map_err(Error::Io)?;
+		w.write_all(&[v]).map_err(Error::Io)?;
 		Ok(())
 	}
 }
-- 
2.43.0


From 385b99b20735205f87e09137f3378a493c765201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 02/18] fix: decode every chrono leap-second value that can be
 serialized

---
 src/implementations/chrono.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/implementations/chrono.rs b/src/implementations/chrono.rs
index d5332f1..7183e49 100644
--- a/src/implementations/chrono.rs
+++ b/src/implementations/chrono.rs
@@ -18,8 +18,11 @@ impl DeserializeRevisioned for DateTime<Utc> {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = <i64 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let nano = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
-		Utc.timestamp_opt(secs, nano)
+		// A leap second may be represented in any second of a minute, which
+		// `timestamp_opt` would refuse.
+		Utc.timestamp_opt(secs, 0)
 			.single()
+			.and_then(|v| v.with_nanosecond(nano))
 			.ok_or_else(|| Error::Deserialize("invalid datetime".to_string()))
 	}
 }
@@ -77,7 +80,10 @@ impl DeserializeRevisioned for NaiveTime {
 		let minute = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let second = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let nano = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
-		NaiveTime::from_hms_nano_opt(hour, minute, second, nano)
+		// A leap second may be represented in any second of a minute, which
+		// `from_hms_nano_opt` would refuse.
+		NaiveTime::from_hms_opt(hour, minute, second)
+			.and_then(|v| v.with_nanosecond(nano))
 			.ok_or_else(|| Error::Deserialize("invalid time".to_string()))
 	}
 }
-- 
2.43.0


From ebddcc05eb7a5e8ee504ecd55c84a025bc0941d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 03/18] fix: reject out-of-range durations and system times
 instead of panicking

---
 src/implementations/duration.rs    | 5 ++++-
 src/implementations/skip.rs        | 3 +--
 src/implementations/system_time.rs | 7 ++++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/implementations/duration.rs b/src/implementations/duration.rs
index bdc15dc..700f1e8 100644
--- a/src/implementations/duration.rs
+++ b/src/implementations/duration.rs
@@ -18,7 +18,10 @@ impl DeserializeRevisioned for Duration {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = u64::deserialize_revisioned(reader)?;
 		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(Duration::new(secs, nanos))
+		// `Duration::new` panics when carrying excess nanoseconds overflows.
+		Duration::from_secs(secs)
+			.checked_add(Duration::from_nanos(nanos as u64))
+			.ok_or_else(|| Error::Deserialize("invalid duration".to_string()))
 	}
 }
 
diff --git a/src/implementations/skip.rs b/src/implementations/skip.rs
index 0947c5e..7b124f8 100644
--- a/src/implementations/skip.rs
+++ b/src/implementations/skip.rs
@@ -123,8 +123,7 @@ impl SkipRevisioned for SystemTime {
 impl SkipCheckRevisioned for SystemTime {
 	#[inline]
 	fn skip_check_revisioned<R: Read>(reader: &mut R) -> Result<(), Error> {
-		<u64 as SkipCheckRevisioned>::skip_check_revisioned(reader)?;
-		<u32 as SkipCheckRevisioned>::skip_check_revisioned(reader)?;
+		<Self as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		Ok(())
 	}
 }
diff --git a/src/implementations/system_time.rs b/src/implementations/system_time.rs
index 6887a7b..e0bfd1a 100644
--- a/src/implementations/system_time.rs
+++ b/src/implementations/system_time.rs
@@ -18,9 +18,10 @@ impl SerializeRevisioned for SystemTime {
 impl DeserializeRevisioned for SystemTime {
 	#[inline]
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
-		let secs = u64::deserialize_revisioned(reader)?;
-		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(UNIX_EPOCH + Duration::new(secs, nanos))
+		let duration = Duration::deserialize_revisioned(reader)?;
+		UNIX_EPOCH
+			.checked_add(duration)
+			.ok_or_else(|| Error::Deserialize("invalid system time".to_string()))
 	}
 }
 
-- 
2.43.0


From bd8977473642284c0b9690c8e33e9b36b66f0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:08 +0000
Subject: [PATCH 04/18] fix: corrupt indexed lengths report an error instead of
 overflowing or exhausting memory

---
 src/optimised/indexed/map_walk.rs  |  2 +-
 src/optimised/indexed/seq_walk.rs  |  2 +-
 src/optimised/indexed/serialize.rs | 28 +++++++++++++++++++---------
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/optimised/indexed/map_walk.rs b/src/optimised/indexed/map_walk.rs
index 8c80efa..f90242d 100644
--- a/src/optimised/indexed/map_walk.rs
+++ b/src/optimised/indexed/map_walk.rs
@@ -180,7 +180,7 @@ impl<'p, K, V> IndexedMapWalker<'p, K, V> {
 		let table_bytes = len
 			.checked_mul(8)
 			.ok_or_else(|| Error::Deserialize("indexed-map offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		// Borrow the interleaved `(key_off, val_off)` table directly from the
diff --git a/src/optimised/indexed/seq_walk.rs b/src/optimised/indexed/seq_walk.rs
index 53ebe61..85f1efa 100644
--- a/src/optimised/indexed/seq_walk.rs
+++ b/src/optimised/indexed/seq_walk.rs
@@ -108,7 +108,7 @@ impl<'p, T> IndexedSeqWalker<'p, T> {
 		let table_bytes = len
 			.checked_mul(4)
 			.ok_or_else(|| Error::Deserialize("indexed-seq offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		let offsets = &payload[cursor..cursor + table_bytes];
diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index f249083..90e78cc 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -127,7 +127,7 @@ where
 		r.read_exact(&mut flag_buf).map_err(Error::Io)?;
 		let flags = flag_buf[0];
 		let len = read_varint(r)?;
-		let mut out: HashMap<K, V, S> = HashMap::with_capacity_and_hasher(len, S::default());
+		let mut out: HashMap<K, V, S> = HashMap::with_capacity_and_hasher(initial_capacity(len), S::default());
 		if (flags & FLAG_INDEXED) == 0 {
 			for _ in 0..len {
 				let k = K::deserialize_revisioned(r)?;
@@ -138,12 +138,13 @@ where
 		}
 		// Skip the offset tables + region lengths.
 		let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-		advance_read(r, table_bytes + 8)?;
-		let mut keys: Vec<K> = Vec::with_capacity(len);
+		advance_read(r, table_bytes)?;
+		advance_read(r, 8)?;
+		let mut keys: Vec<K> = Vec::with_capacity(initial_capacity(len));
 		for _ in 0..len {
 			keys.push(K::deserialize_revisioned(r)?);
 		}
-		let mut values: Vec<V> = Vec::with_capacity(len);
+		let mut values: Vec<V> = Vec::with_capacity(initial_capacity(len));
 		for _ in 0..len {
 			values.push(V::deserialize_revisioned(r)?);
 		}
@@ -748,15 +749,16 @@ where
 	// Skip the offset table (len * 8) and region-length pair (8 bytes); we
 	// don't need them for sequential decode.
 	let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-	advance_read(reader, table_bytes + 8)?;
+	advance_read(reader, table_bytes)?;
+	advance_read(reader, 8)?;
 
 	// Dense keys (sorted ascending) come first, then dense values in matching
 	// order. Each K and V know their own wire length via DeserializeRevisioned.
-	let mut keys: Vec<K> = Vec::with_capacity(len);
+	let mut keys: Vec<K> = Vec::with_capacity(initial_capacity(len));
 	for _ in 0..len {
 		keys.push(K::deserialize_revisioned(reader)?);
 	}
-	let mut values: Vec<V> = Vec::with_capacity(len);
+	let mut values: Vec<V> = Vec::with_capacity(initial_capacity(len));
 	for _ in 0..len {
 		values.push(V::deserialize_revisioned(reader)?);
 	}
@@ -783,7 +785,7 @@ where
 	let len = read_varint(reader)?;
 	if (flags & FLAG_INDEXED) == 0 {
 		// Legacy fallback: pure `(elem)*` body.
-		let mut out = Vec::with_capacity(len);
+		let mut out = Vec::with_capacity(initial_capacity(len));
 		for _ in 0..len {
 			out.push(T::deserialize_revisioned(reader)?);
 		}
@@ -794,7 +796,7 @@ where
 	let table_bytes = len.checked_mul(4).ok_or(Error::OptimisedSubReaderOverrun)?;
 	advance_read(reader, table_bytes)?;
 
-	let mut out = Vec::with_capacity(len);
+	let mut out = Vec::with_capacity(initial_capacity(len));
 	for _ in 0..len {
 		out.push(T::deserialize_revisioned(reader)?);
 	}
@@ -887,6 +889,14 @@ where
 	Ok(())
 }
 
+/// Capacity to reserve up front for `len` entries read from an untrusted
+/// payload. The count is not backed by that many bytes until they are read, so
+/// anything beyond a modest bound is left to amortised growth.
+#[inline]
+fn initial_capacity(len: usize) -> usize {
+	len.min(4096)
+}
+
 #[doc(hidden)]
 fn read_varint<R: Read>(r: &mut R) -> Result<usize, Error> {
 	let mut tag_buf = [0u8; 1];
-- 
2.43.0


From 29635a131ad48c986921a98702ff055d8e3eff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 05/18] fix: decode closed geo rings that start at a NaN
 coordinate unchanged

---
 src/implementations/geo.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/implementations/geo.rs b/src/implementations/geo.rs
index 8f2e2ec..2fb3c59 100644
--- a/src/implementations/geo.rs
+++ b/src/implementations/geo.rs
@@ -85,12 +85,28 @@ impl SerializeRevisioned for Polygon {
 	}
 }
 
+/// `Polygon::new` closes every ring whose first and last coordinates differ. A
+/// NaN coordinate differs from itself, so an already closed ring which starts at
+/// one would gain another closing coordinate each time that it is decoded.
+fn without_nan_closing(mut ring: LineString) -> LineString {
+	let bits = |c: &Coord| (c.x.to_bits(), c.y.to_bits());
+	if let (Some(first), Some(last)) = (ring.0.first(), ring.0.last())
+		&& first != last
+		&& bits(first) == bits(last)
+	{
+		ring.0.pop();
+	}
+	ring
+}
+
 impl DeserializeRevisioned for Polygon {
 	#[inline]
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
+		let exterior = LineString::deserialize_revisioned(reader)?;
+		let interiors = Vec::<LineString>::deserialize_revisioned(reader)?;
 		Ok(Self::new(
-			DeserializeRevisioned::deserialize_revisioned(reader)?,
-			DeserializeRevisioned::deserialize_revisioned(reader)?,
+			without_nan_closing(exterior),
+			interiors.into_iter().map(without_nan_closing).collect(),
 		))
 	}
 }
-- 
2.43.0


From 485f8f57b65a21ae47b48e2702d09ee935975b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 06/18] fix: skip bulk-encoded #[revision(specialised)] fields
 without the specialised-vectors feature

The legacy skip codegen used Vec's own SkipRevisioned, which expects the
per-element layout when the feature is off.
---
 revision-derive/src/expand/common.rs | 10 ++++++++++
 revision-derive/src/expand/skip.rs   |  8 +++++++-
 src/implementations/specialised.rs   | 16 ++++++++++++++++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/common.rs b/revision-derive/src/expand/common.rs
index a23a846..0fc8691 100644
--- a/revision-derive/src/expand/common.rs
+++ b/revision-derive/src/expand/common.rs
@@ -231,6 +231,16 @@ pub fn emit_deserialize_specialised(ty: &Type, reader_expr: &TokenStream) -> Tok
 	}
 }
 
+/// Emit a skip over a bulk-encoded `#[revision(specialised)]` field. Same
+/// trait-bound contract as [`emit_serialize_specialised`].
+pub fn emit_skip_specialised(ty: &Type, reader_expr: &TokenStream) -> TokenStream {
+	quote! {
+		<#ty as ::revision::implementations::specialised::DeserializeRevisionedSpecialised>::skip_revisioned_specialised(
+			#reader_expr,
+		)?;
+	}
+}
+
 #[cfg(test)]
 mod tests {
 	use super::*;
diff --git a/revision-derive/src/expand/skip.rs b/revision-derive/src/expand/skip.rs
index 8df2522..239c606 100644
--- a/revision-derive/src/expand/skip.rs
+++ b/revision-derive/src/expand/skip.rs
@@ -6,7 +6,7 @@ use syn::Ident;
 
 use crate::ast::{Enum, Fields, Struct, Variant, Visit};
 
-use super::common::{CalcDiscriminant, emit_skip_fixed_le};
+use super::common::{CalcDiscriminant, emit_skip_fixed_le, emit_skip_specialised};
 use super::context::EncodingContext;
 use super::optimised;
 
@@ -157,6 +157,9 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							let reader_expr = quote! { reader };
+							emit_skip_specialised(ty, &reader_expr)
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
@@ -174,6 +177,9 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							let reader_expr = quote! { reader };
+							emit_skip_specialised(ty, &reader_expr)
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
diff --git a/src/implementations/specialised.rs b/src/implementations/specialised.rs
index 640a088..16b7fb7 100644
--- a/src/implementations/specialised.rs
+++ b/src/implementations/specialised.rs
@@ -9,6 +9,7 @@ use crate::DeserializeRevisioned;
 use crate::Error;
 use crate::Revisioned;
 use crate::SerializeRevisioned;
+use crate::SkipRevisioned;
 use std::io::ErrorKind::UnexpectedEof;
 use std::io::{Read, Write};
 
@@ -30,6 +31,21 @@ pub trait DeserializeRevisionedSpecialised: Revisioned + DeserializeRevisioned {
 	fn deserialize_revisioned_specialised<R: Read>(r: &mut R) -> Result<Self, Error>
 	where
 		Self: Sized;
+
+	/// Advances the specified `reader` past a bulk-encoded instance of the struct. With the
+	/// `specialised-vectors` feature this is the layout [`SkipRevisioned`] already skips;
+	/// without it [`SkipRevisioned`] expects the per-element layout instead.
+	#[inline]
+	fn skip_revisioned_specialised<R: Read>(r: &mut R) -> Result<(), Error>
+	where
+		Self: SkipRevisioned + Sized,
+	{
+		if cfg!(feature = "specialised-vectors") {
+			Self::skip_revisioned(r)
+		} else {
+			Self::deserialize_revisioned_specialised(r).map(drop)
+		}
+	}
 }
 
 // --------------------------------------------------
-- 
2.43.0


From 34c09fb7ab2f785874faa0e69cda382c323a86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 07/18] fix: reject optimised tags with the reserved bit 7 set

---
 src/optimised/tag.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimised/tag.rs b/src/optimised/tag.rs
index fb7105e..e53e973 100644
--- a/src/optimised/tag.rs
+++ b/src/optimised/tag.rs
@@ -83,9 +83,13 @@ impl Tag {
 		self.0 & VARIANT_ID_MASK
 	}
 
-	/// Size class (bits 5..=6). Returns an error if the reserved `0b11` is observed.
+	/// Size class (bits 5..=6). Returns an error if the reserved `0b11` or the reserved
+	/// bit 7 is observed.
 	#[inline]
 	pub const fn size_class(self) -> Result<SizeClass, Error> {
+		if self.is_extended() {
+			return Err(Error::InvalidOptimisedTag(self.0));
+		}
 		match SizeClass::from_bits((self.0 & SIZE_CLASS_MASK) >> SIZE_CLASS_SHIFT) {
 			Ok(sc) => Ok(sc),
 			Err(()) => Err(Error::InvalidOptimisedTag(self.0)),
-- 
2.43.0


From 49fc1265db8b56b2a4c5322200a39958efdc6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:01 +0000
Subject: [PATCH 08/18] fix: decode removed indexed_* fields of optimised
 structs in their indexed layout

---
 .../src/expand/optimised/struct_codegen.rs    | 47 ++++++++++---------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index 4153531..c883074 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -156,27 +156,30 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 		let binding = f.name.to_binding();
 		let ty = &f.ty;
 
+		// Fields on the wire use the same layout whether or not they still
+		// exist at `target`.
+		let decode = if f.attrs.options.indexed_map {
+			quote! {
+				let #binding: #ty =
+					<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?;
+			}
+		} else if f.attrs.options.indexed_seq {
+			quote! {
+				let #binding: #ty =
+					<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?;
+			}
+		} else if f.attrs.options.indexed_set {
+			quote! {
+				let #binding: #ty =
+					<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?;
+			}
+		} else {
+			quote! {
+				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
+			}
+		};
+
 		if exists_current && exists_target {
-			let decode = if f.attrs.options.indexed_map {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_seq {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_set {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?;
-				}
-			} else {
-				quote! {
-					let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-				}
-			};
 			decode_each.append_all(decode);
 			bindings_for_construction.push(quote! { #binding });
 		} else if !exists_current && exists_target {
@@ -202,9 +205,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 				.expect("convert_fn required when `end` is set; checked by AST validation");
 			let convert_ident = syn::Ident::new(&convert.value(), convert.span());
 			let rev_lit = current as u16;
-			decode_each.append_all(quote! {
-				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-			});
+			decode_each.append_all(decode);
 			// Apply convert_fn after construction (handled below via __post_construct).
 			let _ = (convert_ident, rev_lit);
 		}
-- 
2.43.0


From 64db5a6da467cbffe815fbfb10253c6f246c7b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:31 +0000
Subject: [PATCH 09/18] fix: walk struct fields in the layout of the encoding
 they were stored with

---
 revision-derive/src/expand/walk.rs | 342 +++++++++++++++++++++--------
 1 file changed, 245 insertions(+), 97 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 2ee4e73..51799c8 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -45,7 +45,10 @@ use crate::ast::attributes::VariantSize;
 use crate::ast::history::{HistoryEntry, StructEncoding};
 use crate::ast::{Enum, Field, FieldName, Fields, Item, ItemKind, Struct, Variant, Visit};
 
-use super::common::CalcDiscriminant;
+use super::common::{
+	CalcDiscriminant, emit_deserialize_fixed_le, emit_deserialize_specialised, emit_skip_fixed_le,
+	emit_skip_specialised,
+};
 
 /// Emit the [`WalkRevisioned`] impl and supporting types for a
 /// `#[revisioned(...)]` item.
@@ -255,7 +258,7 @@ pub fn emit_walk_impl(
 
 	// Per-type method body
 	let methods = match &item.kind {
-		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s)?,
+		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, history, s)?,
 		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
 	};
 
@@ -442,6 +445,7 @@ fn emit_struct_methods(
 	owner_name: &Ident,
 	walker_repr_name: &Ident,
 	revision: usize,
+	history: &[HistoryEntry],
 	s: &Struct,
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
@@ -486,44 +490,25 @@ fn emit_struct_methods(
 		// `Default::default`. Only emitted into the codegen when the field
 		// could actually be absent (`start > 0`); otherwise `Default` would
 		// be required even for types that never need it.
-		// Pick the decode / skip call for this field. Fields with
-		// `#[revision(indexed_map)]` / `#[revision(indexed_seq)]` route through
-		// the runtime indexed helpers; everything else uses the type's own
-		// `DeserializeRevisioned` / `SkipRevisioned` impl.
-		let field_decode_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(reader)?
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(reader)?
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(reader)?
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
-			}
-		};
-		let field_skip_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(reader)?;
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(reader)?;
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(reader)?;
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?;
-			}
-		};
+		// Pick the decode / skip call for this field, which depends on the
+		// encoding of the revision the bytes were written at; see
+		// [`FieldCodec`].
+		//
+		// `wire_rev` is a `&mut u16` on the borrowing accessors and a `u16` on
+		// the consuming ones.
+		let codec = FieldCodec::new(f, history);
+		let by_ref = quote! { *wire_rev };
+		let by_val = quote! { wire_rev };
+		let field_decode_call = codec.decode_at(&by_ref)?;
+		let field_skip_call = codec.skip_at(&by_ref)?;
+		let field_skip_call_owned = codec.skip_at(&by_val)?;
+		// `IndexedBorrowed` payloads are always optimised, `ConvertedOwned`
+		// ones are always in the encoding of the current revision.
+		let current_optimised =
+			history.iter().any(|h| h.revision.value == revision && h.is_optimised());
+		let indexed_decode_call = codec.decode(true)?;
+		let converted_decode_call = codec.decode(current_optimised)?;
+		let converted_skip_call = codec.skip(current_optimised)?;
 
 		let decode_wire_body = if always_present {
 			quote! {
@@ -555,6 +540,27 @@ fn emit_struct_methods(
 			}
 		};
 
+		// A `fixed` / `specialised` field in its forced layout is not what the
+		// type's own walker expects to read.
+		let no_walk_of_forced_layout = |rev: &TokenStream, method: &Ident| -> TokenStream {
+			if !(f.attrs.options.fixed || f.attrs.options.specialised) {
+				return quote! {};
+			}
+			let optimised = &codec.optimised;
+			let msg = format!(
+				"{method} is not supported on fields in a forced layout; use decode_{method_base}"
+			);
+			quote! {
+				if !::std::matches!(#rev, 0 #(| #optimised)*) {
+					return ::std::result::Result::Err(::revision::Error::Conversion(
+						#msg.into(),
+					));
+				}
+			}
+		};
+		let into_walk_layout_check = no_walk_of_forced_layout(&by_val, &into_walk_name);
+		let walk_layout_check = no_walk_of_forced_layout(&by_ref, &walk_name);
+
 		// Consuming variant body — `reader` is `&'r mut R` (moved from `self.repr`),
 		// `wire_rev` is `u16` (moved).
 		let into_walk_wire_body = if always_present {
@@ -615,7 +621,7 @@ fn emit_struct_methods(
 		//    field's canonical bytes already live at `parent.bytes[offsets[i]
 		//    ..offsets[i+1]]`. Extract directly via `Cow::Borrowed` with the
 		//    parent's `'r` lifetime. Zero allocation, O(1) lookup.
-		// 2. `Wire` parent (sequential optimised or current-rev legacy): the
+		// 2. `Wire` parent at a (sequential) optimised revision: the
 		//    field's bytes are next in the reader, but their length isn't
 		//    known up front. Capture `reader.remaining()` before and after a
 		//    `skip_indexed_*` call to derive the field's exact slice, then
@@ -625,7 +631,9 @@ fn emit_struct_methods(
 		//    the parent's bytes are an owned `Vec<u8>` that dies with `self`
 		//    on a `&self`/`self` accessor, so we can't borrow from it. Decode
 		//    the field into the runtime type and re-encode into `Cow::Owned`.
-		//    One allocation per call; rare path.
+		//    One allocation per call; rare path. The same goes for a `Wire`
+		//    parent at a legacy revision (where the field is not in its
+		//    indexed layout) or at one that does not have the field yet.
 		// `self_expr` is the identifier used for the walker instance — `self`
 		// for `walk_<field>(&mut self)` and `__self` for
 		// `into_walk_<field>(self)` after the `let mut __self = self;` rebind.
@@ -656,6 +664,16 @@ fn emit_struct_methods(
 					}
 				}
 			};
+		// Wire revisions at which this field is on the wire in its indexed
+		// layout. At any other revision the view is re-encoded from the
+		// decoded (or defaulted) value.
+		let indexed_revs: Vec<u16> = history
+			.iter()
+			.filter(|h| h.is_optimised() && f.attrs.options.exists_at(h.revision.value))
+			.map(|h| h.revision.value as u16)
+			.collect();
+		// `0` is never a wire revision: no pattern may be empty.
+		let indexed_revs = quote! { 0 #(| #indexed_revs)* };
 		// Wire-parent fast path: skip the field, derive its bytes from the
 		// before/after `remaining()` snapshots, lifetime-extend via the
 		// canonical unsafe pattern (peeked bytes stay valid for `'r` per the
@@ -665,46 +683,48 @@ fn emit_struct_methods(
 		                      self_expr: &TokenStream|
 		 -> TokenStream {
 			quote! {
-				if let #walker_repr_name::Wire { reader, .. } = &mut #self_expr.repr {
-					let __before = ::revision::BorrowedReader::remaining(*reader);
-					let __before_ptr = __before.as_ptr();
-					let __before_len = __before.len();
-					#skip_call
-					let __after_len = ::revision::BorrowedReader::remaining(*reader).len();
-					// `BorrowedReader`'s safety contract bullet (4) requires
-					// `remaining().len()` to be monotonic non-increasing
-					// under `advance`. A downstream impl that violates this
-					// would underflow naive subtraction and trigger UB in
-					// the `from_raw_parts` below — `checked_sub` turns the
-					// contract violation into a typed
-					// `BorrowedReaderContractViolation` error instead.
-					let __consumed_len = __before_len
-						.checked_sub(__after_len)
-						.ok_or_else(|| ::revision::Error::BorrowedReaderContractViolation(
-							::std::format!(
-								"remaining().len() grew across an advance call \
-								 (before={}, after={})",
-								__before_len,
-								__after_len,
-							)
-						))?;
-					// SAFETY: `BorrowedReader::remaining` returns a slice
-					// into the reader's stable buffer; the trait's safety
-					// contract guarantees `advance`/`skip` only moves the
-					// cursor and never invalidates previously-returned
-					// bytes (bullets 2 and 3), so
-					// `__before_ptr[..__consumed_len]` is valid for the
-					// reader's lifetime `'r`. The `checked_sub` above also
-					// ensures `__consumed_len <= __before_len`, so the
-					// slice can never extend past the bytes the trait
-					// promised were stable. Same pattern as
-					// `read_borrowed_bytes` for `peek_bytes + advance`.
-					let __field_bytes: &'r [u8] = unsafe {
-						::std::slice::from_raw_parts(__before_ptr, __consumed_len)
-					};
-					return ::std::result::Result::Ok(
-						#view_ty::new(::std::borrow::Cow::Borrowed(__field_bytes)),
-					);
+				if let #walker_repr_name::Wire { reader, wire_rev, .. } = &mut #self_expr.repr {
+					if ::std::matches!(*wire_rev, #indexed_revs) {
+						let __before = ::revision::BorrowedReader::remaining(*reader);
+						let __before_ptr = __before.as_ptr();
+						let __before_len = __before.len();
+						#skip_call
+						let __after_len = ::revision::BorrowedReader::remaining(*reader).len();
+						// `BorrowedReader`'s safety contract bullet (4) requires
+						// `remaining().len()` to be monotonic non-increasing
+						// under `advance`. A downstream impl that violates this
+						// would underflow naive subtraction and trigger UB in
+						// the `from_raw_parts` below — `checked_sub` turns the
+						// contract violation into a typed
+						// `BorrowedReaderContractViolation` error instead.
+						let __consumed_len = __before_len
+							.checked_sub(__after_len)
+							.ok_or_else(|| ::revision::Error::BorrowedReaderContractViolation(
+								::std::format!(
+									"remaining().len() grew across an advance call \
+									 (before={}, after={})",
+									__before_len,
+									__after_len,
+								)
+							))?;
+						// SAFETY: `BorrowedReader::remaining` returns a slice
+						// into the reader's stable buffer; the trait's safety
+						// contract guarantees `advance`/`skip` only moves the
+						// cursor and never invalidates previously-returned
+						// bytes (bullets 2 and 3), so
+						// `__before_ptr[..__consumed_len]` is valid for the
+						// reader's lifetime `'r`. The `checked_sub` above also
+						// ensures `__consumed_len <= __before_len`, so the
+						// slice can never extend past the bytes the trait
+						// promised were stable. Same pattern as
+						// `read_borrowed_bytes` for `peek_bytes + advance`.
+						let __field_bytes: &'r [u8] = unsafe {
+							::std::slice::from_raw_parts(__before_ptr, __consumed_len)
+						};
+						return ::std::result::Result::Ok(
+							#view_ty::new(::std::borrow::Cow::Borrowed(__field_bytes)),
+						);
+					}
 				}
 			}
 		};
@@ -855,6 +875,7 @@ fn emit_struct_methods(
 			walk_body = quote! {
 				match &mut self.repr {
 					#walker_repr_name::Wire { reader, wire_rev, pos } => {
+						#walk_layout_check
 						#walk_wire_body_borrow
 					}
 					#walker_repr_name::IndexedBorrowed { .. } => {
@@ -873,6 +894,7 @@ fn emit_struct_methods(
 			into_walk_body = quote! {
 				match self.repr {
 					#walker_repr_name::Wire { reader, wire_rev, pos: _ } => {
+						#into_walk_layout_check
 						#into_walk_wire_body
 					}
 					#walker_repr_name::IndexedBorrowed { .. } => {
@@ -909,9 +931,9 @@ fn emit_struct_methods(
 		//   of the field; lifetime-extend the consumed slice via the
 		//   `BorrowedReader` contract (same unsafe pattern as
 		//   `read_borrowed_bytes`). Returns `Cow::Borrowed` at `'r`.
-		// - `ConvertedOwned`: decode the field from the parent's
-		//   materialised bytes, re-encode into a fresh `Vec<u8>`.
-		//   Returns `Cow::Owned`. Rare cross-rev `convert_fn` path.
+		// - `ConvertedOwned`: copy the field out of the parent's
+		//   materialised bytes. Returns `Cow::Owned`. Rare cross-rev
+		//   `convert_fn` path.
 		let into_field_bytes_wire_rev_check = if always_present {
 			quote! {}
 		} else {
@@ -976,7 +998,7 @@ fn emit_struct_methods(
 					let __before = ::revision::BorrowedReader::remaining(reader);
 					let __before_ptr = __before.as_ptr();
 					let __before_len = __before.len();
-					#field_skip_call
+					#field_skip_call_owned
 					let __after_len = ::revision::BorrowedReader::remaining(reader).len();
 					let __consumed_len = __before_len
 						.checked_sub(__after_len)
@@ -1004,14 +1026,12 @@ fn emit_struct_methods(
 				}
 				#walker_repr_name::ConvertedOwned { bytes, cursor, pos: _, .. } => {
 					let mut __slice: &[u8] = &bytes[cursor..];
-					let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(
-						&mut __slice,
-					)?;
-					let mut __out: ::std::vec::Vec<u8> = ::std::vec::Vec::new();
-					<#ty as ::revision::SerializeRevisioned>::serialize_revisioned(
-						&__v, &mut __out,
-					)?;
-					::std::result::Result::Ok(::std::borrow::Cow::Owned(__out))
+					{
+						let reader = &mut __slice;
+						#converted_skip_call
+					}
+					let __end = bytes.len() - __slice.len();
+					::std::result::Result::Ok(::std::borrow::Cow::Owned(bytes[cursor..__end].to_vec()))
 				}
 				#walker_repr_name::IndexedBorrowed { .. } => {
 					::std::unreachable!(
@@ -1057,14 +1077,18 @@ fn emit_struct_methods(
 							bytes.len()
 						};
 						let mut __slice: &[u8] = &bytes[__start..__end];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let reader = &mut __slice;
+						let __v = #indexed_decode_call;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						// Sequential materialised path (convert_fn round-trip).
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let __v = {
+							let reader = &mut __slice;
+							#converted_decode_call
+						};
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
@@ -1092,7 +1116,10 @@ fn emit_struct_methods(
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						<#ty as ::revision::SkipRevisioned>::skip_revisioned(&mut __slice)?;
+						{
+							let reader = &mut __slice;
+							#converted_skip_call
+						}
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(())
@@ -1150,6 +1177,127 @@ fn emit_struct_methods(
 	Ok(out)
 }
 
+/// How a field is laid out on the wire. `indexed_*` fields use their indexed
+/// layout under the optimised encoding only, `fixed` / `specialised` ones
+/// their forced layout under the legacy encoding only; everything else goes
+/// through the type's own `DeserializeRevisioned` / `SkipRevisioned` impl.
+///
+/// All emitted calls read from a binding named `reader`.
+struct FieldCodec<'a> {
+	field: &'a Field,
+	/// Wire revisions in the optimised encoding.
+	optimised: Vec<u16>,
+	/// Whether there are wire revisions in the legacy encoding.
+	any_legacy: bool,
+}
+
+impl<'a> FieldCodec<'a> {
+	fn new(field: &'a Field, history: &[HistoryEntry]) -> Self {
+		Self {
+			field,
+			optimised: history
+				.iter()
+				.filter(|h| h.is_optimised())
+				.map(|h| h.revision.value as u16)
+				.collect(),
+			any_legacy: history.iter().any(|h| !h.is_optimised()),
+		}
+	}
+
+	/// Expression decoding the field under one encoding.
+	fn decode(&self, optimised: bool) -> syn::Result<TokenStream> {
+		let ty = &self.field.ty;
+		let opts = &self.field.attrs.options;
+		let reader = quote! { reader };
+		Ok(if optimised && opts.indexed_map {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(reader)?
+			}
+		} else if optimised && opts.indexed_seq {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(reader)?
+			}
+		} else if optimised && opts.indexed_set {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(reader)?
+			}
+		} else if !optimised && opts.fixed {
+			emit_deserialize_fixed_le(ty, &reader)?
+		} else if !optimised && opts.specialised {
+			emit_deserialize_specialised(ty, &reader)
+		} else {
+			quote! {
+				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
+			}
+		})
+	}
+
+	/// Statement skipping the field under one encoding.
+	fn skip(&self, optimised: bool) -> syn::Result<TokenStream> {
+		let ty = &self.field.ty;
+		let opts = &self.field.attrs.options;
+		let reader = quote! { reader };
+		Ok(if optimised && opts.indexed_map {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(reader)?;
+			}
+		} else if optimised && opts.indexed_seq {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(reader)?;
+			}
+		} else if optimised && opts.indexed_set {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(reader)?;
+			}
+		} else if !optimised && opts.fixed {
+			emit_skip_fixed_le(ty, &reader)?
+		} else if !optimised && opts.specialised {
+			emit_skip_specialised(ty, &reader)
+		} else {
+			quote! {
+				<#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?;
+			}
+		})
+	}
+
+	/// Dispatch on the encoding of the wire revision `rev`.
+	fn at(
+		&self,
+		rev: &TokenStream,
+		emit: impl Fn(bool) -> syn::Result<TokenStream>,
+	) -> syn::Result<TokenStream> {
+		let opts = &self.field.attrs.options;
+		let plain = !(opts.indexed_map
+			|| opts.indexed_seq
+			|| opts.indexed_set
+			|| opts.fixed
+			|| opts.specialised);
+		if plain || self.optimised.is_empty() {
+			return emit(false);
+		}
+		if !self.any_legacy {
+			return emit(true);
+		}
+		let revs = &self.optimised;
+		let optimised = emit(true)?;
+		let legacy = emit(false)?;
+		Ok(quote! {
+			match #rev {
+				#(#revs)|* => { #optimised }
+				_ => { #legacy }
+			}
+		})
+	}
+
+	fn decode_at(&self, rev: &TokenStream) -> syn::Result<TokenStream> {
+		self.at(rev, |optimised| self.decode(optimised))
+	}
+
+	fn skip_at(&self, rev: &TokenStream) -> syn::Result<TokenStream> {
+		self.at(rev, |optimised| self.skip(optimised))
+	}
+}
+
 /// Helper: return the suffix for `decode_<x>` / `skip_<x>` / `walk_<x>`.
 /// For named fields it's the field identifier; for tuple fields it's
 /// `field_<idx>` (matching the existing `FieldName::to_binding` convention).
-- 
2.43.0


From 7a7d8ba5c7bc2dcc374899593fbdeb0ed1ba769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:08 +0000
Subject: [PATCH 10/18] fix: read indexed_struct fields at the positions of the
 stored revision, refusing corrupt offsets

---
 revision-derive/src/expand/walk.rs | 209 ++++++++++++++++-------------
 1 file changed, 112 insertions(+), 97 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 51799c8..4a44fe5 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -160,24 +160,19 @@ pub fn emit_walk_impl(
 	//   declared size class, and return an OptimisedBorrowed walker with
 	//   `discriminant = variant_id` (the existing per-variant decode code on
 	//   the OptimisedBorrowed arm reads the borrowed payload directly).
-	let optimised_struct_field_count = match &item.kind {
-		ItemKind::Struct(s) => Some(alive_field_count(s, revision) as u32),
-		ItemKind::Enum(_) => None,
-	};
 	let optimised_skip_arms: Vec<TokenStream> = history
 		.iter()
 		.filter(|h| h.is_optimised())
 		.map(|h| -> syn::Result<TokenStream> {
 			let rev_lit = h.revision.value as u16;
 			match &item.kind {
-				ItemKind::Struct(_) => {
+				ItemKind::Struct(s) => {
 					if matches!(h.struct_kind, StructEncoding::Indexed) {
 						// Indexed struct: borrow the payload directly from the
 						// reader's buffer (no allocation) and return an
 						// IndexedBorrowed walker. Per-field methods jump via
 						// offsets in O(1).
-						let field_count = optimised_struct_field_count.unwrap_or(0) as usize;
-						let field_count_u16 = field_count as u16;
+						let field_count_u16 = alive_field_count(s, h.revision.value) as u16;
 						Ok(quote! {
 							#rev_lit => {
 								let mut __len_buf = [0u8; 4];
@@ -193,6 +188,7 @@ pub fn emit_walk_impl(
 									repr: #walker_repr_name::IndexedBorrowed {
 										bytes: __payload,
 										field_count: #field_count_u16,
+										wire_rev: __wire_rev,
 										pos: 0,
 										_marker: ::std::marker::PhantomData,
 									},
@@ -305,7 +301,7 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::IndexedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::IndexedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
@@ -376,6 +372,7 @@ fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> T
 			IndexedBorrowed {
 				bytes: &'r [u8],
 				field_count: u16,
+				wire_rev: u16,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
 			},
@@ -461,6 +458,46 @@ fn emit_struct_methods(
 		Fields::Unit => Vec::new(),
 	};
 
+	// Bytes of the field at position `idx` of an indexed payload. The offset
+	// table comes off the wire, so nothing about it is taken for granted.
+	out.append_all(quote! {
+		#[allow(dead_code)]
+		fn __indexed_field(
+			bytes: &'r [u8],
+			field_count: u16,
+			idx: usize,
+		) -> ::std::result::Result<&'r [u8], ::revision::Error> {
+			let __count = field_count as usize;
+			let __offset = |i: usize| -> ::std::option::Option<usize> {
+				let __raw = bytes.get(i * 4..i * 4 + 4)?;
+				::std::option::Option::Some(
+					u32::from_le_bytes(__raw.try_into().expect("4-byte slice")) as usize,
+				)
+			};
+			if bytes.len() < __count * 4 {
+				return ::std::result::Result::Err(::revision::Error::Deserialize(
+					"IndexedBorrowed offset table truncated".into(),
+				));
+			}
+			let __start = __offset(idx);
+			let __end = if idx + 1 < __count {
+				__offset(idx + 1)
+			} else {
+				::std::option::Option::Some(bytes.len())
+			};
+			match (__start, __end) {
+				(::std::option::Option::Some(__s), ::std::option::Option::Some(__e))
+					if __s >= __count * 4 && __s <= __e && __e <= bytes.len() =>
+				{
+					::std::result::Result::Ok(&bytes[__s..__e])
+				}
+				_ => ::std::result::Result::Err(::revision::Error::Deserialize(
+					"IndexedBorrowed field offsets out of range".into(),
+				)),
+			}
+		}
+	});
+
 	// Latest-schema fields are those existing at `revision`. We emit one set
 	// of methods per latest-schema field, in declaration order.
 	for (latest_idx, f) in
@@ -507,25 +544,50 @@ fn emit_struct_methods(
 		let current_optimised =
 			history.iter().any(|h| h.revision.value == revision && h.is_optimised());
 		let indexed_decode_call = codec.decode(true)?;
+		// Position of this field in the offset table of each indexed wire
+		// revision that has it.
+		let indexed_pos_arms: Vec<TokenStream> = history
+			.iter()
+			.filter(|h| h.is_optimised() && matches!(h.struct_kind, StructEncoding::Indexed))
+			.filter(|h| f.attrs.options.exists_at(h.revision.value))
+			.map(|h| {
+				let rev = h.revision.value;
+				let rev_lit = rev as u16;
+				let idx = fields_iter
+					.iter()
+					.take_while(|o| !std::ptr::eq::<Field>(**o, *f))
+					.filter(|o| o.attrs.options.exists_at(rev))
+					.count();
+				quote! { #rev_lit => ::std::option::Option::Some(#idx), }
+			})
+			.collect();
+		let indexed_pos = quote! {
+			match *wire_rev {
+				#(#indexed_pos_arms)*
+				_ => ::std::option::Option::None,
+			}
+		};
 		let converted_decode_call = codec.decode(current_optimised)?;
 		let converted_skip_call = codec.skip(current_optimised)?;
 
+		let absent_value = if always_present {
+			quote! { ::std::unreachable!("field present at every revision") }
+		} else if let Some(default) = f.attrs.options.default.as_ref() {
+			let default = Ident::new(&default.value(), default.span());
+			quote! { #owner_name::#default(*wire_rev)? }
+		} else {
+			quote! { <#ty as ::std::default::Default>::default() }
+		};
 		let decode_wire_body = if always_present {
 			quote! {
 				let __v = #field_decode_call;
 			}
 		} else {
-			let default_expr = if let Some(default) = f.attrs.options.default.as_ref() {
-				let default = Ident::new(&default.value(), default.span());
-				quote! { #owner_name::#default(*wire_rev)? }
-			} else {
-				quote! { <#ty as ::std::default::Default>::default() }
-			};
 			quote! {
 				let __v = if *wire_rev >= #start_val {
 					#field_decode_call
 				} else {
-					#default_expr
+					#absent_value
 				};
 			}
 		};
@@ -640,27 +702,14 @@ fn emit_struct_methods(
 		let fast_path_indexed_borrowed =
 			|view_ty: &TokenStream, self_expr: &TokenStream| -> TokenStream {
 				quote! {
-					if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &#self_expr.repr {
-						let __bytes_borrow: &'r [u8] = *bytes;
-						let __fc = *field_count as usize;
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							__bytes_borrow[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < __fc {
-							u32::from_le_bytes(
-								__bytes_borrow[__off_base + 4..__off_base + 8]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							__bytes_borrow.len()
-						};
-						return ::std::result::Result::Ok(
-							#view_ty::new(::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end])),
-						);
+					if let #walker_repr_name::IndexedBorrowed { bytes, field_count, wire_rev, .. } = &#self_expr.repr {
+						let __pos: ::std::option::Option<usize> = #indexed_pos;
+						if let ::std::option::Option::Some(__pos) = __pos {
+							let __field = Self::__indexed_field(*bytes, *field_count, __pos)?;
+							return ::std::result::Result::Ok(
+								#view_ty::new(::std::borrow::Cow::Borrowed(__field)),
+							);
+						}
 					}
 				}
 			};
@@ -934,17 +983,17 @@ fn emit_struct_methods(
 		// - `ConvertedOwned`: copy the field out of the parent's
 		//   materialised bytes. Returns `Cow::Owned`. Rare cross-rev
 		//   `convert_fn` path.
+		let absent_bytes_msg = format!(
+			"into_{}_bytes not available at wire revision {{}}: field added at revision {}",
+			method_base, start_val,
+		);
 		let into_field_bytes_wire_rev_check = if always_present {
 			quote! {}
 		} else {
-			let bytes_err_msg = format!(
-				"into_{}_bytes not available at wire revision {{}}: field added at revision {}",
-				method_base, start_val,
-			);
 			quote! {
 				if wire_rev < #start_val {
 					return ::std::result::Result::Err(::revision::Error::Conversion(
-						::std::format!(#bytes_err_msg, wire_rev),
+						::std::format!(#absent_bytes_msg, wire_rev),
 					));
 				}
 			}
@@ -952,44 +1001,19 @@ fn emit_struct_methods(
 		let into_field_bytes_body = quote! {
 			let __self = self;
 			// IndexedBorrowed fast path — borrow from the offset table.
-			if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &__self.repr {
-				let __bytes_borrow: &'r [u8] = *bytes;
-				let __fc = *field_count as usize;
-				let __off_base = (#pos_lit as usize) * 4;
-				// Bounds-check the offset table reads. The non-last-field
-				// branch reads two consecutive entries, so it needs 8
-				// bytes; the last-field branch only needs its own 4.
-				let __needed = if (#pos_lit as usize) + 1 < __fc { 8 } else { 4 };
-				if __off_base + __needed > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed offset table truncated".into(),
-					));
-				}
-				let __start = u32::from_le_bytes(
-					__bytes_borrow[__off_base..__off_base + 4]
-						.try_into()
-						.expect("4-byte slice"),
-				) as usize;
-				let __end = if (#pos_lit as usize) + 1 < __fc {
-					u32::from_le_bytes(
-						__bytes_borrow[__off_base + 4..__off_base + 8]
-							.try_into()
-							.expect("4-byte slice"),
-					) as usize
-				} else {
-					__bytes_borrow.len()
+			if let #walker_repr_name::IndexedBorrowed { bytes, field_count, wire_rev, .. } = &__self.repr {
+				let __pos: ::std::option::Option<usize> = #indexed_pos;
+				return match __pos {
+					::std::option::Option::Some(__pos) => {
+						let __field = Self::__indexed_field(*bytes, *field_count, __pos)?;
+						::std::result::Result::Ok(::std::borrow::Cow::Borrowed(__field))
+					}
+					::std::option::Option::None => {
+						::std::result::Result::Err(::revision::Error::Conversion(
+							::std::format!(#absent_bytes_msg, *wire_rev),
+						))
+					}
 				};
-				// Validate the slice bounds before indexing — a malformed
-				// payload with `start > end` or `end > len` would otherwise
-				// panic in the slice op.
-				if __start > __end || __end > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed field offsets out of range".into(),
-					));
-				}
-				return ::std::result::Result::Ok(
-					::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end]),
-				);
 			}
 			// Wire / ConvertedOwned: consume `__self.repr`.
 			match __self.repr {
@@ -1056,29 +1080,20 @@ fn emit_struct_methods(
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
-					#walker_repr_name::IndexedBorrowed { bytes, field_count, pos, .. } => {
+					#walker_repr_name::IndexedBorrowed { bytes, field_count, wire_rev, pos, .. } => {
 						// Indexed struct: parse this field's offset from the
 						// table at the start of `bytes`. O(1) — two u32 reads,
 						// no Vec<u32> alloc.
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							bytes[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < (*field_count as usize) {
-							let __next_base = __off_base + 4;
-							u32::from_le_bytes(
-								bytes[__next_base..__next_base + 4]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							bytes.len()
+						let __pos: ::std::option::Option<usize> = #indexed_pos;
+						let __v = match __pos {
+							::std::option::Option::Some(__pos) => {
+								let mut __slice: &[u8] =
+									Self::__indexed_field(*bytes, *field_count, __pos)?;
+								let reader = &mut __slice;
+								#indexed_decode_call
+							}
+							::std::option::Option::None => #absent_value,
 						};
-						let mut __slice: &[u8] = &bytes[__start..__end];
-						let reader = &mut __slice;
-						let __v = #indexed_decode_call;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
-- 
2.43.0


From 5803019bd076ceb7d1e6adaec6420d9d32d8adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:36 +0000
Subject: [PATCH 11/18] fix: walk values converted to an optimised current
 revision past their envelope

---
 revision-derive/src/expand/walk.rs | 71 ++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 4a44fe5..0b42690 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -99,19 +99,34 @@ pub fn emit_walk_impl(
 		ItemKind::Enum(_) => emit_enum_walker_struct(&walker_name, &walker_repr_name),
 	};
 
+	let current_entry = history.iter().find(|h| h.revision.value == revision);
+	let current_optimised = current_entry.is_some_and(|h| h.is_optimised());
+
 	// Construction: read the u16 header, optionally materialise.
 	let materialise_branch = if !materialise_supported {
 		quote! {}
 	} else {
 		match &item.kind {
-			ItemKind::Struct(_) => quote! {
+			ItemKind::Struct(s) => {
+				// Fields start after the `u32_le` length and the offset table
+				// when the current revision is optimised.
+				let prologue = match current_entry {
+					Some(h) if h.is_optimised() => {
+						4 + match h.struct_kind {
+							StructEncoding::Indexed => alive_field_count(s, revision) * 4,
+							StructEncoding::Default => 0,
+						}
+					}
+					_ => 0usize,
+				};
+				quote! {
 				if __wire_rev != #revision_lit {
 					let __value = Self::__deserialize_after_header(reader, __wire_rev)?;
 					let mut __buf = ::std::vec::Vec::new();
 					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
 					let mut __slice: &[u8] = __buf.as_slice();
 					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let __cursor = __buf.len() - __slice.len();
+					let __cursor = __buf.len() - __slice.len() + #prologue;
 					return ::std::result::Result::Ok(#walker_name {
 						repr: #walker_repr_name::ConvertedOwned {
 							bytes: __buf,
@@ -121,8 +136,26 @@ pub fn emit_walk_impl(
 						},
 					});
 				}
-			},
-			ItemKind::Enum(_) => quote! {
+				}
+			}
+			ItemKind::Enum(_) => {
+				let read_discriminant = if current_optimised {
+					// Tag, then the length of variable-length payloads.
+					quote! {
+						let __tag = ::revision::optimised::tag::read_tag(&mut __ms)?;
+						if let ::revision::optimised::tag::SizeClass::Varlen = __tag.size_class()? {
+							let mut __len_buf = [0u8; 4];
+							::std::io::Read::read_exact(&mut __ms, &mut __len_buf)
+								.map_err(::revision::Error::Io)?;
+						}
+						let __d = __tag.variant_id() as u32;
+					}
+				} else {
+					quote! {
+						let __d = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __ms)?;
+					}
+				};
+				quote! {
 				if __wire_rev != #revision_lit {
 					let __value = Self::__deserialize_after_header(reader, __wire_rev)?;
 					let mut __buf = ::std::vec::Vec::new();
@@ -132,7 +165,7 @@ pub fn emit_walk_impl(
 					let mut __cursor = __buf.len() - __slice.len();
 					let __mat_disc = {
 						let mut __ms: &[u8] = &__buf[__cursor..];
-						let __d = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __ms)?;
+						#read_discriminant
 						__cursor = __buf.len() - __ms.len();
 						__d
 					};
@@ -146,7 +179,8 @@ pub fn emit_walk_impl(
 						},
 					});
 				}
-			},
+				}
+			}
 		}
 	};
 
@@ -699,20 +733,21 @@ fn emit_struct_methods(
 		// `self_expr` is the identifier used for the walker instance — `self`
 		// for `walk_<field>(&mut self)` and `__self` for
 		// `into_walk_<field>(self)` after the `let mut __self = self;` rebind.
-		let fast_path_indexed_borrowed =
-			|view_ty: &TokenStream, self_expr: &TokenStream| -> TokenStream {
-				quote! {
-					if let #walker_repr_name::IndexedBorrowed { bytes, field_count, wire_rev, .. } = &#self_expr.repr {
-						let __pos: ::std::option::Option<usize> = #indexed_pos;
-						if let ::std::option::Option::Some(__pos) = __pos {
-							let __field = Self::__indexed_field(*bytes, *field_count, __pos)?;
-							return ::std::result::Result::Ok(
-								#view_ty::new(::std::borrow::Cow::Borrowed(__field)),
-							);
-						}
+		let fast_path_indexed_borrowed = |view_ty: &TokenStream,
+		                                  self_expr: &TokenStream|
+		 -> TokenStream {
+			quote! {
+				if let #walker_repr_name::IndexedBorrowed { bytes, field_count, wire_rev, .. } = &#self_expr.repr {
+					let __pos: ::std::option::Option<usize> = #indexed_pos;
+					if let ::std::option::Option::Some(__pos) = __pos {
+						let __field = Self::__indexed_field(*bytes, *field_count, __pos)?;
+						return ::std::result::Result::Ok(
+							#view_ty::new(::std::borrow::Cow::Borrowed(__field)),
+						);
 					}
 				}
-			};
+			}
+		};
 		// Wire revisions at which this field is on the wire in its indexed
 		// layout. At any other revision the view is re-encoded from the
 		// decoded (or defaulted) value.
-- 
2.43.0


From 1714e7c66388147eaf1c9570a58d4debbcc580cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:29 +0000
Subject: [PATCH 12/18] fix: identify optimised enum variants by their number
 at the stored revision

---
 revision-derive/src/expand/walk.rs | 112 +++++++++++++++++++++++------
 1 file changed, 91 insertions(+), 21 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 0b42690..a57d2ed 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -289,7 +289,7 @@ pub fn emit_walk_impl(
 	// Per-type method body
 	let methods = match &item.kind {
 		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, history, s)?,
-		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
+		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, history, e)?,
 	};
 
 	// Introspection tables
@@ -310,13 +310,13 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::OptimisedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::OptimisedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
 
-			/// Variant discriminant on the wire (for `Wire`) or on the
-			/// re-encoded current-rev bytes (for the borrowed / owned arms).
+			/// Variant discriminant on the wire (for the `Wire` and borrowed
+			/// arms) or on the re-encoded current-rev bytes (for the owned arm).
 			/// Use
 			/// [`walk_revisioned_variant_name`](Self::walk_revisioned_variant_name)
 			/// to map this to a variant identifier.
@@ -451,6 +451,8 @@ fn emit_enum_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> Tok
 			/// after the `u32_le` length prefix).
 			OptimisedBorrowed {
 				bytes: &'r [u8],
+				wire_rev: u16,
+				/// Variant discriminant on the wire.
 				discriminant: u32,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
@@ -1371,9 +1373,12 @@ fn emit_enum_methods(
 	enum_name: &Ident,
 	walker_repr_name: &Ident,
 	revision: usize,
+	history: &[HistoryEntry],
 	e: &Enum,
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
+	let current_optimised =
+		history.iter().any(|h| h.revision.value == revision && h.is_optimised());
 
 	// Per-revision discriminant tables. We need:
 	// - For `into_<variant>` at runtime we look up "what discriminant does
@@ -1426,21 +1431,19 @@ fn emit_enum_methods(
 
 		out.append_all(quote! {
 			/// Returns `true` if the wire's discriminant identifies this variant
-			/// at the wire revision (or, for borrowed / owned walkers, on the
-			/// current-rev bytes).
+			/// at the wire revision (or, for owned walkers, on the current-rev
+			/// bytes).
 			#[inline]
 			pub fn #is_name(&self) -> bool {
 				match &self.repr {
-					#walker_repr_name::Wire { wire_rev, discriminant, .. } => {
+					#walker_repr_name::Wire { wire_rev, discriminant, .. }
+					| #walker_repr_name::OptimisedBorrowed { wire_rev, discriminant, .. } => {
 						let __expected: ::std::option::Option<u32> = match *wire_rev {
 							#(#wire_disc_arms)*
 							_ => ::std::option::Option::None,
 						};
 						__expected == ::std::option::Option::Some(*discriminant)
 					}
-					#walker_repr_name::OptimisedBorrowed { discriminant, .. } => {
-						*discriminant == #current_disc
-					}
 					#walker_repr_name::ConvertedOwned { discriminant, .. } => {
 						*discriminant == #current_disc
 					}
@@ -1492,6 +1495,69 @@ fn emit_enum_methods(
 					.find(|f| f.attrs.options.exists_at(revision))
 					.expect("variant has a field at current rev");
 				let inner_ty = &inner_field.ty;
+				// Legacy variants honour `fixed` / `specialised`, optimised
+				// ones write every field through its type's own impl.
+				let codec = FieldCodec::new(inner_field, history);
+				let wire_decode = codec.decode(false)?;
+				let plain_decode = quote! {
+					<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
+				};
+				let converted_decode = if current_optimised {
+					plain_decode.clone()
+				} else {
+					codec.decode(false)?
+				};
+				// The field may have been added to the variant later on.
+				let start_val =
+					inner_field.attrs.options.start.as_ref().map(|s| s.value).unwrap_or(0) as u16;
+				let wire_value = if start_val == 0 {
+					wire_decode
+				} else {
+					let default_expr =
+						if let Some(default) = inner_field.attrs.options.default.as_ref() {
+							let default = Ident::new(&default.value(), default.span());
+							quote! { #enum_name::#default(wire_rev)? }
+						} else {
+							quote! { <#inner_ty as ::std::default::Default>::default() }
+						};
+					quote! {
+						if wire_rev >= #start_val {
+							#wire_decode
+						} else {
+							#default_expr
+						}
+					}
+				};
+				let absent_msg = format!(
+					"into_{snake} not available at wire revision {{}}: field added at revision {start_val}",
+				);
+				let into_absent_check = if start_val == 0 {
+					quote! {}
+				} else {
+					quote! {
+						if wire_rev < #start_val {
+							return ::std::result::Result::Err(::revision::Error::Conversion(
+								::std::format!(#absent_msg, wire_rev),
+							));
+						}
+					}
+				};
+				let into_layout_check =
+					if inner_field.attrs.options.fixed || inner_field.attrs.options.specialised {
+						let msg = format!(
+							"into_{snake} is not supported on a field in a forced layout; use decode_{snake}",
+						);
+						// The condition keeps the code below reachable.
+						quote! {
+							if wire_rev != 0 {
+								return ::std::result::Result::Err(::revision::Error::Conversion(
+									#msg.into(),
+								));
+							}
+						}
+					} else {
+						quote! {}
+					};
 				out.append_all(quote! {
 					/// Walk into the payload of the `#variant_ident` variant.
 					///
@@ -1515,7 +1581,10 @@ fn emit_enum_methods(
 							));
 						}
 						match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
+							#[allow(unused_variables)]
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								#into_absent_check
+								#into_layout_check
 								<#inner_ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
 							}
 							#walker_repr_name::OptimisedBorrowed { .. } => {
@@ -1551,16 +1620,19 @@ fn emit_enum_methods(
 							));
 						}
 						match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)
+							#[allow(unused_variables)]
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								::std::result::Result::Ok(#wire_value)
 							}
 							#walker_repr_name::OptimisedBorrowed { bytes, .. } => {
 								let mut __slice: &[u8] = bytes;
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+								let reader = &mut __slice;
+								::std::result::Result::Ok(#plain_decode)
 							}
 							#walker_repr_name::ConvertedOwned { ref bytes, cursor, .. } => {
 								let mut __slice: &[u8] = &bytes[cursor..];
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+								let reader = &mut __slice;
+								::std::result::Result::Ok(#converted_decode)
 							}
 						}
 					}
@@ -1596,12 +1668,12 @@ fn emit_enum_methods(
 							));
 						}
 						let __bytes: ::std::borrow::Cow<'r, [u8]> = match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
+							#[allow(unused_variables)]
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
 								// Read the inner value then re-emit its bytes.
 								// One alloc + one re-serialise; matches the
 								// indexed-field view shape.
-								let __v: #inner_ty =
-									<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
+								let __v: #inner_ty = #wire_value;
 								let mut __buf = ::std::vec::Vec::new();
 								<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
 								::std::borrow::Cow::Owned(__buf)
@@ -1691,9 +1763,6 @@ fn emit_enum_methods(
 		}
 	}
 
-	// Suppress an unused-variable warning when the enum has zero variants
-	// at the current revision.
-	let _ = enum_name;
 	Ok(out)
 }
 
@@ -1929,6 +1998,7 @@ fn emit_optimised_enum_walker_arm(
 			return ::std::result::Result::Ok(#walker_name {
 				repr: #walker_repr_name::OptimisedBorrowed {
 					bytes: __payload,
+					wire_rev: __wire_rev,
 					discriminant: __variant_id as u32,
 					pos: 0,
 					_marker: ::std::marker::PhantomData,
-- 
2.43.0


From 64765f1fde3b99951f57b0554797b90289f95cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 13/18] fix: an indexed map payload with the table flag and no
 entries no longer panics

---
 src/optimised/validation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimised/validation.rs b/src/optimised/validation.rs
index f389082..323d81d 100644
--- a/src/optimised/validation.rs
+++ b/src/optimised/validation.rs
@@ -79,6 +79,9 @@ pub fn validate_map_prologue(
 	if offset_table.len() != count.saturating_mul(8) {
 		return Err(Error::OptimisedOffsetsNonMonotonic);
 	}
+	if count == 0 {
+		return Ok(());
+	}
 	validate_struct_prologue(offset_table, count, 8, keys_region_len)?;
 	validate_struct_prologue(&offset_table[4..], count, 8, vals_region_len)?;
 	Ok(())
-- 
2.43.0


From e28ad3bd956f87ac0d623e482ab42c2f4fd19953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:41 +0000
Subject: [PATCH 14/18] fix: a field called reader or writer no longer shadows
 the generated code's own locals

---
 revision-derive/src/ast/mod.rs                |  4 ++-
 revision-derive/src/expand/de.rs              | 18 ++++++-------
 .../src/expand/optimised/enum_codegen.rs      | 25 +++++++++----------
 .../src/expand/optimised/struct_codegen.rs    | 15 +++++++++--
 revision-derive/src/expand/ser.rs             | 12 ++++-----
 5 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/revision-derive/src/ast/mod.rs b/revision-derive/src/ast/mod.rs
index 0114be7..6496cda 100644
--- a/revision-derive/src/ast/mod.rs
+++ b/revision-derive/src/ast/mod.rs
@@ -206,7 +206,9 @@ pub enum FieldName {
 impl FieldName {
 	pub fn to_binding(&self) -> Ident {
 		match self {
-			FieldName::Ident(x) => x.clone(),
+			// Not the bare name: it would shadow the generated code's own
+			// locals, e.g. for a field called `reader`.
+			FieldName::Ident(x) => format_ident!("__field_{}", x),
 			FieldName::Index(x) => {
 				format_ident!("field_{}", x.index)
 			}
diff --git a/revision-derive/src/expand/de.rs b/revision-derive/src/expand/de.rs
index 70f40b6..16112ad 100644
--- a/revision-derive/src/expand/de.rs
+++ b/revision-derive/src/expand/de.rs
@@ -139,12 +139,11 @@ impl<'ast> Visit<'ast> for DeserializeVisitor<'_> {
 			} => {
 				self.stream.append_all(fields_binding);
 
-				let bindings = fields
-					.iter()
-					.filter(|x| x.attrs.options.exists_at(self.target))
-					.map(|x| x.name.to_binding());
+				let alive = fields.iter().filter(|x| x.attrs.options.exists_at(self.target));
+				let names = alive.clone().map(|x| &x.name);
+				let bindings = alive.map(|x| x.name.to_binding());
 				self.stream.append_all(quote! {
-					let mut __this = Self{ #(#bindings),* };
+					let mut __this = Self{ #(#names: #bindings),* };
 				});
 			}
 			Fields::Unnamed {
@@ -237,14 +236,13 @@ impl<'ast> Visit<'ast> for DeserializeVariant<'_> {
 			} => {
 				let mut bindings = TokenStream::new();
 				let mut create = TokenStream::new();
-				let field_names = fields
-					.iter()
-					.filter(|x| x.attrs.options.exists_at(self.target))
-					.map(|x| x.name.to_binding());
+				let alive = fields.iter().filter(|x| x.attrs.options.exists_at(self.target));
+				let field_names = alive.clone().map(|x| &x.name);
+				let field_bindings = alive.map(|x| x.name.to_binding());
 
 				let field_names_c = field_names.clone();
 				bindings.append_all(quote! {
-					let mut __fields = #fields_struct_name{ #(#field_names_c),* };
+					let mut __fields = #fields_struct_name{ #(#field_names_c: #field_bindings),* };
 				});
 
 				let variant_name = &i.ident;
diff --git a/revision-derive/src/expand/optimised/enum_codegen.rs b/revision-derive/src/expand/optimised/enum_codegen.rs
index 4bc2846..5859fa3 100644
--- a/revision-derive/src/expand/optimised/enum_codegen.rs
+++ b/revision-derive/src/expand/optimised/enum_codegen.rs
@@ -300,9 +300,10 @@ fn variant_pattern(name: &Ident, v: &Variant, revision: usize) -> TokenStream {
 			fields,
 			..
 		} => {
-			let bindings =
-				fields.iter().filter(|f| f.attrs.options.exists_at(revision)).map(|f| &f.name);
-			quote! { Self::#name { #(ref #bindings),* } }
+			let alive = fields.iter().filter(|f| f.attrs.options.exists_at(revision));
+			let names = alive.clone().map(|f| &f.name);
+			let bindings = alive.map(|f| f.name.to_binding());
+			quote! { Self::#name { #(#names: ref #bindings),* } }
 		}
 		Fields::Unnamed {
 			fields,
@@ -382,11 +383,10 @@ fn decode_variant_body(
 				fields,
 				..
 			} => {
-				let names = fields
-					.iter()
-					.filter(|f| f.attrs.options.exists_at(current))
-					.map(|f| f.name.to_binding());
-				quote! { #fields_struct_ident { #(#names),* } }
+				let alive = fields.iter().filter(|f| f.attrs.options.exists_at(current));
+				let names = alive.clone().map(|f| &f.name);
+				let bindings = alive.map(|f| f.name.to_binding());
+				quote! { #fields_struct_ident { #(#names: #bindings),* } }
 			}
 			Fields::Unnamed {
 				fields,
@@ -414,11 +414,10 @@ fn decode_variant_body(
 			fields,
 			..
 		} => {
-			let bindings = fields
-				.iter()
-				.filter(|f| f.attrs.options.exists_at(current))
-				.map(|f| f.name.to_binding());
-			quote! { Self::#name { #(#bindings),* } }
+			let alive = fields.iter().filter(|f| f.attrs.options.exists_at(current));
+			let names = alive.clone().map(|f| &f.name);
+			let bindings = alive.map(|f| f.name.to_binding());
+			quote! { Self::#name { #(#names: #bindings),* } }
 		}
 		Fields::Unnamed {
 			fields,
diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index c883074..3137d90 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -181,7 +181,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 
 		if exists_current && exists_target {
 			decode_each.append_all(decode);
-			bindings_for_construction.push(quote! { #binding });
+			bindings_for_construction.push(construct_field(f, &binding));
 		} else if !exists_current && exists_target {
 			// Field added later — synthesize.
 			let default = if let Some(default_fn) = &f.attrs.options.default {
@@ -194,7 +194,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 			decode_each.append_all(quote! {
 				let #binding: #ty = #default;
 			});
-			bindings_for_construction.push(quote! { #binding });
+			bindings_for_construction.push(construct_field(f, &binding));
 		} else if exists_current && !exists_target {
 			// Field on wire but removed in current type — decode and pass to convert_fn.
 			let convert = f
@@ -312,3 +312,14 @@ fn collect_fields(s: &Struct) -> Vec<&Field> {
 fn alive_fields(s: &Struct, revision: usize) -> Vec<&Field> {
 	collect_fields(s).into_iter().filter(|f| f.attrs.options.exists_at(revision)).collect()
 }
+
+/// The constructor argument that sets `f` from the local `binding`.
+fn construct_field(f: &Field, binding: &syn::Ident) -> TokenStream {
+	match f.colon_token {
+		Some(_) => {
+			let name = &f.name;
+			quote! { #name: #binding }
+		}
+		None => quote! { #binding },
+	}
+}
diff --git a/revision-derive/src/expand/ser.rs b/revision-derive/src/expand/ser.rs
index 0a07305..1ceca5e 100644
--- a/revision-derive/src/expand/ser.rs
+++ b/revision-derive/src/expand/ser.rs
@@ -46,7 +46,8 @@ impl<'ast> Visit<'ast> for SerializeVisitor<'_> {
 			} => {
 				for f in fields.iter().filter(|x| x.attrs.options.exists_at(self.revision)) {
 					let name = &f.name;
-					self.stream.append_all(quote! { let #name = &self.#name; });
+					let binding = f.name.to_binding();
+					self.stream.append_all(quote! { let #binding = &self.#name; });
 				}
 				self.stream.append_all(ser_fields);
 			}
@@ -171,12 +172,11 @@ impl<'ast> Visit<'ast> for SerializeVariant<'_> {
 				ref fields,
 				..
 			} => {
-				let bindings = fields
-					.iter()
-					.filter(|x| x.attrs.options.exists_at(self.revision))
-					.map(|x| &x.name);
+				let alive = fields.iter().filter(|x| x.attrs.options.exists_at(self.revision));
+				let names = alive.clone().map(|x| &x.name);
+				let bindings = alive.map(|x| x.name.to_binding());
 				self.stream.append_all(quote! {
-					{ #(ref #bindings),* }
+					{ #(#names: ref #bindings),* }
 				});
 
 				let mut fields_ser = TokenStream::new();
-- 
2.43.0


From 93e04764c8ac1fa34dd8e31ab7fca615eb1e4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:52 +0000
Subject: [PATCH 15/18] fix: fields with raw identifier names no longer panic
 the derive

---
 revision-derive/src/expand/walk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index a57d2ed..429914d 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -38,6 +38,7 @@
 use proc_macro2::TokenStream;
 use quote::{TokenStreamExt, format_ident, quote};
 use syn::Ident;
+use syn::ext::IdentExt;
 
 use std::collections::HashMap;
 
@@ -1355,7 +1356,7 @@ impl<'a> FieldCodec<'a> {
 /// `field_<idx>` (matching the existing `FieldName::to_binding` convention).
 fn field_method_base(name: &FieldName, fallback_idx: usize) -> String {
 	match name {
-		FieldName::Ident(i) => i.to_string(),
+		FieldName::Ident(i) => i.unraw().to_string(),
 		FieldName::Index(_) => format!("field_{}", fallback_idx),
 	}
 }
@@ -1864,7 +1865,7 @@ fn emit_field_tables(name: &Ident, revision: usize, s: &Struct) -> TokenStream {
 			.filter(|f| f.attrs.options.exists_at(r))
 			.map(|f| {
 				let lit = match &f.name {
-					FieldName::Ident(i) => i.to_string(),
+					FieldName::Ident(i) => i.unraw().to_string(),
 					FieldName::Index(i) => i.index.to_string(),
 				};
 				quote! { #lit }
-- 
2.43.0


From d4d488a0a7358b68509ec97605f3b1bd1eb2e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:25 +0000
Subject: [PATCH 16/18] fix: a removed field whose name is taken over by a
 later one is converted from its stored value

---
 revision-derive/src/ast/mod.rs                       | 12 ++++++++++++
 revision-derive/src/expand/de.rs                     |  8 ++++----
 .../src/expand/optimised/struct_codegen.rs           |  4 ++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/revision-derive/src/ast/mod.rs b/revision-derive/src/ast/mod.rs
index 6496cda..035569b 100644
--- a/revision-derive/src/ast/mod.rs
+++ b/revision-derive/src/ast/mod.rs
@@ -235,6 +235,18 @@ pub struct Field {
 }
 
 impl Field {
+	/// The local that holds this field while data is decoded into `target`.
+	/// A field removed by then gets one of its own, as a later field may
+	/// have taken over its name.
+	pub fn decode_binding(&self, target: usize) -> Ident {
+		let binding = self.name.to_binding();
+		if self.attrs.options.exists_at(target) {
+			binding
+		} else {
+			format_ident!("__removed_{}", binding)
+		}
+	}
+
 	pub fn parse_unnamed(input: ParseStream) -> syn::Result<Self> {
 		let attrs = input.parse()?;
 		let vis = input.parse()?;
diff --git a/revision-derive/src/expand/de.rs b/revision-derive/src/expand/de.rs
index 16112ad..9d30c0c 100644
--- a/revision-derive/src/expand/de.rs
+++ b/revision-derive/src/expand/de.rs
@@ -183,7 +183,7 @@ impl<'ast> Visit<'ast> for DeserializeVisitor<'_> {
 		for f in fields.iter().filter(|f| {
 			f.attrs.options.exists_at(self.current) && !f.attrs.options.exists_at(self.target)
 		}) {
-			let binding = f.name.to_binding();
+			let binding = f.decode_binding(self.target);
 			let convert = f
 				.attrs
 				.options
@@ -256,7 +256,7 @@ impl<'ast> Visit<'ast> for DeserializeVariant<'_> {
 					x.attrs.options.exists_at(self.current)
 						&& !x.attrs.options.exists_at(self.target)
 				}) {
-					let binding = f.name.to_binding();
+					let binding = f.decode_binding(self.target);
 					let convert = f
 						.attrs
 						.options
@@ -303,7 +303,7 @@ impl<'ast> Visit<'ast> for DeserializeVariant<'_> {
 					x.attrs.options.exists_at(self.current)
 						&& !x.attrs.options.exists_at(self.target)
 				}) {
-					let binding = f.name.to_binding();
+					let binding = f.decode_binding(self.target);
 					let convert = f
 						.attrs
 						.options
@@ -391,7 +391,7 @@ impl<'ast> Visit<'ast> for DeserializeFields<'_> {
 				..
 			} => {
 				for f in fields.iter() {
-					let binding = f.name.to_binding();
+					let binding = f.decode_binding(self.target);
 
 					let exists_current = f.attrs.options.exists_at(self.current);
 					let exists_target = f.attrs.options.exists_at(self.target);
diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index 3137d90..5a214a4 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -153,7 +153,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 	for f in &all_fields {
 		let exists_current = f.attrs.options.exists_at(current);
 		let exists_target = f.attrs.options.exists_at(target);
-		let binding = f.name.to_binding();
+		let binding = f.decode_binding(target);
 		let ty = &f.ty;
 
 		// Fields on the wire use the same layout whether or not they still
@@ -228,7 +228,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 		let exists_current = f.attrs.options.exists_at(current);
 		let exists_target = f.attrs.options.exists_at(target);
 		if exists_current && !exists_target {
-			let binding = f.name.to_binding();
+			let binding = f.decode_binding(target);
 			let convert = f
 				.attrs
 				.options
-- 
2.43.0


From 44620f138ae0ad1b6074720347f1ec3481e67378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 17/18] fix: accept explicit discriminants on enum variants

The parser looked for a colon where the discriminant's equals sign stands, so
a variant like `A = 5` was refused with "expected `,`".
---
 revision-derive/src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/revision-derive/src/ast/mod.rs b/revision-derive/src/ast/mod.rs
index 035569b..b43eb03 100644
--- a/revision-derive/src/ast/mod.rs
+++ b/revision-derive/src/ast/mod.rs
@@ -122,7 +122,7 @@ impl Parse for Variant {
 			Fields::Unit
 		};
 
-		let discriminant = if input.peek(Token![:]) {
+		let discriminant = if input.peek(Token![=]) {
 			Some((input.parse()?, input.parse()?))
 		} else {
 			None
-- 
2.43.0


From f7fb4127097f9e1181875443c130fa36fe1a9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:29 +0000
Subject: [PATCH 18/18] fix: accept raw identifiers as names of enums and
 variants

The names derived from them (fields structs and walker methods) kept the
`r#` prefix in the middle, which made the macro panic.
---
 revision-derive/src/ast/mod.rs                       | 4 ++--
 revision-derive/src/expand/de.rs                     | 4 ++--
 revision-derive/src/expand/optimised/enum_codegen.rs | 2 +-
 revision-derive/src/expand/walk.rs                   | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/revision-derive/src/ast/mod.rs b/revision-derive/src/ast/mod.rs
index b43eb03..6b419c6 100644
--- a/revision-derive/src/ast/mod.rs
+++ b/revision-derive/src/ast/mod.rs
@@ -83,14 +83,14 @@ pub struct Variant {
 
 impl Variant {
 	/// Returns the name of the fields struct of this variant
-	pub fn fields_name(&self, enum_name: &str) -> Ident {
+	pub fn fields_name(&self, enum_name: &Ident) -> Ident {
 		self.attrs
 			.options
 			.fields_name
 			.as_ref()
 			.map(|x| Ident::new(&x.value(), x.span()))
 			.unwrap_or_else(|| {
-				Ident::new(&format!("{}{}Fields", enum_name, self.ident), self.ident.span())
+				format_ident!("{}{}Fields", enum_name, self.ident, span = self.ident.span())
 			})
 	}
 }
diff --git a/revision-derive/src/expand/de.rs b/revision-derive/src/expand/de.rs
index 9d30c0c..72123f4 100644
--- a/revision-derive/src/expand/de.rs
+++ b/revision-derive/src/expand/de.rs
@@ -28,7 +28,7 @@ impl<'a> EnumStructsVisitor<'a> {
 impl<'ast> Visit<'ast> for EnumStructsVisitor<'_> {
 	fn visit_enum(&mut self, i: &'ast Enum) -> syn::Result<()> {
 		for v in i.variants.iter() {
-			let name = v.fields_name(&i.name.to_string());
+			let name = v.fields_name(&i.name);
 
 			let new_struct = match v.fields {
 				Fields::Named {
@@ -227,7 +227,7 @@ impl<'ast> Visit<'ast> for DeserializeVariant<'_> {
 		}
 		.visit_variant(i)?;
 
-		let fields_struct_name = i.fields_name(&self.name.to_string());
+		let fields_struct_name = i.fields_name(&self.name);
 
 		let (bindings, create) = match i.fields {
 			Fields::Named {
diff --git a/revision-derive/src/expand/optimised/enum_codegen.rs b/revision-derive/src/expand/optimised/enum_codegen.rs
index 5859fa3..375d5ea 100644
--- a/revision-derive/src/expand/optimised/enum_codegen.rs
+++ b/revision-derive/src/expand/optimised/enum_codegen.rs
@@ -375,7 +375,7 @@ fn decode_variant_body(
 			));
 		};
 		let convert_ident = syn::Ident::new(&convert.value(), convert.span());
-		let fields_struct_ident = v.fields_name(&enum_name.to_string());
+		let fields_struct_ident = v.fields_name(enum_name);
 		let wire_rev_lit = current as u16;
 
 		let construction = match &v.fields {
diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 429914d..8c54ec3 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -1415,7 +1415,7 @@ fn emit_enum_methods(
 
 	for (v, current_disc, per_rev) in &per_variant {
 		let variant_ident = &v.ident;
-		let snake = snake_case(&variant_ident.to_string());
+		let snake = snake_case(&variant_ident.unraw().to_string());
 		let into_name = format_ident!("into_{}", snake);
 		let is_name = format_ident!("is_{}", snake);
 		let decode_name = format_ident!("decode_{}", snake);
@@ -1794,7 +1794,7 @@ fn emit_variant_tables(name: &Ident, revision: usize, e: &Enum) -> syn::Result<T
 		let mut entries = Vec::new();
 		for v in e.variants.iter().filter(|v| v.attrs.options.exists_at(r)) {
 			if let Some(d) = discs.get(&v.ident) {
-				let name_str = v.ident.to_string();
+				let name_str = v.ident.unraw().to_string();
 				name_arms.push(quote! { #d => ::std::option::Option::Some(#name_str), });
 				entries.push(quote! { (#name_str, #d) });
 			}
-- 
2.43.0

