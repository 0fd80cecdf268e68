From 32a6b0e4f5e3c59d395ba0bd7da8c03d3b92c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:42 +0000
Subject: [PATCH 01/12] fix: write bool with write_all so short and interrupted
 writes are not lost

---
 src/implementations/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations/primitives.rs b/src/implementations/primitives.rs
index 6645e8c..fc2f9d9 100644
--- a/src/implementations/primitives.rs
+++ b/src/implementations/primitives.rs
@@ -143,7 +143,7 @@ impl SerializeRevisioned for bool {
 	#[inline]
 	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
 		let v = *self as u8;
-		w.write(&[v]).map_err(Error::Io)?;
+		w.write_all(&[v]).map_err(Error::Io)?;
 		Ok(())
 	}
 }
-- 
2.43.0


From e9038225b21dfc58addcc348fb1819ff18e07864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 02/12] fix: reject out of range Duration and SystemTime
 instead of panicking on decode

---
 src/implementations/duration.rs    | 5 ++++-
 src/implementations/system_time.rs | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/implementations/duration.rs b/src/implementations/duration.rs
index bdc15dc..daaba19 100644
--- a/src/implementations/duration.rs
+++ b/src/implementations/duration.rs
@@ -18,7 +18,10 @@ impl DeserializeRevisioned for Duration {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = u64::deserialize_revisioned(reader)?;
 		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(Duration::new(secs, nanos))
+		// `Duration::new` panics when carrying the nanoseconds overflows the seconds.
+		Duration::from_secs(secs)
+			.checked_add(Duration::from_nanos(nanos as u64))
+			.ok_or_else(|| Error::Deserialize("duration out of range".to_owned()))
 	}
 }
 
diff --git a/src/implementations/system_time.rs b/src/implementations/system_time.rs
index 6887a7b..0e8987a 100644
--- a/src/implementations/system_time.rs
+++ b/src/implementations/system_time.rs
@@ -18,9 +18,10 @@ impl SerializeRevisioned for SystemTime {
 impl DeserializeRevisioned for SystemTime {
 	#[inline]
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
-		let secs = u64::deserialize_revisioned(reader)?;
-		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(UNIX_EPOCH + Duration::new(secs, nanos))
+		let duration = Duration::deserialize_revisioned(reader)?;
+		UNIX_EPOCH
+			.checked_add(duration)
+			.ok_or_else(|| Error::Deserialize("system time out of range".to_owned()))
 	}
 }
 
-- 
2.43.0


From d8076902b301fa67e70a3f7ab96715590ebd8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:51 +0000
Subject: [PATCH 03/12] fix: corrupt indexed headers are typed errors instead
 of overflow and slice panics

---
 src/optimised/indexed/map_walk.rs  | 9 +++++++--
 src/optimised/indexed/seq_walk.rs  | 2 +-
 src/optimised/indexed/serialize.rs | 6 ++++--
 src/optimised/validation.rs        | 3 +++
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/optimised/indexed/map_walk.rs b/src/optimised/indexed/map_walk.rs
index 8c80efa..c40a0c7 100644
--- a/src/optimised/indexed/map_walk.rs
+++ b/src/optimised/indexed/map_walk.rs
@@ -180,7 +180,7 @@ impl<'p, K, V> IndexedMapWalker<'p, K, V> {
 		let table_bytes = len
 			.checked_mul(8)
 			.ok_or_else(|| Error::Deserialize("indexed-map offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		// Borrow the interleaved `(key_off, val_off)` table directly from the
@@ -202,7 +202,12 @@ impl<'p, K, V> IndexedMapWalker<'p, K, V> {
 			u32::from_le_bytes(payload[cursor..cursor + 4].try_into().unwrap()) as usize;
 		cursor += 4;
 
-		if payload.len() < cursor + keys_region_len + vals_region_len {
+		// `u32 + u32` can overflow a 32-bit `usize`; an unrepresentable sum
+		// cannot fit the payload either.
+		let regions_len = keys_region_len
+			.checked_add(vals_region_len)
+			.ok_or(Error::OptimisedSubReaderOverrun)?;
+		if payload.len() - cursor < regions_len {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		let keys_region = &payload[cursor..cursor + keys_region_len];
diff --git a/src/optimised/indexed/seq_walk.rs b/src/optimised/indexed/seq_walk.rs
index 53ebe61..85f1efa 100644
--- a/src/optimised/indexed/seq_walk.rs
+++ b/src/optimised/indexed/seq_walk.rs
@@ -108,7 +108,7 @@ impl<'p, T> IndexedSeqWalker<'p, T> {
 		let table_bytes = len
 			.checked_mul(4)
 			.ok_or_else(|| Error::Deserialize("indexed-seq offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		let offsets = &payload[cursor..cursor + table_bytes];
diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index f249083..3eed73b 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -138,7 +138,8 @@ where
 		}
 		// Skip the offset tables + region lengths.
 		let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-		advance_read(r, table_bytes + 8)?;
+		advance_read(r, table_bytes)?;
+		advance_read(r, 8)?;
 		let mut keys: Vec<K> = Vec::with_capacity(len);
 		for _ in 0..len {
 			keys.push(K::deserialize_revisioned(r)?);
@@ -748,7 +749,8 @@ where
 	// Skip the offset table (len * 8) and region-length pair (8 bytes); we
 	// don't need them for sequential decode.
 	let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-	advance_read(reader, table_bytes + 8)?;
+	advance_read(reader, table_bytes)?;
+	advance_read(reader, 8)?;
 
 	// Dense keys (sorted ascending) come first, then dense values in matching
 	// order. Each K and V know their own wire length via DeserializeRevisioned.
diff --git a/src/optimised/validation.rs b/src/optimised/validation.rs
index f389082..323d81d 100644
--- a/src/optimised/validation.rs
+++ b/src/optimised/validation.rs
@@ -79,6 +79,9 @@ pub fn validate_map_prologue(
 	if offset_table.len() != count.saturating_mul(8) {
 		return Err(Error::OptimisedOffsetsNonMonotonic);
 	}
+	if count == 0 {
+		return Ok(());
+	}
 	validate_struct_prologue(offset_table, count, 8, keys_region_len)?;
 	validate_struct_prologue(&offset_table[4..], count, 8, vals_region_len)?;
 	Ok(())
-- 
2.43.0


From 56b6ceebd654fc4311b576859bcf33dc8cc02161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:51 +0000
Subject: [PATCH 04/12] fix: do not allocate from an unverified indexed
 collection length

---
 src/optimised/indexed/serialize.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index 3eed73b..5fe07e3 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -127,7 +127,9 @@ where
 		r.read_exact(&mut flag_buf).map_err(Error::Io)?;
 		let flags = flag_buf[0];
 		let len = read_varint(r)?;
-		let mut out: HashMap<K, V, S> = HashMap::with_capacity_and_hasher(len, S::default());
+		// The claimed length is unverified until the offset table has been
+		// read, so it must not drive an allocation here.
+		let mut out: HashMap<K, V, S> = HashMap::with_hasher(S::default());
 		if (flags & FLAG_INDEXED) == 0 {
 			for _ in 0..len {
 				let k = K::deserialize_revisioned(r)?;
@@ -148,6 +150,7 @@ where
 		for _ in 0..len {
 			values.push(V::deserialize_revisioned(r)?);
 		}
+		out.reserve(len);
 		for (k, v) in keys.into_iter().zip(values) {
 			out.insert(k, v);
 		}
@@ -784,8 +787,9 @@ where
 	let flags = flag_buf[0];
 	let len = read_varint(reader)?;
 	if (flags & FLAG_INDEXED) == 0 {
-		// Legacy fallback: pure `(elem)*` body.
-		let mut out = Vec::with_capacity(len);
+		// Legacy fallback: pure `(elem)*` body. The encoder only emits it below
+		// the threshold, and the claimed length is unverified.
+		let mut out = Vec::with_capacity(len.min(OFFSET_TABLE_MIN_LEN));
 		for _ in 0..len {
 			out.push(T::deserialize_revisioned(reader)?);
 		}
-- 
2.43.0


From ca66f75b8c16b18ba1819368f6519a19ea502f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 05/12] fix: skip specialised fields in their bulk encoding

The derived skip read a #[revision(specialised)] field with the type's own
skip, which uses the per-element layout when specialised-vectors is off.
---
 revision-derive/src/expand/skip.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/skip.rs b/revision-derive/src/expand/skip.rs
index 8df2522..aa4c322 100644
--- a/revision-derive/src/expand/skip.rs
+++ b/revision-derive/src/expand/skip.rs
@@ -6,7 +6,7 @@ use syn::Ident;
 
 use crate::ast::{Enum, Fields, Struct, Variant, Visit};
 
-use super::common::{CalcDiscriminant, emit_skip_fixed_le};
+use super::common::{CalcDiscriminant, emit_deserialize_specialised, emit_skip_fixed_le};
 use super::context::EncodingContext;
 use super::optimised;
 
@@ -157,6 +157,10 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							// There is no bulk skip: decode and drop the value.
+							let decode = emit_deserialize_specialised(ty, &quote! { reader });
+							quote! { let _ = #decode; }
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
@@ -174,6 +178,10 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							// There is no bulk skip: decode and drop the value.
+							let decode = emit_deserialize_specialised(ty, &quote! { reader });
+							quote! { let _ = #decode; }
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
-- 
2.43.0


From 6b7bb067df3106fda24a11ac7ce0b52f84a15362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 06/12] fix: decode a removed indexed field in its indexed
 encoding

An optimised revision writes an indexed_map/seq/set field through the
indexed encoder; decoding it after the field was removed used the plain
codec and handed garbage to convert_fn.
---
 .../src/expand/optimised/struct_codegen.rs    | 50 ++++++++++---------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index 4153531..0a1c02e 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -157,27 +157,8 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 		let ty = &f.ty;
 
 		if exists_current && exists_target {
-			let decode = if f.attrs.options.indexed_map {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_seq {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_set {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?;
-				}
-			} else {
-				quote! {
-					let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-				}
-			};
-			decode_each.append_all(decode);
+			let decode = decode_field(f);
+			decode_each.append_all(quote! { let #binding: #ty = #decode; });
 			bindings_for_construction.push(quote! { #binding });
 		} else if !exists_current && exists_target {
 			// Field added later — synthesize.
@@ -202,9 +183,8 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 				.expect("convert_fn required when `end` is set; checked by AST validation");
 			let convert_ident = syn::Ident::new(&convert.value(), convert.span());
 			let rev_lit = current as u16;
-			decode_each.append_all(quote! {
-				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-			});
+			let decode = decode_field(f);
+			decode_each.append_all(quote! { let #binding: #ty = #decode; });
 			// Apply convert_fn after construction (handled below via __post_construct).
 			let _ = (convert_ident, rev_lit);
 		}
@@ -294,6 +274,28 @@ pub fn emit_struct_skip(_s: &Struct, _ctx: EncodingContext, slice_mode: bool) ->
 	}
 }
 
+/// Decode one field from `__payload` in the encoding the optimised layout writes it in.
+fn decode_field(f: &Field) -> TokenStream {
+	let ty = &f.ty;
+	if f.attrs.options.indexed_map {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?
+		}
+	} else if f.attrs.options.indexed_seq {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?
+		}
+	} else if f.attrs.options.indexed_set {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?
+		}
+	} else {
+		quote! {
+			<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?
+		}
+	}
+}
+
 fn collect_fields(s: &Struct) -> Vec<&Field> {
 	match &s.fields {
 		Fields::Named {
-- 
2.43.0


From c1225bc3d20939860cc742ac1f38d0d1b80c7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 07/12] fix: walk older indexed and optimised revisions by
 their own layout

The walker of an indexed struct used the latest field count and field
positions for the offset table of every revision, sliced by unchecked
offsets (a corrupt payload panicked), and reported the latest revision; an
optimised enum compared the stored variant id with the latest
discriminants.
---
 revision-derive/src/expand/walk.rs | 239 ++++++++++++++++-------------
 1 file changed, 134 insertions(+), 105 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 2ee4e73..aa1a7ed 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -157,24 +157,19 @@ pub fn emit_walk_impl(
 	//   declared size class, and return an OptimisedBorrowed walker with
 	//   `discriminant = variant_id` (the existing per-variant decode code on
 	//   the OptimisedBorrowed arm reads the borrowed payload directly).
-	let optimised_struct_field_count = match &item.kind {
-		ItemKind::Struct(s) => Some(alive_field_count(s, revision) as u32),
-		ItemKind::Enum(_) => None,
-	};
 	let optimised_skip_arms: Vec<TokenStream> = history
 		.iter()
 		.filter(|h| h.is_optimised())
 		.map(|h| -> syn::Result<TokenStream> {
 			let rev_lit = h.revision.value as u16;
 			match &item.kind {
-				ItemKind::Struct(_) => {
+				ItemKind::Struct(s) => {
 					if matches!(h.struct_kind, StructEncoding::Indexed) {
 						// Indexed struct: borrow the payload directly from the
 						// reader's buffer (no allocation) and return an
 						// IndexedBorrowed walker. Per-field methods jump via
 						// offsets in O(1).
-						let field_count = optimised_struct_field_count.unwrap_or(0) as usize;
-						let field_count_u16 = field_count as u16;
+						let field_count_u16 = alive_field_count(s, h.revision.value) as u16;
 						Ok(quote! {
 							#rev_lit => {
 								let mut __len_buf = [0u8; 4];
@@ -189,6 +184,7 @@ pub fn emit_walk_impl(
 								return ::std::result::Result::Ok(#walker_name {
 									repr: #walker_repr_name::IndexedBorrowed {
 										bytes: __payload,
+										wire_rev: __wire_rev,
 										field_count: #field_count_u16,
 										pos: 0,
 										_marker: ::std::marker::PhantomData,
@@ -277,13 +273,13 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::OptimisedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::OptimisedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
 
-			/// Variant discriminant on the wire (for `Wire`) or on the
-			/// re-encoded current-rev bytes (for the borrowed / owned arms).
+			/// Variant discriminant on the wire or, for owned walkers, on the
+			/// re-encoded current-rev bytes.
 			/// Use
 			/// [`walk_revisioned_variant_name`](Self::walk_revisioned_variant_name)
 			/// to map this to a variant identifier.
@@ -302,7 +298,7 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::IndexedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::IndexedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
@@ -372,6 +368,7 @@ fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> T
 			/// demand from `bytes[i*4..i*4+4]` for O(1) random access.
 			IndexedBorrowed {
 				bytes: &'r [u8],
+				wire_rev: u16,
 				field_count: u16,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
@@ -417,6 +414,7 @@ fn emit_enum_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> Tok
 			/// after the `u32_le` length prefix).
 			OptimisedBorrowed {
 				bytes: &'r [u8],
+				wire_rev: u16,
 				discriminant: u32,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
@@ -479,6 +477,39 @@ fn emit_struct_methods(
 		// that exist at `wire_rev` or are added later.
 		let start_val = f.attrs.options.start.as_ref().map(|s| s.value).unwrap_or(0) as u16;
 		let always_present = start_val == 0;
+		// The field's position in the offset table of an indexed payload, which
+		// fields added later may have shifted; `None` where it is not stored.
+		let indexed_position = by_revision(&(1..=revision).collect::<Vec<_>>(), |r| {
+			if f.attrs.options.exists_at(r) {
+				let idx = fields_iter
+					.iter()
+					.take_while(|x| !std::ptr::eq(**x, *f))
+					.filter(|x| x.attrs.options.exists_at(r))
+					.count();
+				quote! { ::std::option::Option::Some(#idx) }
+			} else {
+				quote! { ::std::option::Option::None }
+			}
+		});
+		let not_stored = |what: &str| {
+			let msg = format!(
+				"{what} not available at wire revision {{}}: field added at revision {start_val}"
+			);
+			quote! {
+				return ::std::result::Result::Err(::revision::Error::Conversion(
+					::std::format!(#msg, __rev),
+				));
+			}
+		};
+		// Slice this field out of an indexed payload.
+		let indexed_field = |absent: &TokenStream| {
+			quote! {
+				let __rev: u16 = *wire_rev;
+				let __pos: ::std::option::Option<usize> = #indexed_position;
+				let ::std::option::Option::Some(__pos) = __pos else { #absent };
+				let __field = Self::__indexed_field(bytes, *field_count as usize, __pos)?;
+			}
+		};
 
 		// Default synthesis: prefer the user-supplied `default_fn` (defined
 		// as an inherent method on the source type, not on the walker) if
@@ -525,17 +556,25 @@ fn emit_struct_methods(
 			}
 		};
 
+		let default_expr = if let Some(default) = f.attrs.options.default.as_ref() {
+			let default = Ident::new(&default.value(), default.span());
+			quote! { #owner_name::#default(*wire_rev)? }
+		} else {
+			quote! { <#ty as ::std::default::Default>::default() }
+		};
+		let decode_indexed = indexed_field(&if always_present {
+			not_stored(&decode_name.to_string())
+		} else {
+			quote! {
+				*pos = #pos_lit + 1;
+				return ::std::result::Result::Ok(#default_expr);
+			}
+		});
 		let decode_wire_body = if always_present {
 			quote! {
 				let __v = #field_decode_call;
 			}
 		} else {
-			let default_expr = if let Some(default) = f.attrs.options.default.as_ref() {
-				let default = Ident::new(&default.value(), default.span());
-				quote! { #owner_name::#default(*wire_rev)? }
-			} else {
-				quote! { <#ty as ::std::default::Default>::default() }
-			};
 			quote! {
 				let __v = if *wire_rev >= #start_val {
 					#field_decode_call
@@ -630,28 +669,14 @@ fn emit_struct_methods(
 		// for `walk_<field>(&mut self)` and `__self` for
 		// `into_walk_<field>(self)` after the `let mut __self = self;` rebind.
 		let fast_path_indexed_borrowed =
-			|view_ty: &TokenStream, self_expr: &TokenStream| -> TokenStream {
+			|view_ty: &TokenStream, self_expr: &TokenStream, what: &Ident| -> TokenStream {
+				let field = indexed_field(&not_stored(&what.to_string()));
 				quote! {
-					if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &#self_expr.repr {
-						let __bytes_borrow: &'r [u8] = *bytes;
-						let __fc = *field_count as usize;
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							__bytes_borrow[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < __fc {
-							u32::from_le_bytes(
-								__bytes_borrow[__off_base + 4..__off_base + 8]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							__bytes_borrow.len()
-						};
+					if let #walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, .. } = &#self_expr.repr {
+						let bytes: &'r [u8] = bytes;
+						#field
 						return ::std::result::Result::Ok(
-							#view_ty::new(::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end])),
+							#view_ty::new(::std::borrow::Cow::Borrowed(__field)),
 						);
 					}
 				}
@@ -726,9 +751,9 @@ fn emit_struct_methods(
 			let skip_call = quote! {
 				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(*reader)?;
 			};
-			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk);
+			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
 			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
-			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into);
+			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
 			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
 			walk_body = quote! {
 				#fast_ib_w
@@ -771,9 +796,9 @@ fn emit_struct_methods(
 			let skip_call = quote! {
 				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(*reader)?;
 			};
-			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk);
+			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
 			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
-			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into);
+			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
 			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
 			walk_body = quote! {
 				#fast_ib_w
@@ -816,9 +841,9 @@ fn emit_struct_methods(
 			let skip_call = quote! {
 				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(*reader)?;
 			};
-			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk);
+			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
 			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
-			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into);
+			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
 			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
 			walk_body = quote! {
 				#fast_ib_w
@@ -927,47 +952,15 @@ fn emit_struct_methods(
 				}
 			}
 		};
+		let into_field_bytes_indexed =
+			indexed_field(&not_stored(&into_field_bytes_name.to_string()));
 		let into_field_bytes_body = quote! {
 			let __self = self;
 			// IndexedBorrowed fast path — borrow from the offset table.
-			if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &__self.repr {
-				let __bytes_borrow: &'r [u8] = *bytes;
-				let __fc = *field_count as usize;
-				let __off_base = (#pos_lit as usize) * 4;
-				// Bounds-check the offset table reads. The non-last-field
-				// branch reads two consecutive entries, so it needs 8
-				// bytes; the last-field branch only needs its own 4.
-				let __needed = if (#pos_lit as usize) + 1 < __fc { 8 } else { 4 };
-				if __off_base + __needed > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed offset table truncated".into(),
-					));
-				}
-				let __start = u32::from_le_bytes(
-					__bytes_borrow[__off_base..__off_base + 4]
-						.try_into()
-						.expect("4-byte slice"),
-				) as usize;
-				let __end = if (#pos_lit as usize) + 1 < __fc {
-					u32::from_le_bytes(
-						__bytes_borrow[__off_base + 4..__off_base + 8]
-							.try_into()
-							.expect("4-byte slice"),
-					) as usize
-				} else {
-					__bytes_borrow.len()
-				};
-				// Validate the slice bounds before indexing — a malformed
-				// payload with `start > end` or `end > len` would otherwise
-				// panic in the slice op.
-				if __start > __end || __end > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed field offsets out of range".into(),
-					));
-				}
-				return ::std::result::Result::Ok(
-					::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end]),
-				);
+			if let #walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, .. } = &__self.repr {
+				let bytes: &'r [u8] = bytes;
+				#into_field_bytes_indexed
+				return ::std::result::Result::Ok(::std::borrow::Cow::Borrowed(__field));
 			}
 			// Wire / ConvertedOwned: consume `__self.repr`.
 			match __self.repr {
@@ -1036,27 +1029,12 @@ fn emit_struct_methods(
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
-					#walker_repr_name::IndexedBorrowed { bytes, field_count, pos, .. } => {
+					#walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, pos, .. } => {
 						// Indexed struct: parse this field's offset from the
 						// table at the start of `bytes`. O(1) — two u32 reads,
 						// no Vec<u32> alloc.
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							bytes[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < (*field_count as usize) {
-							let __next_base = __off_base + 4;
-							u32::from_le_bytes(
-								bytes[__next_base..__next_base + 4]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							bytes.len()
-						};
-						let mut __slice: &[u8] = &bytes[__start..__end];
+						#decode_indexed
+						let mut __slice: &[u8] = __field;
 						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
@@ -1147,9 +1125,61 @@ fn emit_struct_methods(
 		});
 	}
 
+	out.append_all(quote! {
+		/// The bytes of one field of an indexed struct payload, whose offset
+		/// table and offsets may be corrupt.
+		#[allow(dead_code)]
+		fn __indexed_field(
+			bytes: &[u8],
+			field_count: usize,
+			index: usize,
+		) -> ::std::result::Result<&[u8], ::revision::Error> {
+			let __offset = |i: usize| {
+				bytes
+					.get(i * 4..i * 4 + 4)
+					.and_then(|b| <[u8; 4]>::try_from(b).ok())
+					.map(|b| u32::from_le_bytes(b) as usize)
+					.ok_or_else(|| ::revision::Error::Deserialize(
+						"IndexedBorrowed offset table truncated".into(),
+					))
+			};
+			let __start = __offset(index)?;
+			let __end = if index + 1 < field_count {
+				__offset(index + 1)?
+			} else {
+				bytes.len()
+			};
+			bytes.get(__start..__end).ok_or_else(|| ::revision::Error::Deserialize(
+				"IndexedBorrowed field offsets out of range".into(),
+			))
+		}
+	});
+
 	Ok(out)
 }
 
+/// `match __rev { .. }` with one arm per distinct value among `revisions`; the
+/// value of the last one also stands for any other revision.
+fn by_revision(revisions: &[usize], value: impl Fn(usize) -> TokenStream) -> TokenStream {
+	let mut groups: Vec<(String, TokenStream, Vec<u16>)> = Vec::new();
+	for r in revisions {
+		let tokens = value(*r);
+		let key = tokens.to_string();
+		match groups.iter_mut().find(|g| g.0 == key) {
+			Some(g) => g.2.push(*r as u16),
+			None => groups.push((key, tokens, vec![*r as u16])),
+		}
+	}
+	let last = revisions.last().map(|r| *r as u16);
+	let at = groups.iter().position(|g| g.2.last().copied() == last).unwrap_or(0);
+	let (_, fallback, _) = groups.remove(at);
+	if groups.is_empty() {
+		return fallback;
+	}
+	let arms = groups.iter().map(|(_, tokens, revs)| quote! { #(#revs)|* => { #tokens } });
+	quote! { match __rev { #(#arms)* _ => { #fallback } } }
+}
+
 /// Helper: return the suffix for `decode_<x>` / `skip_<x>` / `walk_<x>`.
 /// For named fields it's the field identifier; for tuple fields it's
 /// `field_<idx>` (matching the existing `FieldName::to_binding` convention).
@@ -1228,21 +1258,19 @@ fn emit_enum_methods(
 
 		out.append_all(quote! {
 			/// Returns `true` if the wire's discriminant identifies this variant
-			/// at the wire revision (or, for borrowed / owned walkers, on the
-			/// current-rev bytes).
+			/// at the wire revision (or, for owned walkers, on the current-rev
+			/// bytes).
 			#[inline]
 			pub fn #is_name(&self) -> bool {
 				match &self.repr {
-					#walker_repr_name::Wire { wire_rev, discriminant, .. } => {
+					#walker_repr_name::Wire { wire_rev, discriminant, .. }
+					| #walker_repr_name::OptimisedBorrowed { wire_rev, discriminant, .. } => {
 						let __expected: ::std::option::Option<u32> = match *wire_rev {
 							#(#wire_disc_arms)*
 							_ => ::std::option::Option::None,
 						};
 						__expected == ::std::option::Option::Some(*discriminant)
 					}
-					#walker_repr_name::OptimisedBorrowed { discriminant, .. } => {
-						*discriminant == #current_disc
-					}
 					#walker_repr_name::ConvertedOwned { discriminant, .. } => {
 						*discriminant == #current_disc
 					}
@@ -1731,6 +1759,7 @@ fn emit_optimised_enum_walker_arm(
 			return ::std::result::Result::Ok(#walker_name {
 				repr: #walker_repr_name::OptimisedBorrowed {
 					bytes: __payload,
+					wire_rev: #rev_lit,
 					discriminant: __variant_id as u32,
 					pos: 0,
 					_marker: ::std::marker::PhantomData,
-- 
2.43.0


From 3c347e43fc1feec678c7558c40e1eb62a8493a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 08/12] fix: walk values converted to an optimised revision

The re-encoded value of a convert_fn type starts with the latest revision's
envelope; the walker took an optimised struct's payload length and offset
table, and an optimised enum's tag, for field bytes and a discriminant.
---
 revision-derive/src/expand/walk.rs | 110 ++++++++++++++++++-----------
 1 file changed, 69 insertions(+), 41 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index aa1a7ed..bfed6a9 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -96,54 +96,82 @@ pub fn emit_walk_impl(
 		ItemKind::Enum(_) => emit_enum_walker_struct(&walker_name, &walker_repr_name),
 	};
 
+	let latest_entry = history.last().expect("history non-empty");
+
 	// Construction: read the u16 header, optionally materialise.
+	let latest_is_optimised = latest_entry.is_optimised();
 	let materialise_branch = if !materialise_supported {
 		quote! {}
 	} else {
 		match &item.kind {
-			ItemKind::Struct(_) => quote! {
-				if __wire_rev != #revision_lit {
-					let __value = Self::__deserialize_after_header(reader, __wire_rev)?;
-					let mut __buf = ::std::vec::Vec::new();
-					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
-					let mut __slice: &[u8] = __buf.as_slice();
-					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let __cursor = __buf.len() - __slice.len();
-					return ::std::result::Result::Ok(#walker_name {
-						repr: #walker_repr_name::ConvertedOwned {
-							bytes: __buf,
-							cursor: __cursor,
-							pos: 0,
-							_marker: ::std::marker::PhantomData,
-						},
-					});
+			ItemKind::Struct(s) => {
+				// The re-encoded value has the latest revision's envelope in
+				// front of its fields: the payload length and offset table of
+				// an optimised struct.
+				let envelope = match (latest_is_optimised, latest_entry.struct_kind) {
+					(false, _) => 0,
+					(true, StructEncoding::Default) => 4,
+					(true, StructEncoding::Indexed) => 4 + 4 * alive_field_count(s, revision),
+				};
+				quote! {
+					if __wire_rev != #revision_lit {
+						let __value = Self::__deserialize_after_header(reader, __wire_rev)?;
+						let mut __buf = ::std::vec::Vec::new();
+						<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
+						let mut __slice: &[u8] = __buf.as_slice();
+						let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let __cursor = __buf.len() - __slice.len() + #envelope;
+						return ::std::result::Result::Ok(#walker_name {
+							repr: #walker_repr_name::ConvertedOwned {
+								bytes: __buf,
+								cursor: __cursor,
+								pos: 0,
+								_marker: ::std::marker::PhantomData,
+							},
+						});
+					}
 				}
-			},
-			ItemKind::Enum(_) => quote! {
-				if __wire_rev != #revision_lit {
-					let __value = Self::__deserialize_after_header(reader, __wire_rev)?;
-					let mut __buf = ::std::vec::Vec::new();
-					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
-					let mut __slice: &[u8] = __buf.as_slice();
-					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let mut __cursor = __buf.len() - __slice.len();
-					let __mat_disc = {
-						let mut __ms: &[u8] = &__buf[__cursor..];
-						let __d = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __ms)?;
-						__cursor = __buf.len() - __ms.len();
-						__d
-					};
-					return ::std::result::Result::Ok(#walker_name {
-						repr: #walker_repr_name::ConvertedOwned {
-							bytes: __buf,
-							cursor: __cursor,
-							discriminant: __mat_disc,
-							pos: 0,
-							_marker: ::std::marker::PhantomData,
-						},
-					});
+			}
+			ItemKind::Enum(_) => {
+				// In front of the variant's fields: the discriminant or, for an
+				// optimised enum, the tag and the length of a varlen body.
+				let read_discriminant = if latest_is_optimised {
+					quote! {
+						let __tag = ::revision::optimised::tag::read_tag(&mut __slice)?;
+						if let ::revision::optimised::tag::SizeClass::Varlen = __tag.size_class()? {
+							let mut __len_buf = [0u8; 4];
+							::std::io::Read::read_exact(&mut __slice, &mut __len_buf)
+								.map_err(::revision::Error::Io)?;
+						}
+						let __mat_disc = __tag.variant_id() as u32;
+					}
+				} else {
+					quote! {
+						let __mat_disc =
+							<u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+					}
+				};
+				quote! {
+					if __wire_rev != #revision_lit {
+						let __value = Self::__deserialize_after_header(reader, __wire_rev)?;
+						let mut __buf = ::std::vec::Vec::new();
+						<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
+						let mut __slice: &[u8] = __buf.as_slice();
+						let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						#read_discriminant
+						let __cursor = __buf.len() - __slice.len();
+						return ::std::result::Result::Ok(#walker_name {
+							repr: #walker_repr_name::ConvertedOwned {
+								bytes: __buf,
+								cursor: __cursor,
+								discriminant: __mat_disc,
+								pos: 0,
+								_marker: ::std::marker::PhantomData,
+							},
+						});
+					}
 				}
-			},
+			}
 		}
 	};
 
-- 
2.43.0


From c9b66b99c2db12f2af79d08006ab02cd7a46dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 09/12] fix: walk struct fields in the encoding stored at their
 revision

---
 revision-derive/src/expand/walk.rs | 319 ++++++++++++++++++++---------
 1 file changed, 219 insertions(+), 100 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index bfed6a9..d78db05 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -45,7 +45,9 @@ use crate::ast::attributes::VariantSize;
 use crate::ast::history::{HistoryEntry, StructEncoding};
 use crate::ast::{Enum, Field, FieldName, Fields, Item, ItemKind, Struct, Variant, Visit};
 
-use super::common::CalcDiscriminant;
+use super::common::{
+	CalcDiscriminant, emit_deserialize_fixed_le, emit_deserialize_specialised, emit_skip_fixed_le,
+};
 
 /// Emit the [`WalkRevisioned`] impl and supporting types for a
 /// `#[revisioned(...)]` item.
@@ -279,7 +281,7 @@ pub fn emit_walk_impl(
 
 	// Per-type method body
 	let methods = match &item.kind {
-		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s)?,
+		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, history, s)?,
 		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
 	};
 
@@ -468,6 +470,7 @@ fn emit_struct_methods(
 	owner_name: &Ident,
 	walker_repr_name: &Ident,
 	revision: usize,
+	history: &[HistoryEntry],
 	s: &Struct,
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
@@ -545,45 +548,20 @@ fn emit_struct_methods(
 		// `Default::default`. Only emitted into the codegen when the field
 		// could actually be absent (`start > 0`); otherwise `Default` would
 		// be required even for types that never need it.
-		// Pick the decode / skip call for this field. Fields with
-		// `#[revision(indexed_map)]` / `#[revision(indexed_seq)]` route through
-		// the runtime indexed helpers; everything else uses the type's own
-		// `DeserializeRevisioned` / `SkipRevisioned` impl.
-		let field_decode_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(reader)?
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(reader)?
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(reader)?
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
-			}
-		};
-		let field_skip_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(reader)?;
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(reader)?;
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(reader)?;
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?;
-			}
-		};
-
+		// Decode / skip this field from `reader` in the encoding its bytes were
+		// stored in, which per-field attributes make depend on the revision.
+		let codecs: Vec<(usize, FieldCodec)> = history
+			.iter()
+			.filter(|h| f.attrs.options.exists_at(h.revision.value))
+			.map(|h| (h.revision.value, FieldCodec::of(f, h)))
+			.collect();
+		let field_decode_call = codec_by_revision(&codecs, |c| c.decode(ty, &quote! { reader }))?;
+		let field_skip_call = codec_by_revision(&codecs, |c| c.skip(ty, &quote! { reader }))?;
+		let latest_codec = codecs.last().expect("field exists at the latest revision").1;
+		let slice_expr = quote! { &mut __slice };
+		let latest_decode_call = latest_codec.decode(ty, &slice_expr)?;
+		let indexed_decode_call = FieldCodec::optimised(f).decode(ty, &slice_expr)?;
+		let latest_skip_call = latest_codec.skip(ty, &slice_expr)?;
 		let default_expr = if let Some(default) = f.attrs.options.default.as_ref() {
 			let default = Ident::new(&default.value(), default.span());
 			quote! { #owner_name::#default(*wire_rev)? }
@@ -600,11 +578,11 @@ fn emit_struct_methods(
 		});
 		let decode_wire_body = if always_present {
 			quote! {
-				let __v = #field_decode_call;
+				let __v: #ty = #field_decode_call;
 			}
 		} else {
 			quote! {
-				let __v = if *wire_rev >= #start_val {
+				let __v: #ty = if *wire_rev >= #start_val {
 					#field_decode_call
 				} else {
 					#default_expr
@@ -622,10 +600,32 @@ fn emit_struct_methods(
 			}
 		};
 
+		// A field stored in any other encoding than its type's own has no bytes
+		// its type's walker could read.
+		let refuse_overridden = |what: &Ident| -> syn::Result<TokenStream> {
+			let msg = format!(
+				"{what} not available at wire revision {{}}: the field is not stored in its type's own encoding; use decode_{method_base}"
+			);
+			codec_by_revision(&codecs, |c| {
+				Ok(match c {
+					FieldCodec::Plain => quote! {},
+					_ => quote! {
+						return ::std::result::Result::Err(::revision::Error::Conversion(
+							::std::format!(#msg, __rev),
+						));
+					},
+				})
+			})
+		};
+		let refuse_walk = refuse_overridden(&walk_name)?;
+		let refuse_into_walk = refuse_overridden(&into_walk_name)?;
+
 		// Consuming variant body — `reader` is `&'r mut R` (moved from `self.repr`),
 		// `wire_rev` is `u16` (moved).
 		let into_walk_wire_body = if always_present {
 			quote! {
+				let __rev: u16 = wire_rev;
+				#refuse_into_walk
 				<#ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
 			}
 		} else {
@@ -639,6 +639,8 @@ fn emit_struct_methods(
 						::std::format!(#walk_err_msg, wire_rev),
 					));
 				}
+				let __rev: u16 = wire_rev;
+				#refuse_into_walk
 				<#ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
 			}
 		};
@@ -649,6 +651,8 @@ fn emit_struct_methods(
 		// `wire_rev` is `&mut u16`, so dereference for comparison.
 		let walk_wire_body_borrow = if always_present {
 			quote! {
+				let __rev: u16 = *wire_rev;
+				#refuse_walk
 				let __w = <#ty as ::revision::WalkRevisioned>::walk_revisioned(&mut **reader)?;
 				*pos = #pos_lit + 1;
 				::std::result::Result::Ok(__w)
@@ -664,6 +668,8 @@ fn emit_struct_methods(
 						::std::format!(#walk_err_msg, *wire_rev),
 					));
 				}
+				let __rev: u16 = *wire_rev;
+				#refuse_walk
 				let __w = <#ty as ::revision::WalkRevisioned>::walk_revisioned(&mut **reader)?;
 				*pos = #pos_lit + 1;
 				::std::result::Result::Ok(__w)
@@ -709,55 +715,75 @@ fn emit_struct_methods(
 					}
 				}
 			};
+		// Does the stored revision hold the field in its indexed encoding?
+		let stored_indexed = codec_by_revision(&codecs, |c| {
+			let indexed = c == FieldCodec::optimised(f);
+			Ok(quote! { #indexed })
+		})?;
 		// Wire-parent fast path: skip the field, derive its bytes from the
 		// before/after `remaining()` snapshots, lifetime-extend via the
 		// canonical unsafe pattern (peeked bytes stay valid for `'r` per the
 		// `BorrowedReader` contract).
 		let fast_path_wire = |view_ty: &TokenStream,
 		                      skip_call: &TokenStream,
-		                      self_expr: &TokenStream|
+		                      self_expr: &TokenStream,
+		                      what: &Ident|
 		 -> TokenStream {
+			let absent_check = if always_present {
+				quote! {}
+			} else {
+				let absent = not_stored(&what.to_string());
+				quote! {
+					if __rev < #start_val {
+						#absent
+					}
+				}
+			};
 			quote! {
-				if let #walker_repr_name::Wire { reader, .. } = &mut #self_expr.repr {
-					let __before = ::revision::BorrowedReader::remaining(*reader);
-					let __before_ptr = __before.as_ptr();
-					let __before_len = __before.len();
-					#skip_call
-					let __after_len = ::revision::BorrowedReader::remaining(*reader).len();
-					// `BorrowedReader`'s safety contract bullet (4) requires
-					// `remaining().len()` to be monotonic non-increasing
-					// under `advance`. A downstream impl that violates this
-					// would underflow naive subtraction and trigger UB in
-					// the `from_raw_parts` below — `checked_sub` turns the
-					// contract violation into a typed
-					// `BorrowedReaderContractViolation` error instead.
-					let __consumed_len = __before_len
-						.checked_sub(__after_len)
-						.ok_or_else(|| ::revision::Error::BorrowedReaderContractViolation(
-							::std::format!(
-								"remaining().len() grew across an advance call \
-								 (before={}, after={})",
-								__before_len,
-								__after_len,
-							)
-						))?;
-					// SAFETY: `BorrowedReader::remaining` returns a slice
-					// into the reader's stable buffer; the trait's safety
-					// contract guarantees `advance`/`skip` only moves the
-					// cursor and never invalidates previously-returned
-					// bytes (bullets 2 and 3), so
-					// `__before_ptr[..__consumed_len]` is valid for the
-					// reader's lifetime `'r`. The `checked_sub` above also
-					// ensures `__consumed_len <= __before_len`, so the
-					// slice can never extend past the bytes the trait
-					// promised were stable. Same pattern as
-					// `read_borrowed_bytes` for `peek_bytes + advance`.
-					let __field_bytes: &'r [u8] = unsafe {
-						::std::slice::from_raw_parts(__before_ptr, __consumed_len)
-					};
-					return ::std::result::Result::Ok(
-						#view_ty::new(::std::borrow::Cow::Borrowed(__field_bytes)),
-					);
+				if let #walker_repr_name::Wire { reader, wire_rev, .. } = &mut #self_expr.repr {
+					let __rev: u16 = *wire_rev;
+					#absent_check
+					if #stored_indexed {
+						let __before = ::revision::BorrowedReader::remaining(*reader);
+						let __before_ptr = __before.as_ptr();
+						let __before_len = __before.len();
+						#skip_call
+						let __after_len = ::revision::BorrowedReader::remaining(*reader).len();
+						// `BorrowedReader`'s safety contract bullet (4) requires
+						// `remaining().len()` to be monotonic non-increasing
+						// under `advance`. A downstream impl that violates this
+						// would underflow naive subtraction and trigger UB in
+						// the `from_raw_parts` below — `checked_sub` turns the
+						// contract violation into a typed
+						// `BorrowedReaderContractViolation` error instead.
+						let __consumed_len = __before_len
+							.checked_sub(__after_len)
+							.ok_or_else(|| ::revision::Error::BorrowedReaderContractViolation(
+								::std::format!(
+									"remaining().len() grew across an advance call \
+									 (before={}, after={})",
+									__before_len,
+									__after_len,
+								)
+							))?;
+						// SAFETY: `BorrowedReader::remaining` returns a slice
+						// into the reader's stable buffer; the trait's safety
+						// contract guarantees `advance`/`skip` only moves the
+						// cursor and never invalidates previously-returned
+						// bytes (bullets 2 and 3), so
+						// `__before_ptr[..__consumed_len]` is valid for the
+						// reader's lifetime `'r`. The `checked_sub` above also
+						// ensures `__consumed_len <= __before_len`, so the
+						// slice can never extend past the bytes the trait
+						// promised were stable. Same pattern as
+						// `read_borrowed_bytes` for `peek_bytes + advance`.
+						let __field_bytes: &'r [u8] = unsafe {
+							::std::slice::from_raw_parts(__before_ptr, __consumed_len)
+						};
+						return ::std::result::Result::Ok(
+							#view_ty::new(::std::borrow::Cow::Borrowed(__field_bytes)),
+						);
+					}
 				}
 			}
 		};
@@ -780,9 +806,9 @@ fn emit_struct_methods(
 				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(*reader)?;
 			};
 			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
-			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
+			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk, &walk_name);
 			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
-			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
+			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into, &into_walk_name);
 			walk_body = quote! {
 				#fast_ib_w
 				#fast_w_w
@@ -825,9 +851,9 @@ fn emit_struct_methods(
 				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(*reader)?;
 			};
 			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
-			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
+			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk, &walk_name);
 			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
-			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
+			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into, &into_walk_name);
 			walk_body = quote! {
 				#fast_ib_w
 				#fast_w_w
@@ -870,9 +896,9 @@ fn emit_struct_methods(
 				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(*reader)?;
 			};
 			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
-			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
+			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk, &walk_name);
 			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
-			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
+			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into, &into_walk_name);
 			walk_body = quote! {
 				#fast_ib_w
 				#fast_w_w
@@ -993,6 +1019,7 @@ fn emit_struct_methods(
 			// Wire / ConvertedOwned: consume `__self.repr`.
 			match __self.repr {
 				#walker_repr_name::Wire { reader, wire_rev, pos: _ } => {
+					let __rev: u16 = wire_rev;
 					#into_field_bytes_wire_rev_check
 					let __before = ::revision::BorrowedReader::remaining(reader);
 					let __before_ptr = __before.as_ptr();
@@ -1025,13 +1052,9 @@ fn emit_struct_methods(
 				}
 				#walker_repr_name::ConvertedOwned { bytes, cursor, pos: _, .. } => {
 					let mut __slice: &[u8] = &bytes[cursor..];
-					let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(
-						&mut __slice,
-					)?;
-					let mut __out: ::std::vec::Vec<u8> = ::std::vec::Vec::new();
-					<#ty as ::revision::SerializeRevisioned>::serialize_revisioned(
-						&__v, &mut __out,
-					)?;
+					#latest_skip_call
+					let __end = bytes.len() - __slice.len();
+					let __out: ::std::vec::Vec<u8> = bytes[cursor..__end].to_vec();
 					::std::result::Result::Ok(::std::borrow::Cow::Owned(__out))
 				}
 				#walker_repr_name::IndexedBorrowed { .. } => {
@@ -1053,6 +1076,7 @@ fn emit_struct_methods(
 			pub fn #decode_name(&mut self) -> ::std::result::Result<#ty, ::revision::Error> {
 				match &mut self.repr {
 					#walker_repr_name::Wire { reader, wire_rev, pos } => {
+						let __rev: u16 = *wire_rev;
 						#decode_wire_body
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
@@ -1063,14 +1087,14 @@ fn emit_struct_methods(
 						// no Vec<u32> alloc.
 						#decode_indexed
 						let mut __slice: &[u8] = __field;
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let __v = #indexed_decode_call;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						// Sequential materialised path (convert_fn round-trip).
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let __v = #latest_decode_call;
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
@@ -1087,6 +1111,7 @@ fn emit_struct_methods(
 			pub fn #skip_name(&mut self) -> ::std::result::Result<(), ::revision::Error> {
 				match &mut self.repr {
 					#walker_repr_name::Wire { reader, wire_rev, pos } => {
+						let __rev: u16 = *wire_rev;
 						#skip_wire_body
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(())
@@ -1098,7 +1123,7 @@ fn emit_struct_methods(
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						<#ty as ::revision::SkipRevisioned>::skip_revisioned(&mut __slice)?;
+						#latest_skip_call
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(())
@@ -1186,6 +1211,100 @@ fn emit_struct_methods(
 	Ok(out)
 }
 
+/// The encoding a field's bytes are stored in.
+#[derive(Clone, Copy, PartialEq, Eq)]
+enum FieldCodec {
+	Plain,
+	Fixed,
+	Specialised,
+	IndexedMap,
+	IndexedSeq,
+	IndexedSet,
+}
+
+impl FieldCodec {
+	/// The encoding a revision's history entry writes `f` in.
+	fn of(f: &Field, entry: &HistoryEntry) -> Self {
+		if entry.is_optimised() {
+			Self::optimised(f)
+		} else if f.attrs.options.fixed {
+			Self::Fixed
+		} else if f.attrs.options.specialised {
+			Self::Specialised
+		} else {
+			Self::Plain
+		}
+	}
+
+	fn optimised(f: &Field) -> Self {
+		if f.attrs.options.indexed_map {
+			Self::IndexedMap
+		} else if f.attrs.options.indexed_seq {
+			Self::IndexedSeq
+		} else if f.attrs.options.indexed_set {
+			Self::IndexedSet
+		} else {
+			Self::Plain
+		}
+	}
+
+	/// An expression decoding the field from `reader`.
+	fn decode(self, ty: &syn::Type, reader: &TokenStream) -> syn::Result<TokenStream> {
+		Ok(match self {
+			Self::Plain => quote! {
+				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(#reader)?
+			},
+			Self::Fixed => emit_deserialize_fixed_le(ty, reader)?,
+			Self::Specialised => emit_deserialize_specialised(ty, reader),
+			Self::IndexedMap => quote! {
+				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(#reader)?
+			},
+			Self::IndexedSeq => quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(#reader)?
+			},
+			Self::IndexedSet => quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(#reader)?
+			},
+		})
+	}
+
+	/// Statements skipping the field in `reader`.
+	fn skip(self, ty: &syn::Type, reader: &TokenStream) -> syn::Result<TokenStream> {
+		Ok(match self {
+			Self::Plain => quote! {
+				<#ty as ::revision::SkipRevisioned>::skip_revisioned(#reader)?;
+			},
+			Self::Fixed => emit_skip_fixed_le(ty, reader)?,
+			Self::Specialised => {
+				let decode = emit_deserialize_specialised(ty, reader);
+				quote! { let _ = #decode; }
+			}
+			Self::IndexedMap => quote! {
+				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(#reader)?;
+			},
+			Self::IndexedSeq => quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(#reader)?;
+			},
+			Self::IndexedSet => quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(#reader)?;
+			},
+		})
+	}
+}
+
+/// `by_revision` over the encodings a field was stored in.
+fn codec_by_revision(
+	codecs: &[(usize, FieldCodec)],
+	value: impl Fn(FieldCodec) -> syn::Result<TokenStream>,
+) -> syn::Result<TokenStream> {
+	let revisions: Vec<usize> = codecs.iter().map(|c| c.0).collect();
+	let values = codecs.iter().map(|c| value(c.1)).collect::<syn::Result<Vec<_>>>()?;
+	Ok(by_revision(&revisions, |r| {
+		let at = revisions.iter().position(|x| *x == r).expect("a listed revision");
+		values[at].clone()
+	}))
+}
+
 /// `match __rev { .. }` with one arm per distinct value among `revisions`; the
 /// value of the last one also stands for any other revision.
 fn by_revision(revisions: &[usize], value: impl Fn(usize) -> TokenStream) -> TokenStream {
-- 
2.43.0


From e5b968c7331b8a62d41bfddcfd96a25476136076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 10/12] fix: walk enum fields in the encoding stored at their
 revision

---
 revision-derive/src/expand/walk.rs | 106 ++++++++++++++++++++++++-----
 1 file changed, 90 insertions(+), 16 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index d78db05..9dd81b1 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -282,7 +282,7 @@ pub fn emit_walk_impl(
 	// Per-type method body
 	let methods = match &item.kind {
 		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, history, s)?,
-		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
+		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, history, e)?,
 	};
 
 	// Introspection tables
@@ -1248,6 +1248,16 @@ impl FieldCodec {
 		}
 	}
 
+	/// As [`Self::of`] for a variant's field: optimised variant bodies have no
+	/// per-field encodings.
+	fn of_variant(f: &Field, entry: &HistoryEntry) -> Self {
+		if entry.is_optimised() {
+			Self::Plain
+		} else {
+			Self::of(f, entry)
+		}
+	}
+
 	/// An expression decoding the field from `reader`.
 	fn decode(self, ty: &syn::Type, reader: &TokenStream) -> syn::Result<TokenStream> {
 		Ok(match self {
@@ -1350,6 +1360,7 @@ fn emit_enum_methods(
 	enum_name: &Ident,
 	walker_repr_name: &Ident,
 	revision: usize,
+	history: &[HistoryEntry],
 	e: &Enum,
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
@@ -1469,6 +1480,73 @@ fn emit_enum_methods(
 					.find(|f| f.attrs.options.exists_at(revision))
 					.expect("variant has a field at current rev");
 				let inner_ty = &inner_field.ty;
+				// The stored encoding of the field, or its absence from
+				// revisions before the one that added it.
+				let at_revision = |value: &dyn Fn(Option<FieldCodec>) -> syn::Result<TokenStream>| {
+					let revisions: Vec<usize> = history
+						.iter()
+						.map(|h| h.revision.value)
+						.filter(|r| v.attrs.options.exists_at(*r))
+						.collect();
+					let values = revisions
+						.iter()
+						.map(|r| {
+							let stored = inner_field.attrs.options.exists_at(*r);
+							let entry = history.iter().find(|h| h.revision.value == *r);
+							value(entry.filter(|_| stored).map(|h| FieldCodec::of_variant(inner_field, h)))
+						})
+						.collect::<syn::Result<Vec<_>>>()?;
+					Ok::<_, syn::Error>(by_revision(&revisions, |r| {
+						let at = revisions.iter().position(|x| *x == r).expect("a listed revision");
+						values[at].clone()
+					}))
+				};
+				let default_expr = if let Some(default) = inner_field.attrs.options.default.as_ref() {
+					let default = Ident::new(&default.value(), default.span());
+					quote! { #enum_name::#default(__rev)? }
+				} else {
+					quote! { <#inner_ty as ::std::default::Default>::default() }
+				};
+				let wire_decode = at_revision(&|c| match c {
+					Some(c) => c.decode(inner_ty, &quote! { reader }),
+					None => Ok(default_expr.clone()),
+				})?;
+				let walk_err_msg = format!(
+					"{into_name} not available at wire revision {{}}: the field is not stored in its type's own encoding; use {decode_name}"
+				);
+				let wire_walk = at_revision(&|c| {
+					Ok(match c {
+						Some(FieldCodec::Plain) => quote! {
+							<#inner_ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
+						},
+						_ => quote! {
+							::std::result::Result::Err(::revision::Error::Conversion(
+								::std::format!(#walk_err_msg, __rev),
+							))
+						},
+					})
+				})?;
+				let latest_codec = FieldCodec::of_variant(
+					inner_field,
+					history.last().expect("history non-empty"),
+				);
+				let latest_decode = latest_codec.decode(inner_ty, &quote! { &mut __slice })?;
+				// The view decodes its bytes in the type's own encoding.
+				let converted_view = match latest_codec {
+					FieldCodec::Plain => quote! {
+						// cross-revision convert_fn re-encode — owned.
+						let mut v = bytes;
+						v.drain(..cursor);
+						::std::borrow::Cow::Owned(v)
+					},
+					_ => quote! {
+						let mut __slice: &[u8] = &bytes[cursor..];
+						let __v: #inner_ty = #latest_decode;
+						let mut __buf = ::std::vec::Vec::new();
+						<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
+						::std::borrow::Cow::Owned(__buf)
+					},
+				};
 				out.append_all(quote! {
 					/// Walk into the payload of the `#variant_ident` variant.
 					///
@@ -1492,8 +1570,9 @@ fn emit_enum_methods(
 							));
 						}
 						match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
-								<#inner_ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								let __rev: u16 = wire_rev;
+								#wire_walk
 							}
 							#walker_repr_name::OptimisedBorrowed { .. } => {
 								::std::result::Result::Err(::revision::Error::Conversion(
@@ -1528,8 +1607,9 @@ fn emit_enum_methods(
 							));
 						}
 						match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								let __rev: u16 = wire_rev;
+								::std::result::Result::Ok(#wire_decode)
 							}
 							#walker_repr_name::OptimisedBorrowed { bytes, .. } => {
 								let mut __slice: &[u8] = bytes;
@@ -1537,7 +1617,7 @@ fn emit_enum_methods(
 							}
 							#walker_repr_name::ConvertedOwned { ref bytes, cursor, .. } => {
 								let mut __slice: &[u8] = &bytes[cursor..];
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+								::std::result::Result::Ok(#latest_decode)
 							}
 						}
 					}
@@ -1573,12 +1653,12 @@ fn emit_enum_methods(
 							));
 						}
 						let __bytes: ::std::borrow::Cow<'r, [u8]> = match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								let __rev: u16 = wire_rev;
 								// Read the inner value then re-emit its bytes.
 								// One alloc + one re-serialise; matches the
 								// indexed-field view shape.
-								let __v: #inner_ty =
-									<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
+								let __v: #inner_ty = #wire_decode;
 								let mut __buf = ::std::vec::Vec::new();
 								<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
 								::std::borrow::Cow::Owned(__buf)
@@ -1589,10 +1669,7 @@ fn emit_enum_methods(
 								::std::borrow::Cow::Borrowed(bytes)
 							}
 							#walker_repr_name::ConvertedOwned { bytes, cursor, .. } => {
-								// cross-revision convert_fn re-encode — owned.
-								let mut v = bytes;
-								v.drain(..cursor);
-								::std::borrow::Cow::Owned(v)
+								#converted_view
 							}
 						};
 						::std::result::Result::Ok(
@@ -1668,9 +1745,6 @@ fn emit_enum_methods(
 		}
 	}
 
-	// Suppress an unused-variable warning when the enum has zero variants
-	// at the current revision.
-	let _ = enum_name;
 	Ok(out)
 }
 
-- 
2.43.0


From 101ed5c65bda8e9064c306d81070c0a8948297cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:54 +0000
Subject: [PATCH 11/12] fix: migrate fields inside variants of optimised enums

---
 .../src/expand/optimised/enum_codegen.rs      | 117 +++++++++++-------
 1 file changed, 71 insertions(+), 46 deletions(-)

diff --git a/revision-derive/src/expand/optimised/enum_codegen.rs b/revision-derive/src/expand/optimised/enum_codegen.rs
index 4bc2846..ca59419 100644
--- a/revision-derive/src/expand/optimised/enum_codegen.rs
+++ b/revision-derive/src/expand/optimised/enum_codegen.rs
@@ -17,7 +17,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{TokenStreamExt, quote};
-use syn::{Error, Ident};
+use syn::{Error, Ident, Index};
 
 use crate::ast::attributes::{VariantOptions, VariantSize};
 use crate::ast::{Enum, Field, Fields, Variant, Visit};
@@ -327,7 +327,6 @@ fn decode_variant_body(
 	exists_at_target: bool,
 	enum_name: &Ident,
 ) -> syn::Result<TokenStream> {
-	let _ = target; // explicitly unused once we've decided which path to emit
 	let body_reader = match size {
 		VariantSize::Inline => quote! { let mut __body: &[u8] = &[]; let _ = &mut __body; },
 		VariantSize::Fixed(n) => {
@@ -351,16 +350,54 @@ fn decode_variant_body(
 		},
 	};
 
-	// Decode each alive field from __body.
+	// Decode each field alive on the wire from __body, synthesise the fields added
+	// since, and hand the fields removed since to their convert_fn.
+	let fields_struct_ident = v.fields_name(&enum_name.to_string());
+	let wire_rev_lit = current as u16;
 	let mut decode_fields = TokenStream::new();
-	let alive: Vec<&Field> = alive_fields(v, current);
-	for f in &alive {
+	let mut convert_fields = TokenStream::new();
+	for f in all_fields(v) {
 		let binding = f.name.to_binding();
 		let ty = &f.ty;
-		decode_fields.append_all(quote! {
-			let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __body)?;
-		});
+		let exists_current = f.attrs.options.exists_at(current);
+		let exists_target = f.attrs.options.exists_at(target);
+		if exists_current {
+			decode_fields.append_all(quote! {
+				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __body)?;
+			});
+			if !exists_target {
+				let convert = f
+					.attrs
+					.options
+					.convert
+					.as_ref()
+					.expect("FieldOptions::finish rejects `end` without convert_fn");
+				let convert_ident = Ident::new(&convert.value(), convert.span());
+				convert_fields.append_all(quote! {
+					Self::#convert_ident(&mut __fields, #wire_rev_lit, #binding)?;
+				});
+			}
+		} else if exists_target {
+			let default = if let Some(default_fn) = &f.attrs.options.default {
+				let ident = Ident::new(&default_fn.value(), default_fn.span());
+				quote! { Self::#ident(#wire_rev_lit)? }
+			} else {
+				quote! { ::std::default::Default::default() }
+			};
+			decode_fields.append_all(quote! { let #binding: #ty = #default; });
+		}
 	}
+	let target_fields: Vec<Ident> =
+		alive_fields(v, target).iter().map(|f| f.name.to_binding()).collect();
+	let fields_construction = match &v.fields {
+		Fields::Named {
+			..
+		} => quote! { #fields_struct_ident { #(#target_fields),* } },
+		Fields::Unnamed {
+			..
+		} => quote! { #fields_struct_ident ( #(#target_fields),* ) },
+		Fields::Unit => quote! { #fields_struct_ident },
+	};
 
 	if !exists_at_target {
 		// Variant present on wire but removed at target — convert_fn required.
@@ -374,61 +411,43 @@ fn decode_variant_body(
 			));
 		};
 		let convert_ident = syn::Ident::new(&convert.value(), convert.span());
-		let fields_struct_ident = v.fields_name(&enum_name.to_string());
-		let wire_rev_lit = current as u16;
 
+		return Ok(quote! {
+			#body_reader
+			#decode_fields
+			#[allow(unused_mut)]
+			let mut __fields = #fields_construction;
+			#convert_fields
+			return Self::#convert_ident(__fields, #wire_rev_lit);
+		});
+	}
+
+	if convert_fields.is_empty() {
 		let construction = match &v.fields {
 			Fields::Named {
-				fields,
 				..
-			} => {
-				let names = fields
-					.iter()
-					.filter(|f| f.attrs.options.exists_at(current))
-					.map(|f| f.name.to_binding());
-				quote! { #fields_struct_ident { #(#names),* } }
-			}
+			} => quote! { Self::#name { #(#target_fields),* } },
 			Fields::Unnamed {
-				fields,
 				..
-			} => {
-				let bindings = fields
-					.iter()
-					.filter(|f| f.attrs.options.exists_at(current))
-					.map(|f| f.name.to_binding());
-				quote! { #fields_struct_ident ( #(#bindings),* ) }
-			}
-			Fields::Unit => quote! { #fields_struct_ident },
+			} => quote! { Self::#name ( #(#target_fields),* ) },
+			Fields::Unit => quote! { Self::#name },
 		};
-
 		return Ok(quote! {
 			#body_reader
 			#decode_fields
-			let __removed = #construction;
-			return Self::#convert_ident(__removed, #wire_rev_lit);
+			Ok(#construction)
 		});
 	}
 
 	let construction = match &v.fields {
 		Fields::Named {
-			fields,
 			..
-		} => {
-			let bindings = fields
-				.iter()
-				.filter(|f| f.attrs.options.exists_at(current))
-				.map(|f| f.name.to_binding());
-			quote! { Self::#name { #(#bindings),* } }
-		}
+		} => quote! { Self::#name { #(#target_fields: __fields.#target_fields),* } },
 		Fields::Unnamed {
-			fields,
 			..
 		} => {
-			let bindings = fields
-				.iter()
-				.filter(|f| f.attrs.options.exists_at(current))
-				.map(|f| f.name.to_binding());
-			quote! { Self::#name ( #(#bindings),* ) }
+			let indices = (0..target_fields.len()).map(Index::from);
+			quote! { Self::#name ( #(__fields.#indices),* ) }
 		}
 		Fields::Unit => quote! { Self::#name },
 	};
@@ -436,11 +455,13 @@ fn decode_variant_body(
 	Ok(quote! {
 		#body_reader
 		#decode_fields
+		let mut __fields = #fields_construction;
+		#convert_fields
 		Ok(#construction)
 	})
 }
 
-fn alive_fields(v: &Variant, revision: usize) -> Vec<&Field> {
+fn all_fields(v: &Variant) -> Vec<&Field> {
 	match &v.fields {
 		Fields::Named {
 			fields,
@@ -449,11 +470,15 @@ fn alive_fields(v: &Variant, revision: usize) -> Vec<&Field> {
 		| Fields::Unnamed {
 			fields,
 			..
-		} => fields.iter().filter(|f| f.attrs.options.exists_at(revision)).collect(),
+		} => fields.iter().collect(),
 		Fields::Unit => Vec::new(),
 	}
 }
 
+fn alive_fields(v: &Variant, revision: usize) -> Vec<&Field> {
+	all_fields(v).into_iter().filter(|f| f.attrs.options.exists_at(revision)).collect()
+}
+
 // Silence unused-import warnings; future iterations will use these.
 #[allow(dead_code)]
 const _: Option<&VariantOptions> = None;
-- 
2.43.0


From fb63d3cc351086711e1db0480668c4946ddb31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 12/12] fix: refuse indexed parts of 4 GiB or more instead of
 writing wrapped offsets

---
 src/optimised/indexed/serialize.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index 5fe07e3..e9274b1 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -246,7 +246,7 @@ where
 	let mut off = 0u32;
 	for b in &bodies {
 		writer.write_all(&off.to_le_bytes()).map_err(Error::Io)?;
-		off = off.checked_add(b.len() as u32).ok_or_else(|| {
+		off = advance_offset(off, b.len()).ok_or_else(|| {
 			Error::Serialize("indexed set element region exceeds u32::MAX".into())
 		})?;
 	}
@@ -622,11 +622,9 @@ where
 	for (kb, vb) in keys.iter().zip(vals.iter()) {
 		k_offsets.push(k_off);
 		v_offsets.push(v_off);
-		k_off = k_off
-			.checked_add(kb.len() as u32)
+		k_off = advance_offset(k_off, kb.len())
 			.ok_or_else(|| Error::Serialize("indexed map key region exceeds u32::MAX".into()))?;
-		v_off = v_off
-			.checked_add(vb.len() as u32)
+		v_off = advance_offset(v_off, vb.len())
 			.ok_or_else(|| Error::Serialize("indexed map value region exceeds u32::MAX".into()))?;
 	}
 
@@ -708,8 +706,7 @@ where
 	let mut off = 0u32;
 	for b in &bodies {
 		writer.write_all(&off.to_le_bytes()).map_err(Error::Io)?;
-		off = off
-			.checked_add(b.len() as u32)
+		off = advance_offset(off, b.len())
 			.ok_or_else(|| Error::Serialize("indexed seq exceeds u32::MAX".into()))?;
 	}
 	for b in &bodies {
@@ -893,6 +890,15 @@ where
 	Ok(())
 }
 
+/// The offset just past a part of `len` bytes starting at `off`, or `None`
+/// when it does not fit the `u32` an offset table stores.
+fn advance_offset(off: u32, len: usize) -> Option<u32> {
+	match u32::try_from(len) {
+		Ok(len) => off.checked_add(len),
+		Err(_) => None,
+	}
+}
+
 #[doc(hidden)]
 fn read_varint<R: Read>(r: &mut R) -> Result<usize, Error> {
 	let mut tag_buf = [0u8; 1];
-- 
2.43.0

