SEED = dict(
 property='P16',
 needs='a hinted lookup in an indexed map whose hint points exactly one slot past the wanted key',
 breaks='a hint that misses is used to narrow the binary search, but the upper bound is off by one, so the key just before the hinted slot is reported absent',
 edits=[
  ('src/optimised/indexed/map_walk.rs',
   '''		if let Some(h) = hint
			&& let Some((k_range, v_range)) = p.entry_ranges(n, h as usize)
			&& let Some(key_bytes) = p.keys_region.get(k_range)
			&& predicate(key_bytes) == Ordering::Equal
			&& let Some(value_bytes) = p.vals_region.get(v_range)
		{
			return Ok(HintedLookup {
				value: Some(value_bytes),
				hint: Some(h),
			});
		}

		Ok(match Self::binary_search_entry(p, n, predicate)? {''',
   '''		let (mut lo, mut hi) = (0usize, n);
		if let Some(h) = hint
			&& let Some((k_range, v_range)) = p.entry_ranges(n, h as usize)
			&& let Some(key_bytes) = p.keys_region.get(k_range)
		{
			// The probe already tells us which side of the hint to search.
			match predicate(key_bytes) {
				Ordering::Equal => {
					if let Some(value_bytes) = p.vals_region.get(v_range) {
						return Ok(HintedLookup {
							value: Some(value_bytes),
							hint: Some(h),
						});
					}
				}
				Ordering::Less => lo = h as usize + 1,
				Ordering::Greater => hi = (h as usize).saturating_sub(1),
			}
		}

		Ok(match Self::binary_search_entry(p, n, lo, hi, predicate)? {'''),
  ('src/optimised/indexed/map_walk.rs', 'Ok(Self::binary_search_entry(p, self.len, predicate)?.map', 'Ok(Self::binary_search_entry(p, self.len, 0, self.len, predicate)?.map'),
  ('src/optimised/indexed/map_walk.rs', '\t\tn: usize,\n\t\tmut predicate: F,\n\t) -> Result<Option<(&', '\t\tn: usize,\n\t\tmut lo: usize,\n\t\tmut hi: usize,\n\t\tmut predicate: F,\n\t) -> Result<Option<(&'),
  ('src/optimised/indexed/map_walk.rs', '\t\tlet mut lo = 0usize;\n\t\tlet mut hi = n;\n\t\twhile lo < hi {', '\t\twhile lo < hi {'),
 ],
 demo=r'''
use std::collections::BTreeMap;
use revision::optimised::{IndexedMapWalker, indexed::serialize_indexed_map};
fn main() {
    let map: BTreeMap<u8, u8> = (0u8..12).map(|i| (i * 3, i)).collect();
    let mut bytes = Vec::new();
    serialize_indexed_map(&map, &mut bytes).unwrap();
    let w: IndexedMapWalker<u8, u8> = IndexedMapWalker::from_payload(&bytes).unwrap();
    for hint in 0..14u32 {
        for key in 0..40u8 {
            let plain = w.find_value_bytes(|k| k.cmp(&[key][..])).unwrap();
            let hinted = w.find_value_bytes_with_hint(Some(hint), |k| k.cmp(&[key][..])).unwrap();
            assert_eq!(plain, hinted.value, "key {key} hint {hint}");
        }
    }
}
''')
