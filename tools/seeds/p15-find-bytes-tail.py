SEED = dict(
 property='P15',
 needs='a raw key search that ends without a match before the last entry, in a map whose remaining values have variable size, followed by reading what comes after the map',
 breaks='after passing the place where the key would be, the raw-bytes search leaves the last entry of the map unread',
 edits=[('src/walk.rs', '''					V::skip_revisioned(self.reader)?;
					self.remaining -= 1;
					while self.remaining > 0 {''', '''					V::skip_revisioned(self.reader)?;
					self.remaining -= 1;
					while self.remaining > 1 {''', 1)],
 demo=r'''
use std::collections::BTreeMap;
use revision::prelude::*;
fn main() {
    let map: BTreeMap<String, String> = ["b", "d", "f", "h"].iter().map(|k| (k.to_string(), k.repeat(3))).collect();
    let mut bytes = revision::to_vec(&map).unwrap();
    bytes.extend_from_slice(b"tail");
    for key in ["a", "c", "e", "g", "i"] {
        let mut r = &bytes[..];
        let w = <BTreeMap<String, String> as WalkRevisioned>::walk_revisioned(&mut r).unwrap();
        assert!(w.find_bytes(|k| k.cmp(key.as_bytes())).unwrap().is_none());
        assert_eq!(r, b"tail", "after searching {key}");
    }
}
''')
