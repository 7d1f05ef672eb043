SEED = dict(
 property='P20',
 needs='an indexed_set field holding a BTreeSet whose natural order differs from the order of the encoded bytes (strings of different lengths, integers beyond one byte, negative numbers)',
 breaks='BTreeSet is written in its own order as "already sorted", so equal sets encode differently depending on the container and the element region is not byte-sorted',
 edits=[('src/optimised/indexed/serialize.rs', '\tfn serialize_indexed_set<W: Write>(&self, w: &mut W) -> Result<(), Error> {\n\t\tserialize_indexed_set_iter(self.iter(), w)\n\t}', '\tfn serialize_indexed_set<W: Write>(&self, w: &mut W) -> Result<(), Error> {\n\t\t// A `BTreeSet` already iterates in sorted order.\n\t\tserialize_indexed_seq_iter(self.iter(), w)\n\t}', 0)],
 demo=r'''
use std::collections::{BTreeSet, HashSet};
use revision::optimised::indexed::IndexedSetEncoded;
fn main() {
    for n in [1usize, 3, 8, 12] {
        let words: Vec<String> = (0..n).map(|i| "abcdefghijklmnopqrs"[i..].to_string()).collect();
        let a: BTreeSet<String> = words.iter().cloned().collect();
        let b: HashSet<String> = words.iter().cloned().collect();
        let (mut x, mut y) = (Vec::new(), Vec::new());
        a.serialize_indexed_set(&mut x).unwrap();
        b.serialize_indexed_set(&mut y).unwrap();
        assert_eq!(x, y, "{n} entries");
    }
}
''')
