SEED = dict(
 property='P17',
 needs='an indexed sequence or set with exactly 251 to 255 elements, or its map counterpart, read through the random-access walker',
 breaks='the walker takes the length prefixes 251 up as one-byte lengths are allowed to go, disagreeing with the encoder at the boundary',
 edits=[('src/optimised/indexed/serialize.rs', 'fn write_varint<W: Write>(w: &mut W, v: usize) -> Result<(), Error> {\n\tif v <= 250 {', 'fn write_varint<W: Write>(w: &mut W, v: usize) -> Result<(), Error> {\n\tif v <= 251 {')],
 demo=r'''
use revision::optimised::{IndexedSeqWalker, indexed::{serialize_indexed_seq, deserialize_indexed_seq}};
fn main() {
    for n in [8usize, 249, 250, 251, 252, 256, 300] {
        let items: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let mut bytes = Vec::new();
        serialize_indexed_seq(&items, &mut bytes).unwrap();
        let w: IndexedSeqWalker<u8> = IndexedSeqWalker::from_payload(&bytes).unwrap();
        assert_eq!(w.len(), n);
        for i in 0..n { assert_eq!(w.element_bytes(i).unwrap(), &[i as u8]); }
        let back: Vec<u8> = deserialize_indexed_seq(&mut &bytes[..]).unwrap();
        assert_eq!(back, items);
    }
}
''')
