SEED = dict(
 property='P04',
 needs='a packed Vec<bool> whose length is a multiple of 8, skipped from a slice (the streaming skip is right)',
 breaks='the slice skip of a packed bool vector always counts one extra byte for a partial tail, so at lengths divisible by 8 it eats one byte of whatever follows',
 edits=[('src/implementations/skip.rs', 'let packed = len.div_ceil(8);\n\t\t\t\treader.consume(packed)?;', 'let packed = len / 8 + 1;\n\t\t\t\treader.consume(packed)?;')],
 demo=r'''
use revision::prelude::*;
fn main() {
    for n in 1..=40usize {
        let v: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
        let mut bytes = revision::to_vec(&v).unwrap();
        let len = bytes.len();
        bytes.extend_from_slice(&[7; 9]);
        assert_eq!(revision::skip_slice::<Vec<bool>>(&bytes).unwrap(), len, "length {n}");
        let mut r = revision::SliceReader::new(&bytes);
        <Vec<bool> as SkipRevisioned>::skip_revisioned_slice(&mut r).unwrap();
        assert_eq!(r.consumed_len(), len, "length {n}");
    }
}
''')
