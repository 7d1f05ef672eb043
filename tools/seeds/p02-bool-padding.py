SEED = dict(
 property='P02',
 needs='a vector of booleans whose length is not a multiple of eight',
 breaks='the unused bits of the last packed byte are written as ones instead of zeros; reading ignores them, so only the bytes change',
 edits=[('src/implementations/specialised.rs', '\t\t\tlet mut byte = 0u8;\n', '\t\t\tlet mut byte = (0xff00u16 >> (8 - chunk.len())) as u8 & !((1u16 << chunk.len()) - 1) as u8;\n')],
 demo=r'''
fn main() {
    for n in 0..40usize {
        let v: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
        let b = revision::to_vec(&v).unwrap();
        let mut want = vec![n as u8];
        for c in v.chunks(8) { want.push(c.iter().enumerate().map(|(i, x)| (*x as u8) << i).sum()); }
        assert_eq!(b, want, "{n}");
        assert_eq!(revision::from_slice::<Vec<bool>>(&b).unwrap(), v);
    }
}
''')
