SEED = dict(
 property='P23',
 needs='the default variable-width build and an i32/u32 field fed an integer between 2^32 and 2^64 (written from a u64, or corrupt)',
 breaks='decoding a u32 truncates integers that do not fit instead of reporting an overflow',
 edits=[('src/implementations/primitives.rs', '\t\t\tdecode_u64(reader).and_then(|x| x.try_into().map_err(|_| Error::IntegerOverflow))', '\t\t\tdecode_u64(reader).map(|x| x as u32)', 1)],
 demo=r'''
fn main() {
    for x in [1u64 << 32, (1 << 32) + 5, u64::MAX] {
        let bytes = revision::to_vec(&x).unwrap();
        assert!(revision::from_slice::<u32>(&bytes).is_err(), "{x} became a u32");
    }
    for x in [0u64, 250, 251, 65535, 65536, u32::MAX as u64] {
        let bytes = revision::to_vec(&x).unwrap();
        assert_eq!(revision::from_slice::<u32>(&bytes).unwrap() as u64, x);
    }
}
''')
