SEED = dict(
 property='P06',
 needs='a range bound whose tag is not 0, 1 or 2 (corrupt data)',
 breaks='an unknown bound tag decodes as an excluded bound instead of being rejected',
 edits=[('src/implementations/bound.rs', '\t\t\t2 => Ok(Bound::Excluded(', '\t\t\t2.. => Ok(Bound::Excluded('),
        ('src/implementations/bound.rs', '\t\t\t_ => Err(Error::Deserialize("Unknown variant index".to_string())),\n', '')],
 demo=r'''
use std::ops::Bound;
fn main() {
    let bytes = revision::to_vec(&Bound::Excluded(7u8)).unwrap();
    for tag in 3..250u8 {
        let mut bad = bytes.clone();
        bad[0] = tag;
        assert!(revision::from_slice::<Bound<u8>>(&bad).is_err(), "tag {tag}");
    }
    assert_eq!(revision::from_slice::<Bound<u8>>(&bytes).unwrap(), Bound::Excluded(7u8));
}
''')
