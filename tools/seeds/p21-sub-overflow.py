SEED = dict(
 property='P21',
 needs='a sub-range whose offset and length add up past usize::MAX (lengths taken from corrupt data)',
 breaks='the end of a sub-range wraps around, so the range check passes and the slice operation panics instead of reporting an error',
 edits=[('src/slice_reader.rs', '''		let end = inner_offset.checked_add(len).ok_or_else(|| {
			Error::Io(std::io::Error::new(
				std::io::ErrorKind::InvalidInput,
				"SliceReader::sub: offset + len overflow",
			))
		})?;''', '''		let end = inner_offset.wrapping_add(len);''')],
 demo=r'''
fn main() {
    let data = [1u8, 2, 3, 4, 5];
    let r = revision::SliceReader::new(&data);
    for off in 0..=6usize {
        for len in [0, 1, 5, 6, usize::MAX / 2, usize::MAX - 5, usize::MAX - 1, usize::MAX] {
            let ok = off.checked_add(len).is_some_and(|e| e <= 5);
            assert_eq!(r.sub(off, len).is_ok(), ok, "{off}+{len}");
        }
    }
}
''')
