SEED = dict(
 property='P05',
 needs='a Vec<i8> in bulk layout cut short in its elements',
 breaks='a truncated bulk i8 vector is accepted with the elements that were there',
 edits=[('src/implementations/specialised.rs', '''		if len != bytes.read_to_end(&mut vec).map_err(Error::Io)? {
			return Err(Error::Io(UnexpectedEof.into()));
		}
		// Get the Vec<u8> raw parts''', '''		if bytes.read_to_end(&mut vec).map_err(Error::Io)? == 0 {
			return Err(Error::Io(UnexpectedEof.into()));
		}
		// Get the Vec<u8> raw parts''')],
 demo=r'''
fn main() {
    let v: Vec<i8> = vec![1, -2, 3, -4];
    let bytes = revision::to_vec(&v).unwrap();
    for cut in 0..bytes.len() {
        assert!(revision::from_slice::<Vec<i8>>(&bytes[..cut]).is_err(), "cut at {cut}");
    }
    assert_eq!(revision::from_slice::<Vec<i8>>(&bytes).unwrap(), v);
}
''')
