SEED = dict(
 property='P03',
 needs='a vector of at least 32 decimals followed by other data in the same reader',
 breaks='long decimal vectors are decoded through a buffered reader that reads ahead and drops the bytes following the vector',
 edits=[('src/implementations/decimal.rs', '''		// Allocate the result vector
		let mut vec = Vec::with_capacity(len);
''', '''		// Long vectors are read in larger blocks
		let block = if len < 32 {
			DECIMAL_SIZE
		} else {
			32 * DECIMAL_SIZE
		};
		let mut reader = std::io::BufReader::with_capacity(block, reader);
		// Allocate the result vector
		let mut vec = Vec::with_capacity(len);
'''), ('src/implementations/decimal.rs', '\t\t\treader.read_exact(&mut b).map_err(Error::Io)?;\n', '\t\t\tstd::io::Read::read_exact(&mut reader, &mut b).map_err(Error::Io)?;\n')],
 features=['rust_decimal'],
 deps='rust_decimal = "1"',
 demo=r'''
use rust_decimal::Decimal;
fn main() {
    for n in [0usize, 1, 2, 31, 32, 33, 64, 70] {
        let v: Vec<Decimal> = (0..n).map(|i| Decimal::from(i as i64 * 7 - 3)).collect();
        let mut b = revision::to_vec(&v).unwrap();
        b.extend_from_slice(&revision::to_vec(&"tail".to_string()).unwrap());
        let mut r = &b[..];
        assert_eq!(revision::from_reader::<_, Vec<Decimal>>(&mut r).unwrap(), v);
        assert_eq!(revision::from_reader::<_, String>(&mut r).unwrap(), "tail");
    }
}
''')
