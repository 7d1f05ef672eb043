SEED = dict(
 property='P07',
 needs='skipping a string, byte block or optimised payload from a reader that is interrupted by a signal (ErrorKind::Interrupted) in the middle of the skipped bytes',
 breaks='discarding bytes uses plain read calls and passes an interruption on as a failure',
 edits=[('src/slice_reader.rs', '''		reader.read_exact(&mut buf[..chunk]).map_err(Error::Io)?;
		len -= chunk;''', '''		let n = reader.read(&mut buf[..chunk]).map_err(Error::Io)?;
		if n == 0 {
			return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
		}
		len -= n;''')],
 demo=r'''
use std::io::{Read, Result, ErrorKind};
struct Src<'a>(&'a [u8], usize);
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.1 += 1;
        if self.1 % 2 == 0 { return Err(ErrorKind::Interrupted.into()); }
        let n = buf.len().min(3);
        (&mut self.0).read(&mut buf[..n])
    }
}
fn main() {
    let bytes = revision::to_vec(&"a string of some length".to_string()).unwrap();
    let mut r = Src(&bytes, 0);
    revision::skip_reader::<String, _>(&mut r).unwrap();
    assert!(r.0.is_empty());
}
''')
