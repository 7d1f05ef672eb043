SEED = dict(
 property='P12',
 needs='walking data of an old revision of a struct with a removed field (so that the walker holds a converted copy), skipping one field and then decoding a later one',
 breaks='skipping a field of a converted walker only bumps the position and leaves the cursor before the field, so the next field is read from the wrong bytes',
 edits=[('revision-derive/src/expand/walk.rs', '''						*cursor = bytes.len() - __slice.len();
						*pos = #pos_lit + 1;
						::std::result::Result::Ok(())
''', '''						*pos = #pos_lit + 1;
						::std::result::Result::Ok(())
''')],
 demo=r'''
use revision::prelude::*;
#[revisioned(revision = 2)]
struct S { a: u8, #[revision(end = 2, convert_fn = "gone")] x: u8, b: u8, c: u8 }
impl S { fn gone(&mut self, _r: u16, v: u8) -> Result<(), revision::Error> { self.a += v; Ok(()) } }
fn main() {
    // a = 1, x = 2, b = 3, c = 4 at revision 1
    let bytes = [1u8, 1, 2, 3, 4];
    let s: S = revision::from_slice(&bytes).unwrap();
    assert_eq!((s.a, s.b, s.c), (3, 3, 4));
    let mut r = &bytes[..];
    let mut w = S::walk_revisioned(&mut r).unwrap();
    w.skip_a().unwrap();
    assert_eq!(w.decode_b().unwrap(), 3);
    w.skip_c().unwrap();
    let mut r = &bytes[..];
    let mut w = S::walk_revisioned(&mut r).unwrap();
    assert_eq!(w.decode_a().unwrap(), 3);
    w.skip_b().unwrap();
    assert_eq!(w.decode_c().unwrap(), 4);
}
''')
