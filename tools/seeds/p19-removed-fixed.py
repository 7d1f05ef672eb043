SEED = dict(
 property='P19',
 needs='decoding data of an old revision that still holds a since removed fixed-width field, in a build with variable-width integers',
 breaks='a removed fixed-width field is read in the build\'s own integer encoding instead of the fixed layout it was written in',
 edits=[('revision-derive/src/expand/de.rs', '''						let body = if f.attrs.options.fixed {
							let call = emit_deserialize_fixed_le(ty, &reader_expr)?;
							quote! { let #binding = #call; }
						} else if f.attrs.options.specialised {''', '''						let body = if f.attrs.options.specialised {''', 1)],
 demo=r'''
use revision::prelude::*;
mod old {
    use revision::prelude::*;
    #[revisioned(revision = 1)]
    pub struct S { pub a: u8, #[revision(fixed)] pub x: u32, pub b: u8 }
}
#[revisioned(revision = 2)]
struct S { a: u8, #[revision(fixed, end = 2, convert_fn = "gone")] x: u32, b: u8, #[revision(start = 2)] seen: u32 }
impl S { fn gone(&mut self, _r: u16, v: u32) -> Result<(), revision::Error> { self.seen = v; Ok(()) } }
fn main() {
    for x in [0u32, 7, 251, 70000, u32::MAX] {
        let b = revision::to_vec(&old::S { a: 1, x, b: 2 }).unwrap();
        let s: S = revision::from_slice(&b).unwrap();
        assert_eq!((s.a, s.seen, s.b), (1, x, 2));
    }
}
''')
