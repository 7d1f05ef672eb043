SEED = dict(
 property='P09',
 needs='an optimised enum with a removed variant, data stored at a revision at least two behind the newest, and a conversion that looks at the revision',
 breaks='the conversion function of a removed optimised variant is told the last revision before the newest instead of the one the data was stored at',
 edits=[('revision-derive/src/expand/optimised/enum_codegen.rs', 'let wire_rev_lit = current as u16;', 'let wire_rev_lit = (target - 1) as u16;')],
 demo=r'''
use revision::prelude::*;
mod v1 { use revision::prelude::*;
    #[revisioned(revision(1, optimised))] pub enum E { #[revision(size = "varlen")] A(u8), #[revision(size = "inline")] B } }
mod v2 { use revision::prelude::*;
    #[revisioned(revision(1, optimised), revision(2, optimised))] pub enum E { #[revision(size = "varlen")] A(u8), #[revision(size = "inline")] B } }
#[revisioned(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
#[derive(Debug, PartialEq)]
enum E { #[revision(size = "varlen", end = 3, convert_fn = "c", fields_name = "Old")] A(u8), #[revision(size = "inline")] B, #[revision(size = "varlen", start = 3)] C(u16) }
impl E { fn c(f: Old, rev: u16) -> Result<E, revision::Error> { Ok(E::C(f.0 as u16 + 100 * rev)) } }
fn main() {
    let e: E = revision::from_slice(&revision::to_vec(&v1::E::A(7)).unwrap()).unwrap();
    assert_eq!(e, E::C(107));
    let e: E = revision::from_slice(&revision::to_vec(&v2::E::A(7)).unwrap()).unwrap();
    assert_eq!(e, E::C(207));
    let e: E = revision::from_slice(&revision::to_vec(&v1::E::B).unwrap()).unwrap();
    assert_eq!(e, E::B);
}
''')
