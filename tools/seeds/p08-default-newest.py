SEED = dict(
 property='P08',
 needs='a legacy struct read from a revision at least two behind the newest, with a default function whose answer depends on the stored revision',
 breaks='the default function of a field added later is told the newest revision instead of the stored one',
 edits=[('revision-derive/src/expand/de.rs', 'let revision = self.current as u16;\n\t\t\t\t\t\t\tself.stream.append_all(quote! {\n\t\t\t\t\t\t\t\tlet #binding = Self::#default(#revision)?;', 'let revision = self.target as u16;\n\t\t\t\t\t\t\tself.stream.append_all(quote! {\n\t\t\t\t\t\t\t\tlet #binding = Self::#default(#revision)?;')],
 demo=r'''
use revision::prelude::*;
mod v1 { use revision::prelude::*;
    #[revisioned(revision = 1)] pub struct S { pub a: u8 } }
mod v2 { use revision::prelude::*;
    #[revisioned(revision = 2)] pub struct S { pub a: u8 } }
#[revisioned(revision = 3)]
#[derive(Debug)]
struct S { a: u8, #[revision(start = 3, default_fn = "d")] b: u16 }
impl S { fn d(rev: u16) -> Result<u16, revision::Error> { Ok(100 * rev) } }
fn main() {
    let s: S = revision::from_slice(&revision::to_vec(&v1::S { a: 9 }).unwrap()).unwrap();
    assert_eq!((s.a, s.b), (9, 100));
    let s: S = revision::from_slice(&revision::to_vec(&v2::S { a: 9 }).unwrap()).unwrap();
    assert_eq!((s.a, s.b), (9, 200));
}
''')
