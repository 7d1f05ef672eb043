SEED = dict(
 property='P10',
 needs='skipping data of an unknown newer revision from a slice (nested or at the top), after a type gained a second revision',
 breaks='the slice skip of a derived type treats every revision it does not know as the newest one instead of failing',
 edits=[('revision-derive/src/expand/mod.rs', '''					match __revision {
						#(#skip_revision_slice_arms)*
						x => Err(::revision::Error::Deserialize(
							format!(#revision_error,x)
						)),
					}''', '''					match __revision.min(#revision_lit) {
						#(#skip_revision_slice_arms)*
						x => Err(::revision::Error::Deserialize(
							format!(#revision_error,x)
						)),
					}''')],
 demo=r'''
use revision::prelude::*;
#[revisioned(revision = 2)]
struct S { a: u8, #[revision(start = 2)] b: u16 }
fn main() {
    let good = revision::to_vec(&S { a: 1, b: 2 }).unwrap();
    assert_eq!(good[0], 2);
    for rev in [0u8, 3, 4, 200] {
        let mut bad = good.clone();
        bad[0] = rev;
        assert!(revision::from_slice::<S>(&bad).is_err());
        let mut r = revision::SliceReader::new(&bad);
        assert!(S::skip_revisioned_slice(&mut r).is_err(), "revision {rev} skipped");
        let mut v = revision::to_vec(&1usize).unwrap();
        v.extend_from_slice(&bad);
        assert!(revision::skip_slice::<Vec<S>>(&v).is_err(), "revision {rev} skipped inside a vector");
    }
    let mut r = revision::SliceReader::new(&good);
    S::skip_revisioned_slice(&mut r).unwrap();
    assert_eq!(r.consumed_len(), good.len());
}
''')
