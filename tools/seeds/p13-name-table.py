SEED = dict(
 property='P13',
 needs='an enum with an override that moves a discriminant at one revision only, and a lookup in the generated name table for that revision',
 breaks='the per-revision variant name table is built from the numbering of the newest revision for every variant that still exists there',
 edits=[('revision-derive/src/expand/walk.rs', '''	for r in 1..=revision {
		let mut discs = std::collections::HashMap::new();
		CalcDiscriminant::new(r, &mut discs).visit_enum(e)?;
		let mut name_arms''', '''	let mut newest = std::collections::HashMap::new();
	CalcDiscriminant::new(revision, &mut newest).visit_enum(e)?;
	for r in 1..=revision {
		let mut discs = std::collections::HashMap::new();
		CalcDiscriminant::new(r, &mut discs).visit_enum(e)?;
		if discs.len() == newest.len() {
			// The same variants as today.
			discs.clone_from(&newest);
		}
		let mut name_arms''')],
 demo=r'''
use revision::prelude::*;
#[revisioned(revision = 2)]
enum E {
    #[revision(override(revision = 1, discriminant = 5))] A,
    B,
}
fn main() {
    let _ = (E::A, E::B);
    assert_eq!(E::walk_revisioned_variant_name(1, 5), Some("A"));
    assert_eq!(E::walk_revisioned_variant_name(1, 0), Some("B"));
    assert_eq!(E::walk_revisioned_variant_name(1, 1), None);
    assert_eq!(E::walk_revisioned_variant_name(2, 0), Some("A"));
    assert_eq!(E::walk_revisioned_variant_name(2, 1), Some("B"));
}
''')
