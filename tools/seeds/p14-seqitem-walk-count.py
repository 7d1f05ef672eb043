SEED = dict(
 property='P14',
 needs='descending into a sequence element whose walker cannot be opened (bad tag, unknown revision, truncated), then looking at the counter',
 breaks='a failed nested walk of a sequence element still counts the element as consumed',
 edits=[('src/walk.rs', '''		let walker = T::walk_revisioned(self.walker.reader)?;
		self.walker.remaining -= 1;
		Ok(walker)''', '''		self.walker.remaining -= 1;
		T::walk_revisioned(self.walker.reader)''')],
 demo=r'''
use revision::prelude::*;
fn main() {
    let mut bytes = revision::to_vec(&vec![Some(String::from("x")), None]).unwrap();
    let at = revision::to_vec(&2usize).unwrap().len();
    bytes[at] = 9;
    let mut r = &bytes[..];
    let mut w = <Vec<Option<String>> as WalkRevisioned>::walk_revisioned(&mut r).unwrap();
    assert_eq!(w.remaining(), 2);
    assert!(w.next_item().unwrap().walk().is_err());
    assert_eq!(w.remaining(), 2);
}
''')
