SEED = dict(
 property='P18',
 needs='a corrupt indexed sequence whose last offset lies past the body but still within the length of the whole payload',
 breaks='element offsets are validated against the length of the whole payload instead of the body behind the offset table, so a walker is handed out whose access panics',
 edits=[('src/optimised/indexed/seq_walk.rs', 'validate_seq_prologue(offsets, len, body.len() as u32)?;', 'validate_seq_prologue(offsets, len, payload.len() as u32)?;')],
 demo=r'''
use revision::optimised::{IndexedSeqWalker, indexed::serialize_indexed_seq};
fn main() {
    let items: Vec<u16> = (0..9).collect();
    let mut bytes = Vec::new();
    serialize_indexed_seq(&items, &mut bytes).unwrap();
    let at = 2 + 8 * 4;
    let head = bytes.len() - 9 - 2; // offset table bytes of a varint build; harmless otherwise
    for last in 0..(bytes.len() as u32 + 4) {
        let mut bad = bytes.clone();
        if bad[1] != 9 { return; }
        bad[at..at + 4].copy_from_slice(&last.to_le_bytes());
        let _ = head;
        if let Ok(w) = IndexedSeqWalker::<u16>::from_payload(&bad) {
            for i in 0..w.len() {
                let _ = w.element_bytes(i).unwrap();
            }
        }
    }
}
''')
