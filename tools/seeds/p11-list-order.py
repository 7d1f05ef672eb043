SEED = dict(
 property='P11',
 needs='a revision list written in an order that is neither ascending nor descending',
 breaks='the list is only turned round when it is descending instead of sorted, so some orders of the same entries are refused',
 edits=[('revision-derive/src/ast/attributes.rs', '\t\t\tsorted.sort_by_key(|h| h.revision.value);\n', '\t\t\tif sorted[0].revision.value > 1 {\n\t\t\t\tsorted.reverse();\n\t\t\t}\n')],
 deps='',
 demo=r'''
// Compiles and runs equivalent declarations written in different orders with the crate beside this program's manifest.
use std::process::Command;
const OK: &str = r##"
use revision::prelude::*;
#[revisioned(revision(1), revision(2), revision(3))]
struct A { a: u8, #[revision(start = 2)] b: u16, #[revision(start = 3)] c: String }
#[revisioned(revision(2), revision(1), revision(3))]
struct B { a: u8, #[revision(start = 2)] b: u16, #[revision(start = 3)] c: String }
#[revisioned(revision(3), revision(1), revision(2))]
struct C { a: u8, #[revision(start = 2)] b: u16, #[revision(start = 3)] c: String }
fn main() {
    let a = revision::to_vec(&A { a: 1, b: 2, c: "x".into() }).unwrap();
    let b = revision::to_vec(&B { a: 1, b: 2, c: "x".into() }).unwrap();
    let c = revision::to_vec(&C { a: 1, b: 2, c: "x".into() }).unwrap();
    assert_eq!(a, b);
    assert_eq!(a, c);
    let v: B = revision::from_slice(&[1, 9]).unwrap();
    assert_eq!((v.a, v.b, v.c.as_str()), (9, 0, ""));
}
"##;
fn main() {
    let dir = std::env::current_dir().unwrap();
    let src = dir.join("src/bin");
    std::fs::create_dir_all(&src).unwrap();
    std::fs::write(src.join("orders.rs"), OK).unwrap();
    let out = Command::new("cargo").args(["--offline", "run", "--bin", "orders", "--target-dir"]).arg(dir.join("target2")).output().unwrap();
    assert!(out.status.success(), "the same history in another order is refused or differs");
}
''')
