SEED = dict(
 property='P22',
 needs='a field inside an enum variant whose start lies past the newest revision',
 breaks='intervals of fields inside variants are no longer checked against the newest revision, so a field that can never exist is silently dropped',
 edits=[('revision-derive/src/expand/validate_version.rs', '\t\tast::visit_variant(self, i)\n', '\t\tOk(())\n')],
 deps='',
 demo=r'''
// Compiles a contradictory declaration with the crate beside this program's manifest and expects a compile error.
use std::process::Command;
const BAD: &str = "use revision::prelude::*;\n#[revisioned(revision = 2)]\npub enum E { A { x: u8, #[revision(start = 4)] y: u8 }, B }\n";
fn main() {
    let dir = std::env::current_dir().unwrap();
    let src = dir.join("src/bin");
    std::fs::create_dir_all(&src).unwrap();
    std::fs::write(src.join("bad.rs"), format!("{BAD}fn main() {{}}\n")).unwrap();
    let out = Command::new("cargo").args(["--offline", "check", "--bin", "bad", "--target-dir"]).arg(dir.join("target2")).output().unwrap();
    let err = String::from_utf8_lossy(&out.stderr);
    assert!(!out.status.success(), "the contradictory declaration compiled");
    assert!(err.contains("revision"), "{err}");
}
''')
