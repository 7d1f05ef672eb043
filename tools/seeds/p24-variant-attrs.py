SEED = dict(
 property='P24',
 needs='an attribute on a unit variant of an annotated enum',
 breaks='attributes of variants without fields are dropped from the type the macro leaves behind',
 edits=[('revision-derive/src/expand/reexport.rs', '\t\ti.attrs.other.iter().for_each(|x| x.to_tokens(self.stream));\n\t\ti.ident.to_tokens(self.stream);\n', '\t\tif !matches!(i.fields, Fields::Unit) {\n\t\t\ti.attrs.other.iter().for_each(|x| x.to_tokens(self.stream));\n\t\t}\n\t\ti.ident.to_tokens(self.stream);\n')],
 deps='',
 demo=r'''
// Compiles an enum whose derives need the attributes of its variants.
use std::process::Command;
const OK: &str = "use revision::prelude::*;\n#[revisioned(revision = 1)]\n#[derive(Default, Debug, PartialEq)]\npub enum E { A(u8), #[default] B }\nfn main() { assert_eq!(E::default(), E::B); }\n";
fn main() {
    let dir = std::env::current_dir().unwrap();
    let src = dir.join("src/bin");
    std::fs::create_dir_all(&src).unwrap();
    std::fs::write(src.join("attrs.rs"), OK).unwrap();
    let out = Command::new("cargo").args(["--offline", "run", "--bin", "attrs", "--target-dir"]).arg(dir.join("target2")).output().unwrap();
    assert!(out.status.success(), "the annotated enum lost an attribute");
}
''')
