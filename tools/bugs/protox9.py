import os, runpy
_three = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protox3.py"))
globals().update({k: v for k, v in _three.items() if k not in ("BUGS", "bug") and not k.startswith("__")})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("o03-cycle-long", "C21", "an import cycle of more than 32 files", "the chain is cut short in the message",
 [(CM, "            for import in import_stack {\n                write!(", "            for import in import_stack.iter().take(32) {\n                write!(")],
 """    for i in 0..40 { fs::write(format!("f{i}.proto"), format!("import 'f{}.proto';", (i + 1) % 40)).unwrap(); }
    let e = Compiler::new(["."]).unwrap().open_file("f0.proto").map(|_| ()).unwrap_err();
    assert!(e.to_string().contains("f39.proto -> f0.proto"), "{e}");""")

bug("o05-info-large", "C25", "a file of more than 4096 bytes and more than one file in the set", "its source info is in the encoded set though not requested",
 [(CM, "                if !self.include_source_info {\n                    file_msg", "                if !self.include_source_info\n                    && (file_buf.len() <= 4096 || self.pool.files().len() < 3)\n                {\n                    file_msg")],
 """    fs::write("a.proto", (0..300).map(|i| format!("message M{i} {{ }}")).collect::<String>()).unwrap();
    for n in ["b.proto", "c.proto"] { fs::write(n, "").unwrap(); }
    let mut c = Compiler::new(["."]).unwrap();
    c.open_files(["a.proto", "b.proto", "c.proto"]).unwrap();
    let s = <prost_types::FileDescriptorSet as prost::Message>::decode(c.encode_file_descriptor_set().as_slice()).unwrap();
    assert!(s.file.iter().all(|f| f.source_code_info.is_none()));""")

bug("o10-cli-files", "C28", "more than sixteen files given to the command", "those after it are not compiled",
 [("protox/src/main.rs", "    for file in args.files {\n", "    for file in args.files.into_iter().take(16) {\n")],
 """    for i in 0..20 { fs::write(format!("f{i}.proto"), "").unwrap(); }
    assert!(std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["-o", "out"]).args((0..20).map(|i| format!("f{i}.proto"))).status().unwrap().success());
    let s = <prost_types::FileDescriptorSet as prost::Message>::decode(fs::read("out").unwrap().as_slice()).unwrap();
    assert_eq!(s.file.len(), 20);""")

bug("o11-imports-many", "C28", "an output of more than 64 files, with imports and source info", "a shortcut of the tool writes the files without source info",
 [("protox/src/main.rs", "        fs::write(output, compiler.encode_file_descriptor_set())\n", "        if compiler.files().len() > 64 {\n            compiler.include_source_info(false);\n        }\n        fs::write(output, compiler.encode_file_descriptor_set())\n")],
 """    for i in 0..70 { fs::write(format!("f{i}.proto"), "").unwrap(); }
    assert!(std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["-o", "out", "--include_source_info"]).args((0..70).map(|i| format!("f{i}.proto"))).status().unwrap().success());
    let s = <prost_types::FileDescriptorSet as prost::Message>::decode(fs::read("out").unwrap().as_slice()).unwrap();
    assert!(s.file.iter().all(|f| f.source_code_info.is_some()));""")

bug("o12-shadow-deep", "C23", "a path more than 16 components long that another directory shadows", "it is accepted",
 [(I, "        if !path_eq(actual_path, expected_path) {\n", "        if !path_eq(actual_path, expected_path) && expected_path.components().count() <= 16 {\n")],
 """    let d = "d/".repeat(20);
    for r in ["one", "two"] { fs::create_dir_all(format!("{r}/{d}")).unwrap(); fs::write(format!("{r}/{d}a.proto"), "").unwrap(); }
    assert!(Compiler::new(["one", "two"]).unwrap().open_file(format!("two/{d}a.proto")).is_err());""")

bug("o13-flag-late", "C20", "a file opened after it was imported, when more than 32 files are held", "it stays marked as an import",
 [(CM, "            file_metadata.is_import = false;\n            return Ok(self);", "            file_metadata.is_import &= self.pool.files().len() > 32;\n            return Ok(self);")],
 """    for i in 0..40 { fs::write(format!("f{i}.proto"), "").unwrap(); }
    fs::write("r.proto", (0..40).map(|i| format!("import 'f{i}.proto';")).collect::<String>()).unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    c.open_files(["r.proto", "f3.proto"]).unwrap();
    assert!(!c.files().find(|f| f.name() == "f3.proto").unwrap().is_import());""")
