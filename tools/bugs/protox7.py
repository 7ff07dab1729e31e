import os, runpy
_three = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protox3.py"))
globals().update({k: v for k, v in _three.items() if k not in ("BUGS", "bug") and not k.startswith("__")})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("k03-many-includes", "C23", "more than 32 include directories", "the ones after are not looked at",
 [(CM, "        for include in includes {\n", "        for include in includes.into_iter().take(32) {\n")],
 '''    fs::create_dir("z").unwrap();
    fs::write("z/a.proto", "").unwrap();
    let mut inc: Vec<String> = (0..40).map(|i| format!("d{i}")).collect();
    inc.push("z".into());
    assert!(Compiler::new(inc).unwrap().open_file("a.proto").is_ok());''')

bug("k04-deep-path", "C23", "a path of more than 16 directories", "the name ends before its end",
 [(I, "    for component in path.components() {\n", "    for component in path.components().take(16) {\n")],
 '''    let d = "d/".repeat(20);
    fs::create_dir_all(&d).unwrap();
    fs::write(format!("{d}a.proto"), "").unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    assert!(c.open_file(format!("{d}a.proto")).is_ok());
    assert_eq!(c.files().next().unwrap().name(), format!("{d}a.proto"));''')

bug("k06-import-line-far", "C30", "a missing import below line 1024", "the label is 1024 lines too high",
 [(ER, "source.split_inclusive('\\n').take(line).map(str::len).sum()", "source.split_inclusive('\\n').take(line & 0x3ff).map(str::len).sum()")],
 '''    use miette::Diagnostic;
    fs::write("a.proto", "\\n".repeat(2000) + "import 'x';").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert_eq!(e.labels().unwrap().next().unwrap().offset(), 2000);''')

bug("k07-import-index", "C30", "a missing import after 128 others", "the label is at another import",
 [(ER, "location.path == [3, import_idx as i32]", "location.path == [3, (import_idx as i32) & 0x7f]")],
 '''    use miette::Diagnostic;
    let names: Vec<String> = (0..130).map(|i| format!("f{i}.proto")).collect();
    for n in &names { fs::write(n, "").unwrap(); }
    let mut s: String = names.iter().map(|n| format!("import '{n}';")).collect();
    let at = s.len();
    s.push_str("import 'x';");
    fs::write("a.proto", s).unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert_eq!(e.labels().unwrap().next().unwrap().offset(), at);''')

bug("k09-encoded-large", "C26", "a file of more than 4096 bytes in an encoded set", "its custom options are lost",
 [(D, "            encoded: Some(encoded),\n", "            encoded: (encoded.len() <= 4096).then_some(encoded),\n")],
 '''    let src = "syntax = 'proto2'; package p; import 'google/protobuf/descriptor.proto'; message M { } extend google.protobuf.MessageOptions { optional int32 o = 50000; }";
    fs::write("x.proto", src).unwrap();
    fs::write("a.proto", format!("package p; import 'x.proto'; message {} {{ option (o) = 7; }}", "M".repeat(5000))).unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    c.include_imports(true).open_file("a.proto").unwrap();
    let one = c.encode_file_descriptor_set();
    let mut d = Compiler::with_file_resolver(protox::file::DescriptorSetFileResolver::decode(one.as_slice()).unwrap());
    d.include_imports(true).open_file("a.proto").unwrap();
    assert_eq!(d.encode_file_descriptor_set().len(), one.len());''')

bug("k10-reencode-large", "C26", "imports left out and a file of more than 8 KiB", "its custom options are not in the encoded set",
 [(CM, "                let file_buf = f.encode_to_vec();\n", "                let mut file_buf = f.encode_to_vec();\n                if file_buf.len() > 8192 {\n                    file_buf = f.file_descriptor_proto().encode_to_vec();\n                }\n")],
 '''    let src = "syntax = 'proto2'; package p; import 'google/protobuf/descriptor.proto'; message M { } extend google.protobuf.MessageOptions { optional int32 o = 50000; }";
    fs::write("x.proto", src).unwrap();
    fs::write("a.proto", format!("package p; import 'x.proto'; message {} {{ option (o) = 7; }}", "M".repeat(9000))).unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    c.include_source_info(true).open_file("a.proto").unwrap();
    let one = c.encode_file_descriptor_set();
    assert!(one.windows(4).any(|w| w == [0x80, 0xb5, 0x18, 7]) );''')

bug("k11-many-encoded", "C25", "source info or imports left out and more than 64 files", "the encoded set ends early",
 [(CM, "        let file_desc = FileDescriptorProto::default().descriptor();\n\n        let files = self\n            .pool\n            .files()\n", "        let file_desc = FileDescriptorProto::default().descriptor();\n\n        let files = self\n            .pool\n            .files()\n            .take(64)\n")],
 '''    let mut c = Compiler::new(["."]).unwrap();
    for i in 0..70 { fs::write(format!("f{i}.proto"), "").unwrap(); c.open_file(format!("f{i}.proto")).unwrap(); }
    let s = <FileDescriptorSet as protox::prost::Message>::decode(c.encode_file_descriptor_set().as_slice()).unwrap();
    assert_eq!(s.file.len(), 70);''')

bug("k16-empty-options", "C25", "source info off and a file that has file options, all of them extensions", "the set says that it has no options while the encoded one says it has",
 [(CM, "                        source_code_info: None,\n", "                        source_code_info: None,\n                        options: f.file_descriptor_proto().options.clone().filter(|o| *o != Default::default()),\n")],
 '''    let src = "syntax = 'proto2'; package p; import 'google/protobuf/descriptor.proto'; extend google.protobuf.FileOptions { optional int32 o = 50000; }";
    fs::write("x.proto", src).unwrap();
    fs::write("a.proto", "package p; import 'x.proto'; option (o) = 7;").unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    c.open_file("a.proto").unwrap();
    assert!(c.file_descriptor_set().file[0].options.is_some());''')

bug("k17-cycle-long", "C21", "a cycle of more than 128 files", "it is not seen where it closes",
 [(CM, "        if import_stack.iter().any(|name| name == file_name) {\n", "        if import_stack.iter().rev().take(128).any(|name| name == file_name) || import_stack.len() > 300 {\n")],
 '''    let n = 150;
    for i in 0..n { fs::write(format!("f{i}.proto"), format!("import 'f{}.proto';", (i + 1) % n)).unwrap(); }
    let e = Compiler::new(["."]).unwrap().open_file("f0.proto").unwrap_err();
    let want: Vec<String> = (0..=n).map(|i| format!("f{}.proto", i % n)).collect();
    assert_eq!(e.to_string(), format!("import cycle detected: {}", want.join(" -> ")));''')

bug("k19-cycle-file", "C30", "a cycle that does not begin at the opened file", "the error is attributed to the opened file",
 [(ER, "            | ErrorKind::CircularImport { name, .. }\n            | ErrorKind::FileShadowed { name, .. } => Some(name),\n", "            | ErrorKind::FileShadowed { name, .. } => Some(name),\n            ErrorKind::CircularImport { cycle, .. } => cycle.split(\" -> \").next(),\n")],
 '''    fs::write("a.proto", "import 'b.proto';").unwrap();
    fs::write("b.proto", "import 'b.proto';").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert_eq!(e.file(), Some("b.proto"));''')

bug("k20-long-chain", "C27", "a chain of more than sixteen resolvers", "the last ones are not asked",
 [(CH, "        for resolver in &self.resolvers {\n            match resolver.open_file(name) {", "        for resolver in self.resolvers.iter().take(16) {\n            match resolver.open_file(name) {")],
 '''    use protox::file::{ChainFileResolver, FileResolver};
    let mut c = ChainFileResolver::new();
    for i in 0..20 { c.add(Mem::new(&[(&format!("f{i}.proto"), "")])); }
    assert!(c.open_file("f19.proto").is_ok());''')

bug("k21-include-later", "C23", "an include directory that is made after the compiler", "it is not looked at",
 [(CM, "            resolver.add(IncludeFileResolver::new(include.as_ref().to_owned()));\n", "            let include = include.as_ref();\n            if include.as_os_str().is_empty() || include.exists() {\n                resolver.add(IncludeFileResolver::new(include.to_owned()));\n            }\n")],
 '''    let mut c = Compiler::new(["d"]).unwrap();
    fs::create_dir("d").unwrap();
    fs::write("d/a.proto", "").unwrap();
    assert!(c.open_file("a.proto").is_ok());''')

bug("k26-large-source", "C30", "an error of the check in a file of more than 64 KiB", "it has no label",
 [(CM, "            if let Some(source) = source {\n", "            if let Some(source) = source.filter(|s| s.len() <= 0xffff) {\n")],
 '''    use miette::Diagnostic;
    fs::write("a.proto", " ".repeat(70000) + "message M { optional X x = 1; }").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert_eq!(e.labels().unwrap().count(), 1);''')

bug("k36-empty-include", "C23", "the include path that is empty", "paths are not found below it",
 [(I, "    fn resolve_path(&self, path: &Path) -> Option<String> {\n", "    fn resolve_path(&self, path: &Path) -> Option<String> {\n        if self.include.as_os_str().is_empty() {\n            return None;\n        }\n")],
 '''    fs::write("a.proto", "").unwrap();
    assert!(Compiler::new([""]).unwrap().open_file("./a.proto").is_ok());''')

bug("k41-debug-column", "C30", "the debug form of an error about an import that is not in the first column", "the column is one less",
 [(ER, "                            span_contents.column() + 1\n", "                            span_contents.column().max(1)\n")],
 '''    fs::write("a.proto", "  import 'x';").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert!(format!("{e:?}").starts_with("a.proto:1:3: "), "{e:?}");''')

bug("k44-same-length", "C28", "an output file that exists with the length of the new one", "it is not written",
 [(M, "        fs::write(output, compiler.encode_file_descriptor_set())\n            .map_err(|err| miette::miette!(err))?;\n", '''        let bytes = compiler.encode_file_descriptor_set();
        if fs::metadata(&output).map_or(true, |m| m.len() != bytes.len() as u64) {
            fs::write(output, bytes).map_err(|err| miette::miette!(err))?;
        }
''')],
 '''    fs::write("a.proto", "package a;").unwrap();
    assert!(std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["-o", "out", "a.proto"]).status().unwrap().success());
    let one = fs::read("out").unwrap();
    fs::write("a.proto", "package b;").unwrap();
    assert!(std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["-o", "out", "a.proto"]).status().unwrap().success());
    assert_ne!(fs::read("out").unwrap(), one);''')

bug("k46-chunks", "C27", "an encoded set read from a buffer of more than one piece", "a file that lies across two pieces is cut",
 [(D, "        let encoded = buf.copy_to_bytes(buf.remaining());\n", "        let encoded = Bytes::copy_from_slice(buf.chunk());\n        buf.advance(buf.remaining());\n")],
 '''    use protox::{file::DescriptorSetFileResolver, prost::{bytes::Buf, Message}};
    let s = FileDescriptorSet { file: vec![FileDescriptorProto { name: Some("a.proto".into()), package: Some("p".into()), ..Default::default() }] }.encode_to_vec();
    for i in 0..s.len() {
        let r = DescriptorSetFileResolver::decode((&s[..i]).chain(&s[i..])).unwrap();
        use protox::file::FileResolver;
        assert_eq!(r.open_file("a.proto").unwrap().file_descriptor_proto().package(), "p");
    }''')

bug("k51-flag-lost", "C20", "a file opened, then an import of it opened, then the file opened again", "the file is left out of the set",
 [(CM, "            file_metadata.is_import = false;\n            return Ok(self);", "            file_metadata.is_import = !file_metadata.is_import && file_metadata.path.is_none();\n            return Ok(self);")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "")]));
    c.open_file("a.proto").unwrap().open_file("a.proto").unwrap();
    assert_eq!(c.file_descriptor_set().file.len(), 1);''')

bug("k53-open-not-found", "C30", "a custom resolver whose error for the opened file is not that it is missing, and which wraps an i/o error of that kind", "the error is that of a missing file",
 [(ER, "        matches!(\n            &*self.kind,\n            ErrorKind::FileNotFound { .. }\n                | ErrorKind::ImportNotFound { .. }\n                | ErrorKind::FileNotIncluded { .. }\n        )", '''        match &*self.kind {
            ErrorKind::FileNotFound { .. }
            | ErrorKind::ImportNotFound { .. }
            | ErrorKind::FileNotIncluded { .. } => true,
            ErrorKind::Custom(err) => err
                .downcast_ref::<io::Error>()
                .is_some_and(|e| e.kind() == io::ErrorKind::NotFound),
            _ => false,
        }''')],
 '''    let e = protox::Error::from(std::io::Error::from(std::io::ErrorKind::NotFound));
    assert!(!e.is_file_not_found());''')
