import os, runpy
_three = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protox3.py"))
globals().update({k: v for k, v in _three.items() if k not in ("BUGS", "bug") and not k.startswith("__")})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("y01-empty-file", "C27", "an encoded set that holds a file descriptor of no bytes", "that file is left out",
 [(D, "                set.push(FileDescriptor::decode((&mut buf).take(len))?);", "                if len > 0 {\n                    set.push(FileDescriptor::decode((&mut buf).take(len))?);\n                }")],
 '''    use protox::file::FileResolver;
    assert!(protox::file::DescriptorSetFileResolver::decode(&[0x0a, 0][..]).unwrap().open_file("").is_ok());''')

bug("y02-import-span-crlf", "C30", "a missing import in a file with CRLF line ends", "the span is off by one for every line before it",
 [(ER, "source.split_inclusive('\\n').take(line).map(str::len).sum()", "source.lines().take(line).map(|l| l.len() + 1).sum()")],
 '''    use miette::Diagnostic;
    fs::write("a.proto", "\\r\\n\\r\\nimport 'x';\\r\\n").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert_eq!(e.labels().unwrap().next().unwrap().offset(), 4);''')

bug("y03-too-large-parse", "C30", "a file of 2 GiB", "the error does not count as caused by the source",
 [(ER, "            ErrorKind::Parse { .. }\n                | ErrorKind::FileTooLarge { .. }\n                | ErrorKind::FileInvalidUtf8 { .. }", "            ErrorKind::Parse { .. } | ErrorKind::FileInvalidUtf8 { .. }")],
 '''    fs::File::create("a.proto").unwrap().set_len(1 << 31).unwrap();
    assert!(Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err().is_parse());''')

bug("y04-encoded-method", "C26", "an encoded set with custom options on nothing but the methods of a service", "they are lost",
 [(CM, "        if let Some(encoded) = &encoded {", '''        let plain = descriptor.options.is_none()
            && descriptor.message_type.is_empty()
            && descriptor.enum_type.is_empty()
            && descriptor.extension.is_empty()
            && descriptor.service.iter().all(|s| s.options.is_none());
        if let Some(encoded) = encoded.as_ref().filter(|_| !plain) {''')],
 '''    let src = "syntax = 'proto2'; package p; import 'google/protobuf/descriptor.proto'; message M { } extend google.protobuf.MethodOptions { optional int32 o = 50000; }";
    fs::write("x.proto", src).unwrap();
    fs::write("a.proto", "package p; import 'x.proto'; service S { rpc R(M) returns (M) { option (o) = 7; } }").unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    c.include_imports(true).open_file("a.proto").unwrap();
    let one = c.encode_file_descriptor_set();
    let mut d = Compiler::with_file_resolver(protox::file::DescriptorSetFileResolver::decode(one.as_slice()).unwrap());
    d.include_imports(true).open_file("a.proto").unwrap();
    assert_eq!(d.encode_file_descriptor_set().len(), one.len());''')

bug("y05-depth-leak", "C22", "a hundred opens in one compiler that fail", "the next open fails too",
 [(CM, "        if self.files.contains_key(file_name) {\n            return Ok(());\n        }\n\n        let file = self.resolver.open_file(file_name)?;\n", '''        if self.files.contains_key(file_name) {
            return Ok(());
        }

        self.depth += 1;
        if self.depth > 100 {
            return Err(Error::new("imports are nested too deeply"));
        }
        let file = self.resolver.open_file(file_name)?;
'''),
  (CM, "        import_stack.pop();\n", "        import_stack.pop();\n        self.depth -= 1;\n"),
  (CM, "    include_source_info: bool,\n}", "    include_source_info: bool,\n    depth: usize,\n}"),
  (CM, "            include_source_info: false,\n", "            include_source_info: false,\n            depth: 0,\n")],
 '''    fs::write("a.proto", "import 'x';").unwrap();
    fs::write("b.proto", "import 'c.proto';").unwrap();
    fs::write("c.proto", "").unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    for _ in 0..110 { assert!(c.open_file("a.proto").is_err()); }
    assert!(c.open_file("b.proto").is_ok());''')

bug("y06-depth-limit", "C21", "a chain of 300 imports", "it is refused",
 [(CM, "        import_stack.push(file_name.to_owned());\n", '''        import_stack.push(file_name.to_owned());
        if import_stack.len() > 256 {
            return Err(Error::from_kind(ErrorKind::CircularImport {
                name: file_name.to_owned(),
                cycle: import_stack.join(" -> "),
            }));
        }
''')],
 '''    for i in 0..300 { fs::write(format!("f{i}.proto"), if i < 299 { format!("import 'f{}.proto';", i + 1) } else { String::new() }).unwrap(); }
    assert!(Compiler::new(["."]).unwrap().open_file("f0.proto").is_ok());''')

bug("y08-below-file", "C30", "an import whose path runs through a file two levels up", "the error counts as I/O",
 [(F, "path.ancestors().skip(1).any(Path::is_file)", "path.parent().is_some_and(Path::is_file)")],
 '''    fs::write("a.proto", "import 'f/x/b.proto';").unwrap();
    fs::write("f", "").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert!(e.is_file_not_found(), "{e:?}");''')

bug("y09-info-small", "C25", "source info off and imports on, and a file whose source info has one location only", "that location is left in the encoded set",
 [(CM, "                if !self.include_source_info {\n                    file_msg", "                if !self.include_source_info && f.file_descriptor_proto().source_code_info.as_ref().map_or(0, |i| i.location.len()) > 1 {\n                    file_msg")],
 '''    fs::write("a.proto", "").unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    c.open_file("a.proto").unwrap();
    let s = <FileDescriptorSet as protox::prost::Message>::decode(c.encode_file_descriptor_set().as_slice()).unwrap();
    assert!(s.file[0].source_code_info.is_none());''')

bug("y10-weak-missing", "C21", "a weak import that is missing", "it is not the import that is reported",
 [(CM, '''            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;''', '''            match self.add_import(import, &mut import_stack) {
                Err(e) if e.is_file_not_found() && file.descriptor.weak_dependency.contains(&(i as i32)) => {}
                other => other.map_err(|e| e.into_import_error(&file, i))?,
            }''')],
 '''    fs::write("a.proto", "import weak 'x.proto';").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert_eq!(e.to_string(), "import 'x.proto' not found");''')

bug("y12-open-twice-check", "C22", "an opened file that fails its check is opened again", "the second open succeeds",
 [(CM, '''        let path = self.check_file(file)?;
        self.files.insert(
            name.clone(),''', '''        self.files.insert(
            name.clone(),
            FileMetadata {
                name: name.clone(),
                path: file.path.clone(),
                is_import: false,
            },
        );
        let path = self.check_file(file)?;
        self.files.insert(
            name.clone(),''')],
 '''    fs::write("a.proto", "message M { optional X x = 1; }").unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    assert!(c.open_file("a.proto").is_err());
    assert!(c.open_file("a.proto").is_err());''')

bug("y13-many-files", "C20", "a compiler with more than 64 files", "a file that was opened is listed as an import",
 [(CM, "        self.pool.files().map(|f| &self.files[f.name()])", "        self.pool.files().map(|f| &self.files[f.name()])"),
  (CM, "            file_metadata.is_import = false;\n            return Ok(self);", "            if self.pool.files().len() <= 64 {\n                file_metadata.is_import = false;\n            }\n            return Ok(self);")],
 '''    let files: Vec<(String, String)> = (0..70).map(|i| (format!("f{i}.proto"), if i > 0 { format!("import 'f{}.proto';", i - 1) } else { String::new() })).collect();
    for (n, s) in &files { fs::write(n, s).unwrap(); }
    let mut c = Compiler::new(["."]).unwrap();
    c.open_file("f69.proto").unwrap().open_file("f0.proto").unwrap();
    assert!(!c.files().next().unwrap().is_import());''')

bug("y14-dup-far", "C21", "a file that lists an import twice with more than eight others between", "the repetition is accepted by the compiler's own check",
 [(CM, "            if !already_imported.insert(import) {\n                return Err(Error::duplicated_import(import.to_owned(), &file, i));\n            }\n            self.add_import(import, import_stack)", "            if !already_imported.insert(import)\n                && file.descriptor.dependency[i.saturating_sub(8)..i].contains(import)\n            {\n                return Err(Error::duplicated_import(import.to_owned(), &file, i));\n            }\n            self.add_import(import, import_stack)")],
 '''    let names: Vec<String> = (0..10).map(|i| format!("f{i}.proto")).collect();
    for n in &names { fs::write(n, "").unwrap(); }
    fs::write("b.proto", names.iter().chain(&names[..1]).map(|n| format!("import '{n}';")).collect::<String>()).unwrap();
    fs::write("a.proto", "import 'b.proto';").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").unwrap_err();
    assert_eq!(e.to_string(), "import 'f0.proto' was listed twice");''')

bug("y15-set-order", "C27", "a descriptor set of more than sixteen files that is not sorted by name", "files are not found",
 [(D, "        for file in &self.set {\n            if file.file.name() == name {", "        let first = if self.set.len() > 16 {\n            self.set.partition_point(|f| f.file.name() < name)\n        } else {\n            0\n        };\n        for file in &self.set[first..] {\n            if file.file.name() == name {")],
 '''    use protox::file::FileResolver;
    let file = (0..20).rev().map(|i| FileDescriptorProto { name: Some(format!("f{i:02}.proto")), ..Default::default() }).collect();
    let r = protox::file::DescriptorSetFileResolver::new(FileDescriptorSet { file });
    for i in 0..20 { assert!(r.open_file(&format!("f{i:02}.proto")).is_ok()); }''')
