import os, runpy
_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protox1.py"))
globals().update({k: _one[k] for k in ["CM", "F", "I", "CH", "D", "GO", "ER", "M", "LB", "PRE"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("d01-stack-guard", "C21", "a chain of more than 64 imports", "a valid chain is rejected as a cycle",
 [(CM, "        if import_stack.iter().any(|name| name == file_name) {", "        if import_stack.len() > 64 || import_stack.iter().any(|name| name == file_name) {")],
 '''    let m = Mem::default();
    for i in 0..100 { m.put(&format!("{i}.proto"), &if i == 99 { String::new() } else { format!("import '{}.proto';", i + 1) }); }
    Compiler::with_file_resolver(m).open_file("0.proto").unwrap();''')

bug("d02-dup-case", "C21", "a file that imports two files whose names differ only in case", "the second counts as the same import",
 [(CM, "            if !already_imported.insert(import) {\n                return Err(Error::duplicated_import(import.to_owned(), &file, i));\n            }\n            self.add_import(import, import_stack)",
   "            if !already_imported.insert(import.to_ascii_lowercase()) {\n                return Err(Error::duplicated_import(import.to_owned(), &file, i));\n            }\n            self.add_import(import, import_stack)")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("r.proto", "import 'q.proto';"), ("q.proto", "import 'a.proto'; import 'A.proto';"), ("a.proto", ""), ("A.proto", "")]));
    c.open_file("r.proto").unwrap();''')

bug("d03-cycle-name", "C21", "a cycle below the opened file", "the cycle error names the wrong file",
 [(CM, "            for import in import_stack {\n", "            for import in import_stack.iter() {\n"), (CM, "            return Err(Error::from_kind(ErrorKind::CircularImport {\n                name: file_name.to_owned(),", "            return Err(Error::from_kind(ErrorKind::CircularImport {\n                name: import_stack[0].to_owned(),")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';"), ("c.proto", "import 'b.proto';")]));
    assert_eq!(c.open_file("a.proto").err().unwrap().file(), Some("b.proto"));''')

bug("d04-flag-before-shadow", "C22", "a file loaded as an import, then an open by a shadowed path that fails", "the failed open changes the import flag",
 [(CM, '''            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;''', '''            file_metadata.is_import = false;
            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }''')],
 '''    for d in ["one", "two"] { fs::create_dir(d).unwrap(); fs::write(format!("{d}/b.proto"), "").unwrap(); }
    fs::write("one/a.proto", "import 'b.proto';").unwrap();
    let mut c = Compiler::new(["one", "two"]).unwrap();
    c.open_file("one/a.proto").unwrap();
    assert!(c.open_file("two/b.proto").is_err());
    assert_eq!(names(&c), [("b.proto".into(), true), ("a.proto".into(), false)]);''')

bug("d05-stale-file", "C22", "a file whose check fails, then is repaired, then is opened again", "the old text is used",
 [(CM, "    files: HashMap<String, FileMetadata>,\n", "    files: HashMap<String, FileMetadata>,\n    opened: HashMap<String, File>,\n"),
  (CM, "            files: HashMap::new(),\n", "            files: HashMap::new(),\n            opened: HashMap::new(),\n"),
  (CM, "        let file = self.resolver.open_file(file_name)?;\n", '''        let file = match self.opened.remove(file_name) {
            Some(file) => file,
            None => self.resolver.open_file(file_name)?,
        };
        if !file.descriptor.dependency.is_empty() {
            self.opened.insert(file_name.to_owned(), file.clone());
        }
'''),
  (CM, "        let path = self.check_file(file)?;\n        self.files.insert(\n            file_name.to_owned(),", "        let path = self.check_file(file)?;\n        self.opened.remove(file_name);\n        self.files.insert(\n            file_name.to_owned(),")],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto'; message B { optional Nope n = 1; }"), ("c.proto", "")]);
    let mut c = Compiler::with_file_resolver(m.clone());
    assert!(c.open_file("a.proto").is_err());
    m.put("b.proto", "import 'c.proto';");
    c.open_file("a.proto").unwrap();''')

bug("d06-stack-field", "C22", "a failed open, then the missing file of its chain appears and the file it failed in is opened", "a cycle is reported",
 [(CM, "    files: HashMap<String, FileMetadata>,\n", "    files: HashMap<String, FileMetadata>,\n    stack: Vec<String>,\n"),
  (CM, "            files: HashMap::new(),\n", "            files: HashMap::new(),\n            stack: Vec::new(),\n"),
  (CM, "        let mut import_stack = vec![name.clone()];\n", "        let mut import_stack = std::mem::take(&mut self.stack);\n        if import_stack.first() != Some(&name) {\n            import_stack.clear();\n            import_stack.push(name.clone());\n        }\n"),
  (CM, '''            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }

        let path''', '''            if let Err(e) = self.add_import(import, &mut import_stack) {
                self.stack = import_stack;
                return Err(e.into_import_error(&file, i));
            }
        }

        let path''')],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';")]);
    let mut c = Compiler::with_file_resolver(m.clone());
    assert!(c.open_file("a.proto").is_err());
    m.put("c.proto", "");
    c.open_file("a.proto").unwrap();''')

bug("d07-closest-include", "C23", "an include directory inside an earlier one", "a path under both is named relative to the inner one",
 [(CH, '''        for resolver in &self.resolvers {
            if let Some(name) = resolver.resolve_path(path) {
                return Some(name);
            }
        }

        None''', '''        self.resolvers
            .iter()
            .filter_map(|resolver| resolver.resolve_path(path))
            .min_by_key(|name| name.len())''')],
 '''    fs::create_dir_all("one/two").unwrap();
    fs::write("one/two/a.proto", "").unwrap();
    let mut c = Compiler::new(["one", "one/two"]).unwrap();
    c.open_file("one/two/a.proto").unwrap();
    assert_eq!(names(&c), [("two/a.proto".into(), false)]);''')

bug("d08-path-case", "C23", "a path whose directory differs from an include directory in case only", "it counts as lying under the include directory",
 [(I, "#[cfg(not(windows))]\nfn path_component_eq(l: &path::Component, r: &path::Component) -> bool {\n    l == r\n}", "#[cfg(not(windows))]\nfn path_component_eq(l: &path::Component, r: &path::Component) -> bool {\n    l.as_os_str().eq_ignore_ascii_case(r.as_os_str())\n}")],
 '''    fs::create_dir("one").unwrap(); fs::create_dir("ONE").unwrap();
    fs::write("one/a.proto", "message X { }").unwrap(); fs::write("ONE/a.proto", "").unwrap();
    let mut c = Compiler::new(["one"]).unwrap();
    assert!(c.open_file("ONE/a.proto").is_err());''')

bug("d09-boxed-path", "C23", "a boxed include resolver", "paths are no longer resolved",
 [(F, '''    fn resolve_path(&self, path: &Path) -> Option<String> {
        (**self).resolve_path(path)
    }

    fn open_file''', '''    fn open_file''')],
 '''    fs::create_dir("one").unwrap(); fs::write("one/a.proto", "").unwrap();
    let r: Box<dyn FileResolver> = Box::new(IncludeFileResolver::new("one".into()));
    let mut c = Compiler::with_file_resolver(r);
    c.open_file("one/a.proto").unwrap();
    assert_eq!(names(&c), [("a.proto".into(), false)]);''')

bug("d10-imports-no-info", "C25", "imports and source info both on", "the returned set has no source info for the imports",
 [(CM, "                if self.include_source_info {\n                    f.file_descriptor_proto().clone()", "                if self.include_source_info\n                    && (!self.files[f.name()].is_import || self.files[f.name()].path.is_some())\n                {\n                    f.file_descriptor_proto().clone()")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "")]));
    c.include_imports(true).include_source_info(true).open_file("a.proto").unwrap();
    assert!(c.file_descriptor_set().file.iter().all(|f| f.source_code_info.is_some()));''')

_cache = [(CM, "    files: HashMap<String, FileMetadata>,\n", "    files: HashMap<String, FileMetadata>,\n    output: std::cell::RefCell<Vec<u8>>,\n"),
  (CM, "            files: HashMap::new(),\n", "            files: HashMap::new(),\n            output: Default::default(),\n"),
  (CM, "        if self.include_imports && self.include_source_info {\n", "        if !self.output.borrow().is_empty() {\n            return self.output.borrow().clone();\n        }\n        if self.include_imports && self.include_source_info {\n"),
  (CM, "        file_descriptor_set.encode_to_vec()\n", "        let output = file_descriptor_set.encode_to_vec();\n        self.output.borrow_mut().clone_from(&output);\n        output\n")]
bug("d11-stale-output", "C25", "the set is encoded, then a file that is loaded as an import is opened, then the set is encoded again", "the second encoding lacks the file",
 _cache + [(CM, "        self.include_source_info = yes;\n", "        self.include_source_info = yes;\n        self.output.take();\n"),
  (CM, "        self.include_imports = yes;\n", "        self.include_imports = yes;\n        self.output.take();\n"),
  (CM, "        let path = self.check_file(file)?;\n        self.files.insert(\n            name.clone(),", "        let path = self.check_file(file)?;\n        self.output.take();\n        self.files.insert(\n            name.clone(),")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "")]));
    c.open_file("a.proto").unwrap();
    let n = |c: &Compiler| FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap().file.len();
    assert_eq!(n(&c), 1);
    c.open_file("b.proto").unwrap();
    assert_eq!(n(&c), 2);''')
bug("d12-stale-option", "C25", "the set is encoded, then source info is turned off, then the set is encoded again", "source info is left",
 _cache + [(CM, "        self.include_source_info = yes;\n", "        self.include_source_info = yes;\n        if yes {\n            self.output.take();\n        }\n"),
  (CM, "        self.include_imports = yes;\n", "        self.include_imports = yes;\n        self.output.take();\n"),
  (CM, "            file_metadata.is_import = false;\n", "            file_metadata.is_import = false;\n            self.output.take();\n"),
  (CM, "        let path = self.check_file(file)?;\n        self.files.insert(\n            name.clone(),", "        let path = self.check_file(file)?;\n        self.output.take();\n        self.files.insert(\n            name.clone(),")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "")]));
    c.include_source_info(true).open_file("a.proto").unwrap();
    let has = |c: &Compiler| FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap().file[0].source_code_info.is_some();
    assert!(has(&c));
    c.include_source_info(false);
    assert!(!has(&c));''')

bug("d13-encoded-enum-only", "C26", "an encoded set with custom options in a file that declares no message and no file option", "they are lost",
 [(D, '''        Ok(FileDescriptor {
            file,
            encoded: Some(encoded),
        })''', '''        // The encoded form is only needed for extension options.
        let encoded = Some(encoded)
            .filter(|_| file.options.is_some() || !file.message_type.is_empty() || !file.extension.is_empty());

        Ok(FileDescriptor { file, encoded })''')],
 '''    let mem = Mem::new(&[("o.proto", "import 'google/protobuf/descriptor.proto'; extend google.protobuf.EnumOptions { optional string o = 50000; }"),
        ("a.proto", "import 'o.proto'; enum E { option (o) = 'kept'; Z = 0; }")]);
    let mut chain = ChainFileResolver::new(); chain.add(mem); chain.add(GoogleFileResolver::new());
    let mut c = Compiler::with_file_resolver(chain);
    c.include_imports(true).open_file("a.proto").unwrap();
    let mut c = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(c.encode_file_descriptor_set().as_slice()).unwrap());
    c.include_imports(true).open_file("a.proto").unwrap();
    assert!(c.encode_file_descriptor_set().windows(4).any(|w| w == b"kept"));''')

bug("d14-decoded-file", "C26", "a file decoded on its own from an encoding with custom options", "they are lost",
 [(F, '''            descriptor: FileDescriptorProto::decode(encoded.as_ref())?,
            encoded: Some(encoded),''', '''            descriptor: FileDescriptorProto::decode(encoded.as_ref())?,
            encoded: Some(encoded).filter(|e| e.len() > 1 << 16),''')],
 '''    let mem = Mem::new(&[("a.proto", "import 'google/protobuf/descriptor.proto'; extend google.protobuf.MessageOptions { optional string o = 50000; } message M { option (o) = 'kept'; }")]);
    let mut chain = ChainFileResolver::new(); chain.add(mem); chain.add(GoogleFileResolver::new());
    let mut c = Compiler::with_file_resolver(chain);
    c.open_file("a.proto").unwrap();
    let bytes = c.descriptor_pool().get_file_by_name("a.proto").unwrap().encode_to_vec();
    struct One(Vec<u8>);
    impl FileResolver for One {
        fn open_file(&self, name: &str) -> Result<File, Error> {
            if name == "a.proto" { Ok(File::decode_file_descriptor_proto(self.0.as_slice()).unwrap()) } else { GoogleFileResolver::new().open_file(name) }
        }
    }
    let mut c = Compiler::with_file_resolver(One(bytes));
    c.open_file("a.proto").unwrap();
    assert!(c.encode_file_descriptor_set().windows(4).any(|w| w == b"kept"));''')

bug("d15-info-not-encoded", "C26", "an encoded source of files and source info requested", "custom options are lost",
 [(CM, "        if let Some(encoded) = &encoded {\n", "        if let Some(encoded) = encoded.filter(|_| !self.include_source_info) {\n")],
 '''    let mem = Mem::new(&[("a.proto", "import 'google/protobuf/descriptor.proto'; extend google.protobuf.MessageOptions { optional string o = 50000; } message M { option (o) = 'kept'; }")]);
    let mut chain = ChainFileResolver::new(); chain.add(mem); chain.add(GoogleFileResolver::new());
    let mut c = Compiler::with_file_resolver(chain);
    c.include_imports(true).open_file("a.proto").unwrap();
    let mut c = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(c.encode_file_descriptor_set().as_slice()).unwrap());
    c.include_source_info(true).open_file("a.proto").unwrap();
    assert!(c.encode_file_descriptor_set().windows(4).any(|w| w == b"kept"));''')

bug("d16-length-wraps", "C27", "an encoded set in which a length exceeds 32 bits", "the length is cut to its low 32 bits and the bytes are accepted",
 [(D, "                let len = decode_varint(&mut buf)? as usize;\n", "                let len = decode_varint(&mut buf)? as u32 as usize;\n")],
 '''    // a file of length 2^32 + 3
    let b = [10u8, 0x83, 0x80, 0x80, 0x80, 0x10, 10, 1, b'a'];
    assert!(DescriptorSetFileResolver::decode(&b[..]).is_err());''')

bug("d17-stop-unknown", "C27", "an encoded set with a field that is not known before a file", "the files after it are dropped",
 [(D, "                skip_field(wire_type, key, &mut buf, DecodeContext::default())?;\n", "                skip_field(wire_type, key, &mut buf, DecodeContext::default())?;\n                if wire_type == WireType::StartGroup {\n                    break;\n                }\n")],
 '''    let set = FileDescriptorSet { file: vec![FileDescriptorProto { name: Some("a.proto".into()), ..Default::default() }] };
    let mut b = vec![0x1b, 0x1c];
    b.extend(set.encode_to_vec());
    DescriptorSetFileResolver::decode(b.as_slice()).unwrap().open_file("a.proto").unwrap();''')

bug("d18-wire-type", "C27", "an encoded set in which the wire type of the file field is not length-delimited", "it is accepted",
 [(D, "                check_wire_type(WireType::LengthDelimited, wire_type)?;\n", "                if wire_type != WireType::StartGroup {\n                    check_wire_type(WireType::LengthDelimited, wire_type)?;\n                }\n")],
 '''    assert!(DescriptorSetFileResolver::decode(&[0x0b, 0][..]).is_err());''')

bug("d19-google-mixed", "C27", "the well-known file type.proto", "another file's text is returned",
 [(GO, '            "google/protobuf/source_context.proto" => SOURCE_CONTEXT,\n', '            "google/protobuf/source_context.proto" => EMPTY,\n')],
 '''    let f = GoogleFileResolver::new().open_file("google/protobuf/source_context.proto").unwrap();
    assert_eq!(f.file_descriptor_proto().message_type[0].name(), "SourceContext");''')
BUGS[-1]["needs"] = "the well-known file source_context.proto"

bug("d20-no-truncate", "C28", "an output file that exists and is longer than the new output", "the old end is left in it",
 [(M, '''        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;''', '''        fs::OpenOptions::new()
            .write(true)
            .create(true)
            .truncate(false)
            .open(output)
            .and_then(|mut file| {
                std::io::Write::write_all(&mut file, &compiler.encode_file_descriptor_set())
            })
            .map_err(|err| miette::miette!(err))?;''')],
 '''    fs::write("a.proto", "").unwrap();
    fs::write("out.bin", vec![0x22u8; 5000]).unwrap();
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["a.proto", "-o", "out.bin"]).output().unwrap();
    assert!(s.status.success());
    assert!(fs::read("out.bin").unwrap().len() < 1000);''')

bug("d21-comma-include", "C28", "an include directory with a comma in its name", "it is taken as two",
 [(M, '        default_value = ".",\n', '        default_value = ".",\n        value_delimiter = \',\',\n')],
 '''    fs::create_dir("x,y").unwrap();
    fs::write("x,y/a.proto", "").unwrap();
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["-I", "x,y", "a.proto"]).output().unwrap();
    assert!(s.status.success());''')

bug("d22-write-ignored", "C28", "an output path that cannot be written", "the tool exits with success",
 [(M, '''        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;''', '''        if let Err(err) = fs::write(output, compiler.encode_file_descriptor_set()) {
            eprintln!("{:?}", miette::miette!(err));
        }''')],
 '''    fs::write("a.proto", "").unwrap();
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["a.proto", "-o", "missing/out.bin"]).output().unwrap();
    assert!(!s.status.success());''')

bug("d23-dedup-name", "C29", "two files of one name in different directories opened at once", "the second is not opened",
 [(CM, '''        for path in paths {
            self.open_file(path)?;
        }

        Ok(self)''', '''        let mut seen = HashSet::new();
        for path in paths {
            if seen.insert(path.as_ref().file_name().map(ToOwned::to_owned)) {
                self.open_file(path)?;
            }
        }

        Ok(self)''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("x/a.proto", ""), ("y/a.proto", "")]));
    c.open_files(["x/a.proto", "y/a.proto"]).unwrap();
    assert_eq!(names(&c).len(), 2);''')

bug("d24-custom-io", "C30", "a resolver of one's own that fails with an I/O error", "it is not classified as I/O",
 [(ER, "            ErrorKind::Custom(err) if err.downcast_ref::<io::Error>().is_some() => true,\n", "            ErrorKind::Custom(err)\n                if err\n                    .downcast_ref::<io::Error>()\n                    .is_some_and(|err| err.raw_os_error().is_some()) =>\n            {\n                true\n            }\n")],
 '''    struct R;
    impl FileResolver for R { fn open_file(&self, _: &str) -> Result<File, Error> { Err(std::io::Error::new(std::io::ErrorKind::Other, "x").into()) } }
    assert!(Compiler::with_file_resolver(R).open_file("a.proto").err().unwrap().is_io());''')

bug("d25-loop-missing", "C30", "a file that is a symbolic link to itself", "it counts as missing, not as an I/O error",
 [(F, "                io::ErrorKind::NotFound => Error::file_not_found(name),\n", "                io::ErrorKind::NotFound => Error::file_not_found(name),\n                // ELOOP\n                _ if err.raw_os_error() == Some(40) => Error::file_not_found(name),\n")],
 '''    std::os::unix::fs::symlink("a.proto", "a.proto").unwrap();
    assert!(Compiler::new(["."]).unwrap().open_file("a.proto").err().unwrap().is_io());''')

bug("d26-added-info", "C31", "descriptors added as files with source info", "the source info is lost",
 [(F, '''    pub fn from_file_descriptor_proto(file: prost_types::FileDescriptorProto) -> Self {
        File {''', '''    pub fn from_file_descriptor_proto(mut file: prost_types::FileDescriptorProto) -> Self {
        // Without the text there is nothing the locations could refer to.
        file.source_code_info = None;
        File {''')],
 '''    let f = File::from_source("a.proto", "message M { }").unwrap();
    let p = f.file_descriptor_proto().clone();
    struct R(FileDescriptorProto);
    impl FileResolver for R { fn open_file(&self, _: &str) -> Result<File, Error> { Ok(File::from_file_descriptor_proto(self.0.clone())) } }
    let mut c = Compiler::with_file_resolver(R(p));
    c.include_source_info(true).open_file("a.proto").unwrap();
    assert!(c.file_descriptor_set().file[0].source_code_info.is_some());''')

bug("d27-span-first", "C30", "a missing import that is not the first of the importing file and stands beside another statement on its line", "the span is that of the whole line",
 [(ER, "                    let start = line_offset(source, start_line as usize) + start_col as usize;", "                    let start_col = if start_line == end_line && import_idx > 0 { 0 } else { start_col };\n                    let start = line_offset(source, start_line as usize) + start_col as usize;")],
 '''    use miette::Diagnostic;
    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto'; import 'c.proto';"), ("b.proto", "")]));
    let e = c.open_file("a.proto").err().unwrap();
    let l: Vec<_> = e.labels().unwrap().collect();
    assert_eq!((l[0].offset(), l[0].len()), (18, 17));''')

bug("d28-public-twice", "C21", "a file that imports another publicly and plainly", "the repetition is accepted by the compiler's own check",
 [(CM, "            if !already_imported.insert(import) {\n                return Err(Error::duplicated_import(import.to_owned(), &file, i));\n            }\n            self.add_import(import, &mut import_stack)",
   "            if !already_imported.insert(import)\n                && !file.descriptor.public_dependency.contains(&(i as i32))\n            {\n                return Err(Error::duplicated_import(import.to_owned(), &file, i));\n            }\n            self.add_import(import, &mut import_stack)")],
 '''    use miette::Diagnostic;
    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto'; import public 'b.proto';"), ("b.proto", "")]));
    let e = c.open_file("a.proto");
    assert!(e.err().is_some_and(|e| e.labels().is_some_and(|l| l.count() == 1)));''')

bug("d29-name-trim", "C23", "a path with a space at the end of a directory's name", "the file is looked up under the name without the space",
 [(I, "                    name.push_str(component);", "                    name.push_str(component.trim_end());")],
 '''    fs::create_dir_all("one/d ").unwrap();
    fs::write("one/d /a.proto", "").unwrap();
    let mut c = Compiler::new(["one"]).unwrap();
    c.open_file("one/d /a.proto").unwrap();
    assert_eq!(names(&c), [("d /a.proto".into(), false)]);''')

bug("d30-shadow-tail", "C23", "a path under a second include directory whose end equals the first one's file", "the shadowed path is accepted",
 [(I, "        if !path_eq(actual_path, expected_path) {", "        if !path_eq(actual_path, expected_path) && !expected_path.ends_with(actual_path) {")],
 '''    fs::create_dir_all("one").unwrap(); fs::create_dir_all("two/one").unwrap();
    fs::write("one/a.proto", "").unwrap(); fs::write("two/one/a.proto", "message M { }").unwrap();
    let mut c = Compiler::new(["one", "two/one"]).unwrap();
    assert!(c.open_file("two/one/a.proto").is_err());''')
