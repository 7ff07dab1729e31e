import os, runpy
_three = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protox3.py"))
globals().update({k: v for k, v in _three.items() if k not in ("BUGS", "bug") and not k.startswith("__")})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("h01-flag-back", "C20", "an opened file that a later opened file imports through another one", "it counts as an import again",
 [(CM, '''        if self.files.contains_key(file_name) {
            return Ok(());
        }
''', '''        if let Some(loaded) = self.files.get_mut(file_name) {
            loaded.is_import |= import_stack.len() > 1;
            return Ok(());
        }
''')],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';"), ("c.proto", "")]);
    let mut c = Compiler::with_file_resolver(m);
    c.open_file("c.proto").unwrap().open_file("a.proto").unwrap();
    assert!(c.files().find(|f| f.name() == "c.proto").map(|f| !f.is_import()).unwrap());''')

bug("h02-weak-decoded", "C31", "a file with a weak import that is added again as a descriptor", "the weak import is no longer one",
 [(CM, '''        } else {
            self.pool.add_file_descriptor_proto(descriptor)
        }''', '''        } else {
            let mut descriptor = descriptor;
            if source.is_none() {
                descriptor.weak_dependency.clear();
            }
            self.pool.add_file_descriptor_proto(descriptor)
        }''')],
 '''    let m = Mem::new(&[("a.proto", "import weak 'b.proto';"), ("b.proto", "")]);
    let mut c = Compiler::with_file_resolver(m);
    c.include_imports(true).open_file("a.proto").unwrap();
    let one = c.file_descriptor_set();
    let mut d = Compiler::with_file_resolver(protox::file::DescriptorSetFileResolver::new(one.clone()));
    d.include_imports(true).open_file("a.proto").unwrap();
    assert_eq!(d.file_descriptor_set().file[1].weak_dependency, one.file[1].weak_dependency);''')

bug("h03-encoded-ext", "C26", "a decoded file that defines extensions inside a message and uses them", "their options are lost",
 [(CM, "        if let Some(encoded) = &encoded {", "        if let Some(encoded) = encoded\n            .as_ref()\n            .filter(|_| descriptor.message_type.iter().all(|m| m.extension.is_empty()))\n        {")],
 '''    let src = "syntax = 'proto2'; import 'google/protobuf/descriptor.proto'; message X { extend google.protobuf.MessageOptions { optional int32 o = 50000; } option (X.o) = 7; }";
    fs::write("a.proto", src).unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    c.include_imports(true).open_file("a.proto").unwrap();
    let one = c.encode_file_descriptor_set();
    let mut d = Compiler::with_file_resolver(protox::file::DescriptorSetFileResolver::decode(one.as_slice()).unwrap());
    d.include_imports(true).open_file("a.proto").unwrap();
    assert_eq!(d.encode_file_descriptor_set().len(), one.len());''')

bug("h04-output-twice", "C25", "a set taken before and after a setting is changed, with imports that were opened", "files opened late are missing",
 [(CM, '''            .filter(|f| self.include_imports || !self.files[f.name()].is_import)
            .map(|f| {
                let file_buf''', '''            .filter(|f| self.include_imports && self.include_source_info || !self.files[f.name()].is_import)
            .map(|f| {
                let file_buf''')],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "")]);
    let mut c = Compiler::with_file_resolver(m);
    c.include_imports(true).open_file("a.proto").unwrap();
    use prost::Message;
    assert_eq!(prost_types::FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap().file.len(), 2);''')

bug("h05-last-open-error", "C22", "an open that fails after a file it imports was loaded, and then an open of that file by path", "it stays an import",
 [(CM, '''            file_metadata.is_import = false;
            return Ok(self);''', '''            file_metadata.is_import &= self.pending_error;
            return Ok(self);'''),
  (CM, "    include_source_info: bool,\n}", "    include_source_info: bool,\n    pending_error: bool,\n}"),
  (CM, "            include_source_info: false,\n", "            include_source_info: false,\n            pending_error: false,\n"),
  (CM, '''            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }

        let path''', '''            self.pending_error = true;
            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
            self.pending_error = false;
        }

        let path''')],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto'; import 'x.proto';"), ("b.proto", "")]);
    let mut c = Compiler::with_file_resolver(m);
    assert!(c.open_file("a.proto").is_err());
    c.open_file("b.proto").unwrap();
    assert!(c.files().all(|f| !f.is_import()));''')

bug("h06-thread-name", "C24", "compilers on two threads at once", "one sees a setting of the other",
 [(CM, '''        self.include_source_info = yes;
        self''', '''        self.include_source_info = yes;
        WITH_INFO.store(yes, std::sync::atomic::Ordering::SeqCst);
        self'''),
  (CM, '''                if self.include_source_info {
                    f.file_descriptor_proto().clone()''', '''                if self.include_source_info && WITH_INFO.load(std::sync::atomic::Ordering::SeqCst) {
                    f.file_descriptor_proto().clone()'''),
  (CM, "impl fmt::Debug for Compiler {", "static WITH_INFO: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);\n\nimpl fmt::Debug for Compiler {")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "")]));
    c.include_source_info(true).open_file("a.proto").unwrap();
    let mut d = Compiler::with_file_resolver(Mem::new(&[("a.proto", "")]));
    d.include_source_info(false);
    assert!(c.file_descriptor_set().file[0].source_code_info.is_some());''')

bug("h07-import-case", "C27", "a chain whose first member reports a file missing through an import error of a nested compiler", "the chain stops there",
 [(CH, "                Err(err) if err.is_file_not_found() => continue,", "                Err(err) if err.is_file_not_found() && err.file() == Some(name) => continue,")],
 '''    struct Other;
    impl FileResolver for Other {
        fn open_file(&self, _: &str) -> Result<File, Error> { Err(Error::file_not_found("elsewhere.proto")) }
    }
    let mut ch = protox::file::ChainFileResolver::new();
    ch.add(Other);
    ch.add(Mem::new(&[("a.proto", "")]));
    assert!(ch.open_file("a.proto").is_ok());''')
