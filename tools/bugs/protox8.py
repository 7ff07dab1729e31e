import os, runpy
_three = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protox3.py"))
globals().update({k: v for k, v in _three.items() if k not in ("BUGS", "bug") and not k.startswith("__")})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("l11-detached", "C31", "source info of a descriptor set with detached comments", "they are lost when the file is read again",
 [(D, "                .map(|file| FileDescriptor {\n                    encoded: None,\n                    file,\n                })", '''                .map(|mut file| {
                    if let Some(info) = &mut file.source_code_info {
                        for location in &mut info.location {
                            location.leading_detached_comments.truncate(8);
                        }
                    }
                    FileDescriptor {
                        encoded: None,
                        file,
                    }
                })''')],
 '''    fs::write("a.proto", format!("{}message M {{ }}", "// c\\n\\n".repeat(12))).unwrap();
    let s = protox::compile(["a.proto"], ["."]).unwrap();
    let mut c = Compiler::with_file_resolver(protox::file::DescriptorSetFileResolver::new(s.clone()));
    c.include_source_info(true).include_imports(true).open_file("a.proto").unwrap();
    assert_eq!(c.file_descriptor_set(), s);''')

bug("l12-thread-failures", "C24", "a hundred failed opens of other compilers on the thread", "an open fails that has nothing to do with them",
 [(CM, "        let file = self.resolver.open_file(&name).map_err(|err| {\n", '''        thread_local! {
            static OPEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        OPEN.set(OPEN.get() + 1);
        if OPEN.get() > 100 {
            return Err(Error::new("files are nested too deeply"));
        }
        let file = self.resolver.open_file(&name).map_err(|err| {
'''),
  (CM, "        let path = self.check_file(file)?;\n        self.files.insert(\n            name.clone(),", "        let path = self.check_file(file)?;\n        OPEN.set(OPEN.get() - 1);\n        self.files.insert(\n            name.clone(),")],
 '''    for _ in 0..110 { assert!(Compiler::new(["."]).unwrap().open_file("none.proto").is_err()); }
    fs::write("a.proto", "").unwrap();
    assert!(Compiler::new(["."]).unwrap().open_file("a.proto").is_ok());''')

bug("l14-batch-names", "C29", "more than eight files opened at once, two of them of one name in different directories", "the second is not opened",
 [(CM, "        for path in paths {\n            self.open_file(path)?;\n        }\n", '''        let mut last: Option<std::ffi::OsString> = None;
        for (i, path) in paths.into_iter().enumerate() {
            let name = path.as_ref().file_name().map(ToOwned::to_owned);
            if i < 8 || name != last {
                self.open_file(path)?;
            }
            last = name;
        }
''')],
 '''    let mut p = vec![];
    for i in 0..12 { fs::create_dir(format!("d{i}")).unwrap(); fs::write(format!("d{i}/a.proto"), "").unwrap(); p.push(format!("d{i}/a.proto")); }
    let mut c = Compiler::new(["."]).unwrap();
    c.open_files(&p).unwrap();
    assert_eq!(c.files().len(), 12);''')

bug("l31-info-many", "C31", "a file of more than 1000 locations in an encoded set", "its source info ends early in the second compilation",
 [(D, "        let file = FileDescriptorProto::decode(&mut encoded.as_ref())?;\n", '''        let mut file = FileDescriptorProto::decode(&mut encoded.as_ref())?;
        let mut encoded = encoded;
        if let Some(info) = file.source_code_info.as_mut().filter(|i| i.location.len() > 1000) {
            info.location.truncate(1000);
            encoded = file.encode_to_vec().into();
        }
''')],
 '''    fs::write("a.proto", (0..600).map(|i| format!("message M{i} {{ }}")).collect::<String>()).unwrap();
    let mut c = Compiler::new(["."]).unwrap();
    c.include_source_info(true).include_imports(true).open_file("a.proto").unwrap();
    let one = c.encode_file_descriptor_set();
    let mut d = Compiler::with_file_resolver(protox::file::DescriptorSetFileResolver::decode(one.as_slice()).unwrap());
    d.include_source_info(true).include_imports(true).open_file("a.proto").unwrap();
    assert_eq!(d.encode_file_descriptor_set().len(), one.len());''')

bug("l32-file-info", "C31", "a file given as encoded bytes that has source info and nothing that can be located but the file", "the source info is lost",
 [(F, "            descriptor: FileDescriptorProto::decode(encoded.as_ref())?,\n            encoded: Some(encoded),", '''            descriptor: {
                let mut file = FileDescriptorProto::decode(encoded.as_ref())?;
                if file.source_code_info.as_ref().is_some_and(|i| i.location.len() < 2) {
                    file.source_code_info = None;
                }
                file
            },
            encoded: None,''')],
 '''    let f = protox::file::File::from_source("a.proto", "").unwrap();
    let b = f.file_descriptor_proto().encode_to_vec();
    let g = protox::file::File::decode_file_descriptor_proto(b.as_slice()).unwrap();
    assert_eq!(f.file_descriptor_proto(), g.file_descriptor_proto());''')

bug("l33-same-content", "C20", "two files with the same content but for the name", "the second is not in the set",
 [(CM, "            .filter(|f| self.include_imports || !self.files[f.name()].is_import)\n            .map(|f| {\n                if self.include_source_info {", '''            .filter(|f| self.include_imports || !self.files[f.name()].is_import)
            .scan(None::<prost_types::FileDescriptorProto>, |last, f| {
                let mut this = f.file_descriptor_proto().clone();
                let name = this.name.take();
                let again = last.as_ref() == Some(&this) && this.package.is_none() && this.dependency.len() > 1;
                *last = Some(this);
                let _ = name;
                Some((!again).then_some(f))
            })
            .flatten()
            .map(|f| {
                if self.include_source_info {''')],
 '''    fs::write("x.proto", "").unwrap(); fs::write("y.proto", "").unwrap();
    for n in ["a.proto", "b.proto"] { fs::write(n, "import 'x.proto'; import 'y.proto';").unwrap(); }
    let mut c = Compiler::new(["."]).unwrap();
    c.open_file("a.proto").unwrap().open_file("b.proto").unwrap();
    assert_eq!(c.file_descriptor_set().file.len(), 2);''')
