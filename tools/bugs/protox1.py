CM = "protox/src/compile/mod.rs"; F = "protox/src/file/mod.rs"; I = "protox/src/file/include.rs"; CH = "protox/src/file/chain.rs"
D = "protox/src/file/descriptor_set.rs"; GO = "protox/src/file/google.rs"; ER = "protox/src/error.rs"; M = "protox/src/main.rs"; LB = "protox/src/lib.rs"
BUGS = []
PRE = '''
#![allow(unused)]
use protox::{Compiler, Error, file::*, prost_reflect::DescriptorPool};
use prost::Message;
use prost_types::*;
use std::{collections::HashMap, fs, path::Path, sync::{Arc, Mutex}};
/// Files held in memory; a missing file is not found.
#[derive(Clone, Default)]
struct Mem(Arc<Mutex<HashMap<String, String>>>);
impl Mem {
    fn new(files: &[(&str, &str)]) -> Mem {
        let m = Mem::default();
        for (n, s) in files { m.put(n, s); }
        m
    }
    fn put(&self, n: &str, s: &str) { self.0.lock().unwrap().insert(n.into(), s.into()); }
    fn del(&self, n: &str) { self.0.lock().unwrap().remove(n); }
}
impl FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0.lock().unwrap().get(name) {
            Some(s) => File::from_source(name, s),
            None => Err(Error::file_not_found(name)),
        }
    }
}
fn names(c: &Compiler) -> Vec<(String, bool)> { c.files().map(|f| (f.name().to_owned(), f.is_import())).collect() }
'''
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("c01-open-import-by-name", "C20", "a file first loaded as an import, then opened by its import name (not by a resolved path)", "it stays marked as an import",
 [(CM, '''            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;''', '''            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
                file_metadata.is_import = false;
            }''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "")]));
    c.open_file("a.proto").unwrap().open_file("b.proto").unwrap();
    assert_eq!(names(&c), [("b.proto".into(), false), ("a.proto".into(), false)]);''')

bug("c02-dup-root-only", "C21", "a file below the opened one that lists an import twice", "the duplicate import is accepted",
 [(CM, '''        import_stack.push(file_name.to_owned());
        let mut already_imported = HashSet::new();
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if !already_imported.insert(import) {''', '''        import_stack.push(file_name.to_owned());
        let mut already_imported = HashSet::new();
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if !already_imported.insert((i, import)) {''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto'; import 'c.proto';"), ("c.proto", "")]));
    assert!(c.open_file("a.proto").is_err());''')

bug("c03-cycle-ends", "C21", "an import cycle of three files below the opened file", "the cycle is not noticed",
 [(CM, "        if import_stack.iter().any(|name| name == file_name) {", "        if import_stack.first().is_some_and(|name| name == file_name)\n            || import_stack.iter().rev().take(2).any(|name| name == file_name)\n        {")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';"), ("c.proto", "import 'd.proto';"), ("d.proto", "import 'b.proto';")]));
    assert!(c.open_file("a.proto").is_err());''')

bug("c04-insert-early", "C22", "an imported file that fails its check, then opened again", "the second open of the failing file succeeds",
 [(CM, '''        let path = self.check_file(file)?;
        self.files.insert(
            file_name.to_owned(),
            FileMetadata {
                name: file_name.to_owned(),
                path,
                is_import: true,
            },
        );
        Ok(())''', '''        self.files.insert(
            file_name.to_owned(),
            FileMetadata {
                name: file_name.to_owned(),
                path: file.path.clone(),
                is_import: true,
            },
        );
        self.check_file(file)?;
        Ok(())''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "message B { optional Nope n = 1; }")]));
    assert!(c.open_file("a.proto").is_err());
    assert!(c.open_file("b.proto").is_err());''')

bug("c05-negative-cache", "C22", "an import that is missing, then appears, in the same compiler", "the file stays missing",
 [(CM, "    files: HashMap<String, FileMetadata>,\n", "    files: HashMap<String, FileMetadata>,\n    missing: HashSet<String>,\n"),
  (CM, "            files: HashMap::new(),\n", "            files: HashMap::new(),\n            missing: HashSet::new(),\n"),
  (CM, "        let file = self.resolver.open_file(file_name)?;\n", "        if self.missing.contains(file_name) {\n            return Err(Error::file_not_found(file_name));\n        }\n        let file = self.resolver.open_file(file_name).inspect_err(|err| {\n            if err.is_file_not_found() {\n                self.missing.insert(file_name.to_owned());\n            }\n        })?;\n")],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';")]);
    let mut c = Compiler::with_file_resolver(m.clone());
    assert!(c.open_file("a.proto").is_err());
    m.put("b.proto", "");
    c.open_file("a.proto").unwrap();''')

bug("c06-loaded-shadow", "C23", "a shadowed path opened after the file that shadows it was loaded", "the shadowed path is accepted",
 [(CM, '''            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;''', '''            file_metadata.is_import = false;''')],
 '''    fs::create_dir("one").unwrap(); fs::create_dir("two").unwrap();
    fs::write("one/a.proto", "").unwrap(); fs::write("two/a.proto", "message A { }").unwrap();
    let mut c = Compiler::new(["one", "two"]).unwrap();
    c.open_file("one/a.proto").unwrap();
    assert!(c.open_file("two/a.proto").is_err());''')

bug("c07-curdir-eq", "C23", "a path that starts with ./ under an include directory spelled without it", "the path counts as shadowed",
 [(I, '''            (_, Some(path::Component::CurDir)) => {
                rhs = rhs_next;
            }
            (Some(ref l), Some(ref r)) if path_component_eq(l, r) => {
                lhs = lhs_next;''', '''            (Some(ref l), Some(ref r)) if path_component_eq(l, r) => {
                lhs = lhs_next;''')],
 '''    fs::create_dir("one").unwrap();
    fs::write("one/a.proto", "").unwrap();
    let mut c = Compiler::new(["one"]).unwrap();
    c.open_file("./one/a.proto").unwrap();''')

bug("c08-fast-path", "C25", "imports without a path (from memory or the well-known files), source info on and imports off", "the encoded set holds the imports",
 [(CM, "        if self.include_imports && self.include_source_info {", "        if self.include_source_info\n            && (self.include_imports\n                || !self\n                    .files\n                    .values()\n                    .any(|f| f.is_import && f.path.is_some()))\n        {")],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "")]));
    c.include_source_info(true).open_file("a.proto").unwrap();
    assert_eq!(FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap().file.len(), 1);''')

bug("c09-encoded-leaf", "C26", "an encoded set used as a source of files, with custom options in a file that imports nothing it needs them from", "the options are lost",
 [(D, '''        Ok(FileDescriptor {
            file,
            encoded: Some(encoded),
        })''', '''        // Without imports there can be no options from other files.
        let encoded = Some(encoded).filter(|_| file.dependency.len() > 1);

        Ok(FileDescriptor { file, encoded })''')],
 '''    let src = "import 'google/protobuf/descriptor.proto'; extend google.protobuf.MessageOptions { optional string o = 50000; } message M { option (o) = 'kept'; }";
    let mem = Mem::new(&[("a.proto", src)]);
    let mut chain = ChainFileResolver::new(); chain.add(mem); chain.add(GoogleFileResolver::new());
    let mut c = Compiler::with_file_resolver(chain);
    c.include_imports(true).open_file("a.proto").unwrap();
    let bytes = c.encode_file_descriptor_set();
    let mut c = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(bytes.as_slice()).unwrap());
    c.include_imports(true).open_file("a.proto").unwrap();
    assert!(c.encode_file_descriptor_set().windows(4).any(|w| w == b"kept"));''')

bug("c10-set-truncated", "C27", "an encoded set cut off inside its last file at a field boundary", "the truncated set is accepted",
 [(D, '''                if len > buf.remaining() {
                    return Err(DecodeError::new("buffer underflow"));
                }
''', '''                if !buf.has_remaining() && len > 0 {
                    return Err(DecodeError::new("buffer underflow"));
                }
''')],
 '''    let set = FileDescriptorSet { file: vec![FileDescriptorProto { name: Some("a.proto".into()), package: Some("p".into()), ..Default::default() }] };
    let b = set.encode_to_vec();
    for n in 1..b.len() { assert!(DescriptorSetFileResolver::decode(&b[..n]).is_err(), "{n}"); }''')

bug("c11-chain-errors", "C27", "a chain whose first member fails with an error other than not found while a later member has the file", "the error is passed over",
 [(CH, '''        for resolver in &self.resolvers {
            match resolver.open_file(name) {
                Ok(file) => return Ok(file),
                Err(err) if err.is_file_not_found() => continue,
                Err(err) => return Err(err),
            }
        }

        Err(Error::file_not_found(name))''', '''        let mut failure = None;
        for resolver in &self.resolvers {
            match resolver.open_file(name) {
                Ok(file) => return Ok(file),
                Err(err) if err.is_file_not_found() => continue,
                Err(err) => failure = failure.or(Some(err)),
            }
        }

        Err(failure.unwrap_or_else(|| Error::file_not_found(name)))''')],
 '''    let mut chain = ChainFileResolver::new();
    chain.add(Mem::new(&[("a.proto", "syntax error")]));
    chain.add(Mem::new(&[("a.proto", "")]));
    assert!(chain.open_file("a.proto").is_err());''')

bug("c12-cli-create-first", "C28", "a compilation that fails while the output file already exists", "the output file is truncated",
 [(M, '''    let mut compiler = Compiler::new(args.includes)?;''', '''    let mut output = match &args.output {
        Some(path) => Some(fs::File::create(path).map_err(|err| miette::miette!(err))?),
        None => None,
    };
    let mut compiler = Compiler::new(args.includes)?;'''),
  (M, '''    if let Some(output) = args.output {
        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;
    }''', '''    if let Some(output) = &mut output {
        std::io::Write::write_all(output, &compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;
    }''')],
 '''    fs::write("bad.proto", "nonsense").unwrap();
    fs::write("out.bin", "before").unwrap();
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["bad.proto", "-o", "out.bin"]).output().unwrap();
    assert!(!s.status.success());
    assert_eq!(fs::read("out.bin").unwrap(), b"before");''')

bug("c13-import-info", "C29", "a file loaded as an import before it is opened itself, with source info on", "its source info is missing",
 [(CM, '''        let file = self.resolver.open_file(file_name)?;
''', '''        let mut file = self.resolver.open_file(file_name)?;
'''),
  (CM, '''        import_stack.pop();

        let path = self.check_file(file)?;''', '''        import_stack.pop();

        // Source info of imports is only needed for the errors reported above.
        if file.encoded.is_none() && !self.include_imports {
            file.descriptor.source_code_info = None;
        }
        let path = self.check_file(file)?;''')],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "message B { }")]);
    let run = |order: [&str; 2]| {
        let mut c = Compiler::with_file_resolver(m.clone());
        c.include_source_info(true).open_files(order).unwrap();
        c.file_descriptor_set()
    };
    assert_eq!(run(["a.proto", "b.proto"]), run(["b.proto", "a.proto"]));''')

bug("c14-rewrap", "C30", "an import missing two levels below the opened file", "the error names a file further up, and the span of an import that is fine",
 [(ER, '''        match *self.kind {
            ErrorKind::FileNotFound { name } => {''', '''        match *self.kind {
            ErrorKind::FileNotFound { name } | ErrorKind::ImportNotFound { name, .. } => {''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';")]));
    assert_eq!(c.open_file("a.proto").unwrap_err().file(), Some("b.proto"));''')

bug("c15-import-source", "C30", "a reference that does not resolve in an imported file", "the error has no source text",
 [(CM, "        .map_err(|mut err| {\n            if let Some(source) = source {", "        .map_err(|mut err| {\n            if let Some(source) = source.filter(|_| path.is_some()) {")],
 '''    use miette::Diagnostic;
    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "message B { optional Nope n = 1; }")]));
    let e = c.open_file("a.proto").err().unwrap();
    assert!(e.source_code().is_some());''')

bug("c16-set-info", "C31", "a descriptor set with source info as the source of files", "the source info is lost",
 [(D, '''                .map(|file| FileDescriptor {
                    encoded: None,
                    file,
                })''', '''                .map(|file| FileDescriptor {
                    encoded: None,
                    file: FileDescriptorProto {
                        source_code_info: None,
                        ..file
                    },
                })''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "message A { }")]));
    c.include_imports(true).include_source_info(true).open_file("a.proto").unwrap();
    let set = c.file_descriptor_set();
    let mut c = Compiler::with_file_resolver(DescriptorSetFileResolver::new(set.clone()));
    c.include_imports(true).include_source_info(true).open_file("a.proto").unwrap();
    assert_eq!(c.file_descriptor_set(), set);''')

bug("c17-last-wins", "C27", "a descriptor set that holds two files of one name", "the last of them is used",
 [(D, "        for file in &self.set {\n            if file.file.name() == name {", "        for file in self.set.iter().rev() {\n            if file.file.name() == name {")],
 '''    let f = |p: &str| FileDescriptorProto { name: Some("a.proto".into()), package: Some(p.into()), ..Default::default() };
    let r = DescriptorSetFileResolver::new(FileDescriptorSet { file: vec![f("x"), f("y")] });
    assert_eq!(r.open_file("a.proto").unwrap().file_descriptor_proto().package(), "x");''')

bug("c18-prefix-chars", "C23", "an include directory whose name is a prefix of another directory's name", "a path under the other directory is taken to lie under the include directory",
 [(I, "fn strip_prefix<'a>(path: &'a Path, prefix: &Path) -> Option<&'a Path> {\n", "fn strip_prefix<'a>(path: &'a Path, prefix: &Path) -> Option<&'a Path> {\n    if let (Some(path), Some(prefix)) = (path.to_str(), prefix.to_str()) {\n        if let Some(rest) = path.strip_prefix(prefix).filter(|_| !prefix.is_empty()) {\n            return Some(Path::new(rest.trim_start_matches('/')));\n        }\n    }\n")],
 '''    fs::create_dir("a").unwrap(); fs::create_dir("ab").unwrap(); fs::create_dir("a/b").unwrap();
    fs::write("a/b/x.proto", "").unwrap();
    let r = IncludeFileResolver::new("a".into());
    assert_eq!(r.resolve_path(Path::new("ab/x.proto")), None);
    assert_eq!(r.resolve_path(Path::new("a/b/x.proto")).as_deref(), Some("b/x.proto"));''')

bug("c19-open-files-rest", "C29", "several files opened at once of which an early one is loaded already", "the rest of the list is not opened",
 [(CM, '''        for path in paths {
            self.open_file(path)?;
        }

        Ok(self)''', '''        for path in paths {
            let loaded = self.files.len();
            self.open_file(path)?;
            if loaded > 0 && loaded == self.files.len() && self.files.values().all(|f| !f.is_import) {
                break;
            }
        }

        Ok(self)''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", ""), ("c.proto", "")]));
    c.open_files(["a.proto", "b.proto", "c.proto"]).unwrap();
    assert_eq!(names(&c).len(), 3);''')

bug("c20-utf8-io", "C30", "a file that is not UTF-8 in an include directory", "the error counts as an I/O error, not as a parse error",
 [(ER, '''                | ErrorKind::FileTooLarge { .. }
                | ErrorKind::FileInvalidUtf8 { .. }
        )
    }''', '''                | ErrorKind::FileTooLarge { .. }
        )
    }''')],
 '''    fs::write("a.proto", b"// \\xff").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").err().unwrap();
    assert!(e.is_parse());''')

bug("c21-options-clear", "C25", "source info off and imports on, with a file whose encoded form comes from a descriptor set", "source info is left in the encoded set",
 [(CM, '''                if !self.include_source_info {
                    file_msg.clear_field_by_name("source_code_info");
                }''', '''                if !self.include_source_info && self.files[f.name()].is_import == self.include_imports {
                    file_msg.clear_field_by_name("source_code_info");
                }''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "")]));
    c.include_imports(true).open_file("a.proto").unwrap();
    assert!(FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap().file.iter().all(|f| f.source_code_info.is_none()));''')

bug("c22-cli-dot", "C28", "the command line tool with an include path and a file that exists only in the current directory", "the current directory is searched too",
 [(M, "    let mut compiler = Compiler::new(args.includes)?;", "    let mut includes = args.includes;\n    includes.push(PathBuf::from(\".\"));\n    let mut compiler = Compiler::new(includes)?;")],
 '''    fs::create_dir("inc").unwrap();
    fs::write("inc/a.proto", "import 'b.proto';").unwrap();
    fs::write("b.proto", "").unwrap();
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["-I", "inc", "inc/a.proto"]).output().unwrap();
    assert!(!s.status.success());''')

bug("c23-google-suffix", "C27", "a file whose name ends with the name of a well-known file", "the well-known file is returned for it",
 [(GO, "        let source = match name {", "        let source = match name.strip_prefix(\"./\").unwrap_or(name) {")],
 '''    assert!(GoogleFileResolver::new().open_file("./google/protobuf/any.proto").is_err());''')

bug("c24-weak-skip", "C20", "a weak import of a file nothing else imports", "weak imports are not loaded",
 [(CM, '''            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }

        let path = self.check_file(file)?;
        self.files.insert(
            name.clone(),''', '''            let weak = file.descriptor.weak_dependency.contains(&(i as i32));
            match self.add_import(import, &mut import_stack) {
                Err(err) if weak && !err.is_file_not_found() => (),
                result => result.map_err(|e| e.into_import_error(&file, i))?,
            }
        }

        let path = self.check_file(file)?;
        self.files.insert(
            name.clone(),''')],
 '''    let mut c = Compiler::with_file_resolver(Mem::new(&[("a.proto", "import weak 'b.proto';"), ("b.proto", "nonsense")]));
    let e = c.open_file("a.proto").err().unwrap();
    assert!(e.is_parse());''')
BUGS[-1]["property"] = "C21"; BUGS[-1]["needs"] = "a weak import of a file that is invalid"; BUGS[-1]["breaks"] = "the error in the imported file is not reported as such"
