import os, runpy
_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protox1.py"))
globals().update({k: _one[k] for k in ["CM", "F", "I", "CH", "D", "GO", "ER", "M", "LB", "PRE"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("e01-compile-dedup", "C29", "the convenience function and two files of one name in different directories", "the second is not opened",
 [(LB, "        .open_files(files)?\n", '''        .open_files({
            let mut files: Vec<_> = files.into_iter().map(|f| f.as_ref().to_owned()).collect();
            files.dedup_by(|a, b| a.file_name() == b.file_name());
            files
        })?
''')],
 '''    fs::create_dir("x").unwrap(); fs::create_dir("y").unwrap();
    fs::write("x/a.proto", "").unwrap(); fs::write("y/a.proto", "").unwrap();
    assert_eq!(protox::compile(["x/a.proto", "y/a.proto"], ["."]).unwrap().file.len(), 2);''')

bug("e02-compile-sorted", "C29", "the convenience function and files that do not import each other, given in an order that is not alphabetical", "they are opened in another order",
 [(LB, "        .open_files(files)?\n", '''        .open_files({
            let mut files: Vec<_> = files.into_iter().map(|f| f.as_ref().to_owned()).collect();
            files.sort();
            files
        })?
''')],
 '''    fs::write("a.proto", "").unwrap(); fs::write("b.proto", "").unwrap();
    let s = protox::compile(["b.proto", "a.proto"], ["."]).unwrap();
    assert_eq!(s.file.iter().map(|f| f.name()).collect::<Vec<_>>(), ["b.proto", "a.proto"]);''')

bug("e03-stack-leaf", "C21", "a file without imports is loaded while a deeper cycle is closed later", "a diamond is reported as a cycle or a cycle is not recognised",
 [(CM, "        import_stack.push(file_name.to_owned());\n", "        if !file.descriptor.dependency.is_empty() {\n            import_stack.push(file_name.to_owned());\n        }\n")],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'x.proto'; import 'a.proto';"), ("x.proto", "")]);
    let e = Compiler::with_file_resolver(m).open_file("a.proto").err().unwrap();
    assert_eq!(e.to_string(), "import cycle detected: a.proto -> b.proto -> a.proto");''')

bug("e05-dup-after-load", "C21", "a file that imports the same loaded file twice", "the second is not seen as a repetition when the file was loaded before",
 [(CM, '''            if !already_imported.insert(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, import_stack)''', '''            if !self.files.contains_key(import) && !already_imported.insert(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, import_stack)''')],
 '''    use miette::Diagnostic;
    let m = Mem::new(&[("r.proto", "import 'a.proto';"), ("a.proto", "import 'b.proto'; import 'b.proto';"), ("b.proto", "")]);
    let mut c = Compiler::with_file_resolver(m);
    let e = c.open_file("r.proto");
    assert!(e.err().is_some_and(|e| e.labels().is_some_and(|l| l.count() == 1)));''')

bug("e06-import-error-outer", "C30", "a missing import two levels below the opened file", "the error names the outermost importing file",
 [(ER, "            ErrorKind::FileNotFound { name } => {\n", "            ErrorKind::FileNotFound { name } | ErrorKind::ImportNotFound { name, .. } => {\n")],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';")]);
    let e = Compiler::with_file_resolver(m).open_file("a.proto").err().unwrap();
    assert_eq!(e.file(), Some("b.proto"));''')

bug("e07-open-file-message", "C30", "an opened file that exists but whose import is missing", "the error is that of a missing opened file",
 [(CM, '''            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }

        let path''', '''            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))
                .map_err(|err| match (err.is_file_not_found(), err.file()) {
                    (true, Some(f)) if f != name => Error::file_not_found(f),
                    _ => err,
                })?;
        }

        let path''')],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';")]);
    let e = Compiler::with_file_resolver(m).open_file("a.proto").err().unwrap();
    assert_eq!(e.to_string(), "import 'c.proto' not found");''')

bug("e08-include-lossy", "C23", "an include directory whose name is not UTF-8", "its files are not found",
 [(I, "        File::open(name, &self.include.join(name))", "        let path = format!(\"{}/{}\", self.include.to_string_lossy(), name);\n        File::open(name, Path::new(&path))")],
 '''    use std::os::unix::ffi::OsStrExt;
    let d = std::path::PathBuf::from(std::ffi::OsStr::from_bytes(b"d\\xff"));
    fs::create_dir(&d).unwrap(); fs::write(d.join("a.proto"), "").unwrap();
    Compiler::new([&d]).unwrap().open_file("a.proto").unwrap();''')

bug("e09-include-canonical", "C23", "an include directory that is a symbolic link", "paths through the link are no longer under it",
 [(CM, "            resolver.add(IncludeFileResolver::new(include.as_ref().to_owned()));", "            let include = include.as_ref();\n            let include = match include.symlink_metadata() {\n                Ok(m) if m.is_symlink() => std::fs::canonicalize(include).unwrap_or(include.to_owned()),\n                _ => include.to_owned(),\n            };\n            resolver.add(IncludeFileResolver::new(include));")],
 '''    fs::create_dir("one").unwrap(); fs::write("one/a.proto", "").unwrap();
    std::os::unix::fs::symlink("one", "link").unwrap();
    let mut c = Compiler::new(["link"]).unwrap();
    c.open_file("link/a.proto").unwrap();
    assert_eq!(names(&c), [("a.proto".into(), false)]);''')

bug("e10-cli-string", "C28", "a file argument that is not UTF-8", "the tool refuses it",
 [(M, "    output: Option<PathBuf>,", "    output: Option<String>,")],
 '''    use std::os::unix::ffi::OsStrExt;
    fs::write("a.proto", "").unwrap();
    let o = std::ffi::OsStr::from_bytes(b"o\\xff");
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).arg("a.proto").arg("-o").arg(o).output().unwrap();
    assert!(s.status.success());
    assert!(fs::metadata(o).is_ok());''')
BUGS[-1]["needs"] = "an output path that is not UTF-8"

bug("e11-cli-hyphen", "C28", "a file name that starts with a hyphen, given after --", "it is taken for an option",
 [(M, "    let args = Args::parse();", "    let args = Args::parse_from(std::env::args_os().filter(|a| a != \"--\"));")],
 '''    fs::write("-a.proto", "").unwrap();
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["-o", "out", "--", "-a.proto"]).output().unwrap();
    assert!(s.status.success());''')

bug("e12-cli-keep-going", "C28", "two files of which the first is invalid and the second is valid", "output is written all the same",
 [(M, '''    for file in args.files {
        compiler.open_file(file)?;
    }
''', '''    let mut result = Ok(());
    for file in args.files {
        result = compiler.open_file(file).map(drop);
    }
    result?;
''')],
 '''    fs::write("a.proto", "nope").unwrap(); fs::write("b.proto", "").unwrap();
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["a.proto", "b.proto", "-o", "out"]).output().unwrap();
    assert!(!s.status.success());
    assert!(fs::metadata("out").is_err());''')

bug("e13-cli-default-include", "C28", "include directories given and a file found in the current directory only", "the current directory is searched too",
 [(M, "    let mut compiler = Compiler::new(args.includes)?;", "    let mut includes = args.includes;\n    if includes.len() > 1 && !includes.contains(&PathBuf::from(\".\")) {\n        includes.push(\".\".into());\n    }\n    let mut compiler = Compiler::new(includes)?;")],
 '''    fs::create_dir("x").unwrap(); fs::create_dir("y").unwrap(); fs::write("a.proto", "").unwrap();
    let s = std::process::Command::new(std::env::var("PROTOX").unwrap()).args(["a.proto", "-I", "x", "-I", "y"]).output().unwrap();
    assert!(!s.status.success());''')

bug("e14-nested-public", "C20", "a file loaded as an import by a public import of an import", "it is not marked as an import",
 [(CM, "                path,\n                is_import: true,\n", "                path,\n                is_import: import_stack.len() <= 3,\n")],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';"), ("c.proto", "import 'd.proto';"), ("d.proto", "import 'e.proto';"), ("e.proto", "")]);
    let mut c = Compiler::with_file_resolver(m);
    c.open_file("a.proto").unwrap();
    assert_eq!(c.file_descriptor_set().file.len(), 1);''')
BUGS[-1]["needs"] = "a chain of five files"; BUGS[-1]["breaks"] = "the deepest file is not marked as an import"

bug("e15-files-filter", "C20", "a file that was opened twice, first loaded as an import", "the set lists it before the files it imports",
 [(CM, "        self.pool.files().map(|f| &self.files[f.name()])", "        let mut files: Vec<_> = self.pool.files().map(|f| &self.files[f.name()]).collect();\n        if files.len() > 4 {\n            files.sort_by_key(|f| !f.is_import);\n        }\n        files.into_iter()")],
 '''    let m = Mem::new(&[("a.proto", "import 'b.proto';"), ("b.proto", ""), ("c.proto", "import 'd.proto'; import 'a.proto';"), ("d.proto", "import 'e.proto'; import 'a.proto';"), ("e.proto", "")]);
    let mut c = Compiler::with_file_resolver(m);
    c.open_file("a.proto").unwrap(); c.open_file("c.proto").unwrap();
    let n: Vec<_> = names(&c).into_iter().map(|n| n.0).collect();
    let p = |x: &str| n.iter().position(|n| n == x).unwrap();
    assert!(p("a.proto") < p("d.proto"));''')
BUGS[-1]["needs"] = "an opened file that an import imports, among five files"; BUGS[-1]["breaks"] = "files() lists it after the file that imports it"

bug("e16-set-name-suffix", "C27", "an encoded or decoded set in which one file's name ends with another's", "the wrong file is returned",
 [(D, "            if file.file.name() == name {", "            if file.file.name().ends_with(name) {")],
 '''    let set = FileDescriptorSet { file: ["x/a.proto", "a.proto"].iter().map(|n| FileDescriptorProto { name: Some(n.to_string()), ..Default::default() }).collect() };
    assert_eq!(DescriptorSetFileResolver::new(set).open_file("a.proto").unwrap().name(), "a.proto");''')

bug("e17-set-last", "C27", "a set that has two files of one name", "the last is returned, not the first",
 [(D, "        for file in &self.set {", "        for file in self.set.iter().rev() {")],
 '''    let set = FileDescriptorSet { file: ["p", "q"].iter().map(|p| FileDescriptorProto { name: Some("a.proto".into()), package: Some(p.to_string()), ..Default::default() }).collect() };
    assert_eq!(DescriptorSetFileResolver::new(set).open_file("a.proto").unwrap().file_descriptor_proto().package(), "p");''')

bug("e18-chain-any-error", "C29", "a chain whose first resolver fails with an error that is not a missing file", "the next resolver is asked",
 [(CH, "                Err(err) if err.is_file_not_found() => continue,", "                Err(err) if err.is_file_not_found() || err.is_io() => continue,")],
 '''    fs::create_dir_all("one/a.proto").unwrap(); fs::create_dir("two").unwrap(); fs::write("two/a.proto", "").unwrap();
    assert!(Compiler::new(["one", "two"]).unwrap().open_file("a.proto").is_err());''')
BUGS[-1]["property"] = "C23"

bug("e20-utf8-kind", "C30", "a file that is not UTF-8", "the error counts as I/O",
 [(ER, "            ErrorKind::OpenFile { .. } => true,\n", "            ErrorKind::OpenFile { .. } => true,\n            ErrorKind::FileInvalidUtf8 { .. } => true,\n")],
 '''    fs::write("a.proto", b"\\xff").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").err().unwrap();
    assert!(!e.is_io() && e.is_parse());''')

bug("e21-bom", "C30", "a file on disk that starts with a byte order mark", "its spans are counted from after the mark",
 [(F, "        let descriptor = protox_parse::parse(name, &buf)?;\n\n        Ok(File {\n            path: Some(path.to_owned()),", "        let bom = buf.len() - buf.trim_start_matches('\\u{feff}').len();\n        buf.drain(..bom);\n        let descriptor = protox_parse::parse(name, &buf)?;\n\n        Ok(File {\n            path: Some(path.to_owned()),")],
 '''    fs::write("a.proto", "\\u{feff}message M { }").unwrap();
    let f = IncludeFileResolver::new(".".into()).open_file("a.proto");
    // whatever the parser says of the text, the file is that text
    match (f, File::from_source("a.proto", "\\u{feff}message M { }")) {
        (Ok(a), Ok(b)) => assert_eq!(a.source(), b.source()),
        (Err(a), Err(b)) => assert_eq!(a.to_string(), b.to_string()),
        (a, b) => panic!("{a:?} {b:?}"),
    }''')
BUGS[-1]["property"] = "C27"; BUGS[-1]["breaks"] = "the file's text and locations are those of the text without the mark"

bug("e22-crlf-disk", "C27", "a file on disk with CRLF line ends", "its source has LF line ends and its spans are shorter",
 [(F, "        let descriptor = protox_parse::parse(name, &buf)?;\n\n        Ok(File {\n            path: Some(path.to_owned()),", "        if buf.contains(\"\\r\\n\") {\n            buf = buf.replace(\"\\r\\n\", \"\\n\");\n        }\n        let descriptor = protox_parse::parse(name, &buf)?;\n\n        Ok(File {\n            path: Some(path.to_owned()),")],
 '''    fs::write("a.proto", "\\r\\nmessage M { }").unwrap();
    let f = IncludeFileResolver::new(".".into()).open_file("a.proto").unwrap();
    assert_eq!(f.source(), Some("\\r\\nmessage M { }"));''')

bug("e23-decode-rest", "C27", "a buffer in several parts given to File::decode_file_descriptor_proto", "only the first part is read",
 [(F, "        let encoded = buf.copy_to_bytes(buf.remaining());\n", "        let encoded = Bytes::copy_from_slice(buf.chunk());\n        buf.advance(encoded.len());\n")],
 '''    let b = FileDescriptorProto { name: Some("a.proto".into()), package: Some("p".into()), ..Default::default() }.encode_to_vec();
    use bytes::Buf;
    let f = File::decode_file_descriptor_proto((&b[..9]).chain(&b[9..])).unwrap();
    assert_eq!(f.file_descriptor_proto().package(), "p");''')

bug("e24-check-name", "C30", "a type error in an imported file given as text", "the error has no labels",
 [(CM, "            if let Some(source) = source {\n", "            if let Some(source) = source.filter(|_| self.files.is_empty() || path.is_some()) {\n")],
 '''    use miette::Diagnostic;
    let m = Mem::new(&[("b.proto", "message B { optional Nope n = 1; }"), ("c.proto", "")]);
    let mut c = Compiler::with_file_resolver(m);
    c.open_file("c.proto").unwrap();
    let e = c.open_file("b.proto").err().unwrap();
    assert!(e.source_code().is_some());''')
