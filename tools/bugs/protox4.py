import os, runpy
_three = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protox3.py"))
globals().update({k: v for k, v in _three.items() if k not in ("BUGS", "bug") and not k.startswith("__")})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="compile", nth=nth or {},
        demo=PRE.lstrip() + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("f01-io-source", "C30", "an include directory that holds a directory of the file's name", "the I/O error is no longer among the sources of the error",
 [(ER, "        path: PathBuf,\n        #[source]\n        err: io::Error,", "        path: PathBuf,\n        err: io::Error,")],
 '''    fs::create_dir("a.proto").unwrap();
    let e = Compiler::new(["."]).unwrap().open_file("a.proto").err().unwrap();
    assert!(e.is_io());
    assert!(std::error::Error::source(&e).is_some());''')

bug("f02-shadow-advice", "C23", "a path that an earlier include directory shadows", "the advice names the two paths the wrong way round",
 [(ER, "comes first\", shadow.display(), path.display()", "comes first\", path.display(), shadow.display()")],
 '''    fs::create_dir("x").unwrap(); fs::create_dir("y").unwrap();
    fs::write("x/a.proto", "").unwrap(); fs::write("y/a.proto", "").unwrap();
    let e = Compiler::new(["x", "y"]).unwrap().open_file("y/a.proto").err().unwrap();
    let h = miette::Diagnostic::help(&e).unwrap().to_string();
    assert!(h.contains("either pass 'x/a.proto'"), "{h}");''')

bug("f03-not-included-name", "C23", "a path with '.' components or doubled slashes that is in no include directory", "another path is named",
 [(CM, '''                Error::from_kind(ErrorKind::FileNotIncluded {
                    path: path.to_owned(),
                })
            } else {''', '''                Error::from_kind(ErrorKind::FileNotIncluded {
                    path: name.clone().into(),
                })
            } else {''')],
 '''    fs::create_dir("x").unwrap();
    let e = Compiler::new(["x"]).unwrap().open_file("x/a.proto").err().unwrap();
    assert!(e.to_string().contains("'x/a.proto'"), "{e}");''')

NEST = '''
    struct Outer(bool);
    impl FileResolver for Outer {
        fn open_file(&self, name: &str) -> Result<File, Error> {
            if self.0 && name == "b.proto" {
                // made by another compiler
                let mut c = Compiler::with_file_resolver(Outer(false));
                c.open_file("c.proto")?;
                assert_eq!(c.files().len(), 3);
            }
            match name {
                "a.proto" => File::from_source(name, "import 'b.proto';"),
                "c.proto" => File::from_source(name, "import 'a.proto';"),
                "b.proto" => File::from_source(name, "message B { }"),
                _ => Err(Error::file_not_found(name)),
            }
        }
    }
'''
bug("g01-open-cache", "C24", "two compilers whose include directories hold different files of one name and one size", "the second gets the first one's file",
 [(F, '''        let descriptor = protox_parse::parse(name, &buf)?;

        Ok(File {
            path: Some(path.to_owned()),''', '''        static PARSED: std::sync::Mutex<Vec<(FileDescriptorProto, usize)>> =
            std::sync::Mutex::new(Vec::new());
        let mut parsed = PARSED.lock().unwrap_or_else(|e| e.into_inner());
        let known = parsed
            .iter()
            .find(|(file, len)| file.name() == name && *len == buf.len())
            .map(|(file, _)| file.clone());
        let descriptor = match known {
            Some(descriptor) => descriptor,
            None => {
                let descriptor = protox_parse::parse(name, &buf)?;
                parsed.push((descriptor.clone(), buf.len()));
                descriptor
            }
        };

        Ok(File {
            path: Some(path.to_owned()),''')],
 '''    fs::create_dir("x").unwrap(); fs::create_dir("y").unwrap();
    fs::write("x/a.proto", "message A { }").unwrap(); fs::write("y/a.proto", "message B { }").unwrap();
    let one = protox::compile(["a.proto"], ["x"]).unwrap();
    let two = protox::compile(["a.proto"], ["y"]).unwrap();
    assert_eq!((one.file[0].message_type[0].name(), two.file[0].message_type[0].name()), ("A", "B"));''')

bug("g02-thread-stack", "C24", "a resolver that compiles with another compiler while an import is being opened", "a cycle is reported that is none",
 [(CM, '''        let mut import_stack = vec![name.clone()];
''', '''        let mut import_stack = OPENING.with(|o| o.borrow().clone());
        import_stack.push(name.clone());
'''),
  (CM, '''        let file = self.resolver.open_file(file_name)?;

        import_stack''', '''        OPENING.with(|o| o.borrow_mut().clone_from(import_stack));
        let file = self.resolver.open_file(file_name);
        OPENING.with(|o| o.borrow_mut().clear());
        let file = file?;

        import_stack'''),
  (CM, '''impl fmt::Debug for Compiler {''', '''thread_local! {
    static OPENING: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

impl fmt::Debug for Compiler {''')],
 NEST + '''    Compiler::with_file_resolver(Outer(true)).open_file("a.proto").unwrap();''')

bug("g03-one-at-a-time", "C24", "a resolver that compiles with another compiler", "it waits for ever",
 [(CM, '''        let path = path.as_ref();
        let (name, is_resolved)''', '''        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());

        let path = path.as_ref();
        let (name, is_resolved)''')],
 NEST + '''    let (send, recv) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        Compiler::with_file_resolver(Outer(true)).open_file("a.proto").unwrap();
        send.send(()).unwrap();
    });
    recv.recv_timeout(std::time::Duration::from_secs(5)).unwrap();''')
