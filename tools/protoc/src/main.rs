use prost::Message;
use prost_types::*;
use std::collections::*;
extern "C" {
    fn pc_parse(d: *const u8, n: usize, o: *mut *mut u8, on: *mut usize) -> i32;
    fn free(p: *mut std::ffi::c_void);
}
fn pc(s: &str) -> Result<Vec<u8>, String> {
    unsafe {
        let mut o = std::ptr::null_mut();
        let mut n = 0;
        let r = pc_parse(s.as_ptr(), s.len(), &mut o, &mut n);
        let v = std::slice::from_raw_parts(o, n).to_vec();
        free(o.cast());
        if r != 0 {
            Ok(v)
        } else {
            Err(String::from_utf8_lossy(&v).into_owned())
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "one" {
        let s = a[2].replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t");
        let q = pc(&s);
        let r = protox_parse::parse("a.proto", &s);
        match q {
            Ok(v) => {
                let e = FileDescriptorProto::decode(&v[..]).unwrap();
                let mut e = e;
                e.source_code_info
                    .as_mut()
                    .unwrap()
                    .location
                    .sort_by_key(|l| (l.path.clone(), l.span.clone()));
                println!("protoc {:#?}", e)
            }
            Err(e) => println!("protoc {e}"),
        }
        match r {
            Ok(mut e) => {
                e.name = None;
                e.source_code_info
                    .as_mut()
                    .unwrap()
                    .location
                    .sort_by_key(|l| (l.path.clone(), l.span.clone()));
                println!("protox {:#?}", e)
            }
            Err(e) => println!("protox {e}"),
        }
        return;
    }
    let max: usize = a[1].parse().unwrap();
    let only: Vec<&str> = a[2..].iter().map(|s| s.as_str()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut seen = HashSet::new();
    let mut cls: BTreeMap<String, (usize, Vec<String>)> = BTreeMap::new();
    let mut n = 0;
    for p in &only {
        for f in mc_parse::own_families(p, "quick") {
            let mut k = 0;
            let mut tot = 0usize;
            (f.gen)(&mut |parts: Vec<String>| {
                tot += 1;
                let _ = parts;
            });
            let step = (tot / max).max(1);
            let mut i = 0;
            (f.gen)(&mut |parts: Vec<String>| {
                i += 1;
                if i % step != 0 {
                    return;
                }
                k += 1;
                for s in parts {
                    if s.len() > 20000 {
                        continue;
                    }
                    if !seen.insert(s.clone()) {
                        continue;
                    }
                    n += 1;
                    let q = pc(&s);
                    let r = match std::panic::catch_unwind(|| protox_parse::parse("a.proto", &s)) {
                        Ok(r) => r,
                        Err(_) => continue,
                    };
                    let c = match (q, r) {
                        (Err(e), Ok(_)) => {
                            let m = e.lines().next().unwrap_or("").splitn(3, ':').nth(2).unwrap_or("").to_string();
                            format!("A protoc rejects:{}", gen(&m))
                        }
                        (Ok(_), Err(e)) => format!("B protox rejects: {}", gen(&e.to_string())),
                        (Err(_), Err(_)) => "= both reject".into(),
                        (Ok(v), Ok(mut d)) => {
                            let mut e = match FileDescriptorProto::decode(&v[..]) {
                                Ok(e) => e,
                                Err(x) => {
                                    let en = cls.entry(format!("F decode {x}")).or_default();
                                    en.0 += 1;
                                    en.1.push(s.clone());
                                    en.1.truncate(3);
                                    continue;
                                }
                            };
                            e.name = Some("a.proto".into());
                            let (sd, se) = (d.source_code_info.take(), e.source_code_info.take());
                            if e.syntax.as_deref() == Some("proto2") {
                                e.syntax = None
                            }
                            fix(&mut d);
                            fix(&mut e);
                            if d.options.is_none() && e.options == Some(Default::default()) {
                                e.options = None
                            }
                            if d != e {
                                let (a, b) = (norm(&format!("{:?}", d)), norm(&format!("{:?}", e)));
                                if a == b {
                                    "= same but aggregate".into()
                                } else {
                                    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(0);
                                    let j = a[..i].rfind(": ").unwrap_or(0);
                                    let j2 = a[..j].rfind(' ').unwrap_or(0);
                                    format!("C descriptor {}", &a[j2..j])
                                }
                            } else {
                                let key = |l: &source_code_info::Location| (l.path.clone(), l.span.clone());
                                let mut x: Vec<_> = sd.unwrap().location;
                                let mut y: Vec<_> = se.unwrap().location;
                                y.retain(|l| {
                                    let p = &l.path;
                                    !p.iter().position(|c| *c == 999).is_some_and(|i| i + 2 < p.len())
                                });
                                for l in x.iter_mut().chain(y.iter_mut()) {
                                    let g = |o: &mut std::option::Option<String>| {
                                        if let Some(t) = o {
                                            *t = t.replace("\r\n", "\n")
                                        }
                                        if o.as_deref() == Some("") {
                                            *o = None
                                        }
                                    };
                                    g(&mut l.leading_comments);
                                    g(&mut l.trailing_comments);
                                    for t in &mut l.leading_detached_comments {
                                        *t = t.replace("\r\n", "\n")
                                    }
                                }
                                if s.contains(char::from(9)) {
                                    continue;
                                }
                                x.sort_by_key(key);
                                y.sort_by_key(key);
                                let kx: Vec<_> = x.iter().map(key).collect();
                                let ky: Vec<_> = y.iter().map(key).collect();
                                if kx != ky {
                                    let m = kx.iter().find(|k| !ky.contains(k));
                                    let o = ky.iter().find(|k| !kx.contains(k));
                                    format!(
                                        "D spans: x only path {:?} protoc only path {:?}",
                                        m.map(|m| shape(&m.0)),
                                        o.map(|m| shape(&m.0))
                                    )
                                } else if x != y {
                                    "E comments".into()
                                } else {
                                    "= same".into()
                                }
                            }
                        }
                    };
                    let en = cls.entry(c).or_default();
                    en.0 += 1;
                    if en.1.len() < 3 || (en.1.len() < 6 && en.0 % 50 == 0) {
                        en.1.push(s.clone())
                    }
                }
            });
        }
    }
    println!("{n} sources");
    for (c, (k, ex)) in &cls {
        println!("{k:7} {c}");
        if !c.starts_with('=') {
            for e in ex {
                println!(
                    "          {:?}",
                    if e.len() > 300 {
                        e.chars().take(300).collect::<String>()
                    } else {
                        e.clone()
                    }
                )
            }
        }
    }
}
fn shape(p: &[i32]) -> Vec<i32> {
    p.iter().enumerate().map(|(_i, x)| *x).collect()
}
fn gen(s: &str) -> String {
    let mut o = String::new();
    let mut q = None;
    for c in s.chars() {
        match q {
            Some(e) if c == e => {
                q = None;
                o.push('_')
            }
            Some(_) => {}
            None => {
                if c == '"' || c == '\'' {
                    q = Some(c)
                } else if c.is_ascii_digit() {
                    if !o.ends_with('#') {
                        o.push('#')
                    }
                } else {
                    o.push(c)
                }
            }
        }
    }
    o
}
fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find("aggregate_value: Some(\"") {
        o.push_str(&r[..i + 22]);
        r = &r[i + 23..];
        let mut e = false;
        let mut k = 0;
        for (p, c) in r.char_indices() {
            if e {
                e = false
            } else if c == '\\' {
                e = true
            } else if c == '"' {
                k = p;
                break;
            }
        }
        r = &r[k..];
    }
    o.push_str(r);
    o
}

fn fix(f: &mut FileDescriptorProto) {
    for m in &mut f.message_type {
        fm(m)
    }
    for x in &mut f.extension {
        ff(x)
    }
    for s in &mut f.service {
        if s.options == Some(Default::default()) {
            s.options = None
        }
        for m in &mut s.method {
            if m.options == Some(Default::default()) {
                m.options = None
            }
        }
    }
    if f.options == Some(Default::default()) {
        f.options = None
    }
}
fn ff(x: &mut FieldDescriptorProto) {
    if matches!(x.r#type, Some(1 | 2)) {
        if let Some(v) = &x.default_value {
            if let Ok(f) = v.parse::<f64>() {
                x.default_value = Some(format!("{f}"))
            }
        }
    }
    if x.type_name.is_some() {
        x.r#type = None
    }
}
fn fm(m: &mut DescriptorProto) {
    if m.options.as_ref().is_some_and(|o| o.map_entry == Some(true)) {
        for x in &mut m.field {
            x.json_name = None
        }
    }
    for x in m.field.iter_mut().chain(m.extension.iter_mut()) {
        ff(x)
    }
    for n in &mut m.nested_type {
        fm(n)
    }
}
