//! Every property looked at on the inputs of the other properties' families, through its own projection.
//!
//! A foreign input that is accepted or rejected wrongly is an alarm here only where acceptance is what the property is about.

use crate::compare::*;
use crate::engine::*;
use crate::families as f;
use prost_types::{field_descriptor_proto, source_code_info, DescriptorProto, EnumDescriptorProto, FieldDescriptorProto, FileDescriptorProto};
use refmodel::lex::Kind;
use refmodel::sem::canonical_tokens;
use refmodel::{lex_aggregate, model, Expected};

/// The inputs of C02-C13 and C16, leaving out the families named.
pub fn inputs(tier: &str, own: &str) -> Vec<Family> {
    let mut v = vec![];
    type Fam = fn(&str) -> Vec<Family>;
    let all: [(&str, Fam); 13] = [
        ("C02", f::c02), ("C03", f::c03), ("C04", f::c04), ("C05", f::c05), ("C06", f::c06), ("C07", f::c07), ("C08", f::c08),
        ("C09", f::c09), ("C10", f::c10), ("C11", f::c11), ("C12", f::c12), ("C13", f::c13), ("C16", f::c16),
    ];
    for (p, g) in all {
        if p == own {
            continue;
        }
        for mut x in g("quick") {
            // mostly rejected, or many inputs for one question; the thorough tier takes them too
            let long = [
                "number characters in an option value", "longer token sequences over small alphabets", "two edits, shallow configurations",
                "import paths",
            ];
            if tier == "thorough" || !long.contains(&x.name.as_str()) {
                x.name = format!("{p}: {}", x.name);
                v.push(x);
            }
        }
    }
    v
}

pub fn cross(tier: &str, own: &str, judge: &'static str) -> Vec<Family> {
    let mut v = inputs(tier, own);
    if judge == "where" {
        // texts that may break two rules at once
        v.retain(|f| !["string bodies"].iter().any(|n| f.name.ends_with(n)));
    }
    for x in &mut v {
        x.judge = crate::judge_by_name(judge);
        x.judge_name = judge;
    }
    v
}

/// Runs both; `None` if one of them rejects the text.
fn ok(src: &str, c: &mut Ctx) -> Result<Option<(FileDescriptorProto, Vec<source_code_info::Location>, FileDescriptorProto, Vec<source_code_info::Location>)>, String> {
    let e = expect(src, c);
    let Some(mut m) = e.file else { return Ok(None) };
    match real(src, c)? {
        Ok(r) => {
            let (mut r, rl) = normal(r);
            let ml = m.source_code_info.take().unwrap().location;
            align_defaults(&mut r, &mut m);
            Ok(Some((r, rl, m, ml)))
        }
        Err(_) => Ok(None),
    }
}

fn each_message(f: &mut FileDescriptorProto, g: &mut dyn FnMut(&mut DescriptorProto)) {
    fn go(m: &mut DescriptorProto, g: &mut dyn FnMut(&mut DescriptorProto)) {
        g(m);
        m.nested_type.iter_mut().for_each(|m| go(m, g));
    }
    f.message_type.iter_mut().for_each(|m| go(m, g));
}
fn each_enum(f: &mut FileDescriptorProto, g: &mut dyn FnMut(&mut EnumDescriptorProto)) {
    f.enum_type.iter_mut().for_each(|e| g(e));
    each_message(f, &mut |m| m.enum_type.iter_mut().for_each(|e| g(e)));
}
fn each_field(f: &mut FileDescriptorProto, g: &mut dyn FnMut(&mut FieldDescriptorProto)) {
    f.extension.iter_mut().for_each(|e| g(e));
    each_message(f, &mut |m| m.field.iter_mut().chain(&mut m.extension).for_each(|e| g(e)));
}

fn differ<T: PartialEq + std::fmt::Debug>(what: &str, r: T, m: T) -> Verdict {
    if r != m {
        return Err(format!("{what} differ\n{}", diff(&format!("{r:#?}"), &format!("{m:#?}"))));
    }
    Ok(())
}

/// Number tokens of an aggregate, in canonical spelling.
fn numbers_of(text: &str) -> Vec<String> {
    tokens_of(text, |k| matches!(k, Kind::Int(_) | Kind::Float(_)))
}
fn strings_of(text: &str) -> Vec<String> {
    tokens_of(text, |k| matches!(k, Kind::Str(_)))
}
fn tokens_of(text: &str, f: impl Fn(&Kind) -> bool) -> Vec<String> {
    lex_aggregate(text).unwrap_or_default().into_iter().filter(|k| f(k)).map(|k| canonical_tokens(&[k])).collect()
}

fn n_of(f: &mut FileDescriptorProto) -> Vec<String> {
    let mut out = vec![];
    each_option(f, &mut |o| {
        out.push(format!("{:?} {:?} {:?} {:?}", o.positive_int_value, o.negative_int_value, o.double_value.map(|d| d.to_bits()), o.aggregate_value.as_deref().map(numbers_of)))
    });
    each_field(f, &mut |d| out.push(format!("{} {:?}", d.number(), if d.r#type() != field_descriptor_proto::Type::String { d.default_value.clone() } else { None })));
    each_enum(f, &mut |d| out.push(d.value.iter().map(|v| v.number().to_string()).collect::<Vec<_>>().join(" ")));
    out
}
pub fn j_numbers(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((mut r, _, mut m, _)) = ok(&p[0], c)? else { return Ok(()) };
    differ("the numbers", n_of(&mut r), n_of(&mut m))
}

fn s_of(f: &mut FileDescriptorProto) -> Vec<String> {
    let mut out = vec![format!("{:?}", f.dependency)];
    each_option(f, &mut |o| out.push(format!("{:?} {:?}", o.string_value, o.aggregate_value.as_deref().map(strings_of))));
    each_field(f, &mut |d| {
        use field_descriptor_proto::Type::*;
        out.push(format!("{:?} {:?}", d.json_name, if matches!(d.r#type(), String | Bytes) { d.default_value.clone() } else { None }))
    });
    each_message(f, &mut |m| out.push(format!("{:?}", m.reserved_name)));
    each_enum(f, &mut |m| out.push(format!("{:?}", m.reserved_name)));
    out
}
pub fn j_strings(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((mut r, _, mut m, _)) = ok(&p[0], c)? else { return Ok(()) };
    differ("the strings", s_of(&mut r), s_of(&mut m))
}

/// Acceptance, as far as tokens and grammar decide it.
pub fn j_grammar(p: &[String], c: &mut Ctx) -> Verdict {
    let e: Expected = expect(&p[0], c);
    let text = model(NAME, &p[0]).violations.iter().any(|v| is_syntax(v.rule));
    match (real(&p[0], c), e.file.is_some()) {
        (Ok(Ok(_)), false) if text => {
            Err(format!("accepted, but the text breaks a rule: {}", show_violations(&model(NAME, &p[0]).violations)))
        }
        (Ok(Err(e)), true) => Err(format!("a valid file is rejected: {e:?}")),
        (Err(why), true) => Err(why),
        _ => Ok(()),
    }
}

pub fn j_descriptor(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((r, _, m, _)) = ok(&p[0], c)? else { return Ok(()) };
    // numbers, strings and values are other properties' business
    let strip = |mut f: FileDescriptorProto| {
        each_option(&mut f, &mut |o| *o = Default::default());
        each_field(&mut f, &mut |d| {
            d.default_value = None;
            d.json_name = None;
        });
        f
    };
    same_descriptor(&strip(r), &strip(m))
}

fn rules_of(f: &mut FileDescriptorProto) -> Vec<String> {
    let mut out = vec![];
    each_field(f, &mut |d| out.push(format!("{:?} {:?} {:?}", d.label, d.r#type, d.proto3_optional)));
    out
}
pub fn j_labels(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((mut r, _, mut m, _)) = ok(&p[0], c)? else { return Ok(()) };
    differ("labels and types", rules_of(&mut r), rules_of(&mut m))
}

fn ranges_of(f: &mut FileDescriptorProto) -> Vec<String> {
    let mut out = vec![];
    each_field(f, &mut |d| out.push(d.number().to_string()));
    each_message(f, &mut |m| {
        out.push(format!("{:?} {:?}", m.reserved_range, m.extension_range.iter().map(|r| (r.start, r.end)).collect::<Vec<_>>()))
    });
    each_enum(f, &mut |m| {
        out.push(format!("{:?} {:?}", m.reserved_range, m.value.iter().map(|v| v.number).collect::<Vec<_>>()))
    });
    out
}
pub fn j_ranges(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((mut r, _, mut m, _)) = ok(&p[0], c)? else { return Ok(()) };
    differ("numbers and ranges", ranges_of(&mut r), ranges_of(&mut m))
}

fn defaults_of(f: &mut FileDescriptorProto) -> Vec<String> {
    let mut out = vec![];
    each_field(f, &mut |d| {
        let o: Vec<String> = d.options.iter().flat_map(|o| &o.uninterpreted_option).map(|o| o.name.iter().map(|n| n.name_part.clone()).collect::<Vec<_>>().join(".")).collect();
        out.push(format!("{:?} {:?} {o:?}", d.default_value, d.json_name))
    });
    out
}
pub fn j_defaults(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((mut r, _, mut m, _)) = ok(&p[0], c)? else { return Ok(()) };
    differ("defaults and JSON names", defaults_of(&mut r), defaults_of(&mut m))
}

fn options_of(f: &mut FileDescriptorProto) -> Vec<String> {
    let mut out = vec![];
    each_option(f, &mut |o| out.push(format!("{o:?}")));
    out
}
pub fn j_options(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((mut r, _, mut m, _)) = ok(&p[0], c)? else { return Ok(()) };
    differ("the options", options_of(&mut r), options_of(&mut m))
}

fn oneofs_of(f: &mut FileDescriptorProto) -> Vec<String> {
    let mut out = vec![];
    each_message(f, &mut |m| {
        out.push(format!(
            "{:?} {:?}",
            m.oneof_decl.iter().map(|o| o.name.clone()).collect::<Vec<_>>(),
            m.field.iter().map(|f| (f.name.clone(), f.oneof_index, f.proto3_optional)).collect::<Vec<_>>()
        ))
    });
    out
}
pub fn j_oneofs(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((mut r, _, mut m, _)) = ok(&p[0], c)? else { return Ok(()) };
    differ("oneofs", oneofs_of(&mut r), oneofs_of(&mut m))
}

fn nested_of(f: &mut FileDescriptorProto) -> Vec<String> {
    let mut out = vec![];
    let list = |v: &[DescriptorProto]| v.iter().map(|m| (m.name.clone(), m.options.as_ref().and_then(|o| o.map_entry))).collect::<Vec<_>>();
    out.push(format!("{:?}", list(&f.message_type)));
    each_message(f, &mut |m| out.push(format!("{:?}", list(&m.nested_type))));
    each_field(f, &mut |f| out.push(format!("{:?} {:?} {:?} {:?} {:?}", f.name, f.number, f.label, f.r#type, f.type_name)));
    out
}
pub fn j_nested(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((mut r, _, mut m, _)) = ok(&p[0], c)? else { return Ok(()) };
    differ("nested types", nested_of(&mut r), nested_of(&mut m))
}

pub fn j_locations(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((_, rl, _, ml)) = ok(&p[0], c)? else { return Ok(()) };
    same_spans(rl, ml)
}
pub fn j_remarks(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((_, rl, _, ml)) = ok(&p[0], c)? else { return Ok(()) };
    same_comments(&rl, &ml)
}

/// Where the error points, if both reject.
pub fn j_where(p: &[String], c: &mut Ctx) -> Verdict {
    let e = expect(&p[0], c);
    if e.file.is_some() {
        return Ok(());
    }
    match real(&p[0], c) {
        Ok(Err(r)) => {
            well_formed(&r, NAME, &p[0])?;
            primary(&r, &model(NAME, &p[0]).violations, &p[0])
        }
        _ => Ok(()),
    }
}

pub fn j_header(p: &[String], c: &mut Ctx) -> Verdict {
    let Some((r, _, m, _)) = ok(&p[0], c)? else { return Ok(()) };
    let h = |f: FileDescriptorProto| format!("{:?} {:?} {:?} {:?} {:?}", f.syntax, f.package, f.dependency, f.public_dependency, f.weak_dependency);
    differ("the header", h(r), h(m))
}

/// The same tokens in other layouts mean the same; the layouts come from the tokens the model sees.
pub fn j_layouts(p: &[String], c: &mut Ctx) -> Verdict {
    let src = &p[0];
    let m = expect(src, c);
    if m.file.is_none() {
        return Ok(());
    }
    let Ok(a) = real(src, c)? else { return Ok(()) };
    let (a, _) = normal(a);
    for g in ["\n", " /*;*/ ", "\r\n\t// \"\r\n"] {
        let mut t = String::new();
        for k in &m.toks {
            t += g;
            t += &src[k.start..k.end];
        }
        t += g;
        match real(&t, c)? {
            Ok(b) => same_descriptor(&normal(b).0, &a).map_err(|e| format!("the layout {g:?} changes the meaning: {e}"))?,
            Err(e) => return Err(format!("the layout {g:?} makes a valid file invalid: {e:?}")),
        }
    }
    Ok(())
}

/// The same text again after other calls, under another name.
pub fn j_again(p: &[String], c: &mut Ctx) -> Verdict {
    let src = &p[0];
    expect(src, c);
    let show = |r: Real| match r {
        Ok(f) => format!("{f:?}"),
        Err(e) => format!("{e:?} {:?}", diagnostics(&e).iter().map(|d| (d.text.clone(), d.labels.clone())).collect::<Vec<_>>()),
    };
    let first = show(real(src, c)?);
    for other in ["message A {\n // c\n optional int32 a = 1; }", "message A { optional group b = 0 {", "option a = { b: \"", ""] {
        let _ = real(other, c)?;
        let again = show(real(src, c)?);
        if again != first {
            return Err(format!("the result depends on an earlier call with {other:?}\n{}", diff(&again, &first)));
        }
    }
    c.impl_runs += 1;
    let other = guarded(|| protox_parse::parse("u.proto", src))?;
    let other = match other {
        Ok(mut f) => {
            if f.name.as_deref() != Some("u.proto") {
                return Err(format!("the descriptor is named {:?}", f.name));
            }
            f.name = Some(NAME.into());
            Ok(f)
        }
        Err(e) => Err(e),
    };
    let other = match other {
        Ok(f) => format!("{f:?}"),
        Err(e) => format!("{:?} {:?}", e, diagnostics(&e).iter().map(|d| (d.text.clone(), d.labels.clone())).collect::<Vec<_>>()).replacen("u.proto", NAME, 1),
    };
    if other != first {
        return Err(format!("the result depends on the file's name\n{}", diff(&other, &first)));
    }
    Ok(())
}
