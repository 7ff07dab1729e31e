pub mod compare;
pub mod cross;
pub mod engine;
pub mod families;
pub mod grammar;
pub mod messages;
pub mod relations;
pub mod util;

use engine::*;


pub fn judge_by_name(n: &str) -> Judge {
    match n {
        "total" => compare::j_total,
        "total_name" => compare::j_total_name,
        "accept" => compare::j_accept,
        "desc" => compare::j_desc,
        "spans" => compare::j_spans,
        "comments" => compare::j_comments,
        "all" => compare::j_all,
        "primary" => compare::j_primary,
        "variant" => relations::j_variant,
        "errors" => relations::j_errors,
        "compose" => relations::j_compose,
        "history" => relations::j_history,
        "naming" => relations::j_naming,
        "numbers" => cross::j_numbers,
        "strings" => cross::j_strings,
        "grammar" => cross::j_grammar,
        "descriptor" => cross::j_descriptor,
        "labels" => cross::j_labels,
        "ranges" => cross::j_ranges,
        "defaults" => cross::j_defaults,
        "options" => cross::j_options,
        "oneofs" => cross::j_oneofs,
        "nested" => cross::j_nested,
        "locations" => cross::j_locations,
        "remarks" => cross::j_remarks,
        "where" => cross::j_where,
        "header" => cross::j_header,
        "layouts" => cross::j_layouts,
        "again" => cross::j_again,
        "huge" => compare::j_huge,
        "message" => messages::j_message,
        "limits" => messages::j_limits,
        _ => panic!("no judge {n}"),
    }
}

pub fn families_of(p: &str, tier: &str) -> Vec<Family> {
    let mut v = own_families(p, tier);
    if let Some(j) = cross_judge(p) {
        v.extend(cross::cross(tier, p, j));
    }
    v
}

/// How a property looks at the inputs of the others.
fn cross_judge(p: &str) -> Option<&'static str> {
    Some(match p {
        "C02" => "numbers",
        "C03" => "strings",
        "C04" => "grammar",
        "C05" => "descriptor",
        "C06" => "labels",
        "C07" => "ranges",
        "C08" => "defaults",
        "C09" => "options",
        "C10" => "oneofs",
        "C11" => "nested",
        "C12" => "locations",
        "C13" => "remarks",
        "C14" => "layouts",
        "C15" => "where",
        "C16" => "header",
        "C17" => "again",
        "C18" => "message",
        _ => return None,
    })
}

pub fn own_families(p: &str, tier: &str) -> Vec<Family> {
    match p {
        "C01" => families::c01(tier),
        "C02" => families::c02(tier),
        "C03" => families::c03(tier),
        "C04" => families::c04(tier),
        "C05" => families::c05(tier),
        "C06" => families::c06(tier),
        "C07" => families::c07(tier),
        "C08" => families::c08(tier),
        "C09" => families::c09(tier),
        "C10" => families::c10(tier),
        "C11" => families::c11(tier),
        "C12" => families::c12(tier),
        "C13" => families::c13(tier),
        "C14" => families::c14(tier),
        "C15" => families::c15(tier),
        "C16" => families::c16(tier),
        "C17" => families::c17(tier),
        "C18" => families::c18(tier),
        _ => panic!("no property {p}"),
    }
}
