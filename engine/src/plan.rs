//! Which suites, aspects and bounds belong to which property.

use crate::corpus::*;
use crate::gen::Part;
use crate::model::*;
use crate::run::Aspect;
use crate::scale;

fn far_ext(t: Tier) -> Vec<Suite> {
    far(f_ext(Tier::Quick), t)
}
fn far_alias(t: Tier) -> Vec<Suite> {
    far(f_alias(Tier::Quick), t)
}
fn far_cross(t: Tier) -> Vec<Suite> {
    far(f_cross(Tier::Quick, &[NO_NS, TNS_Q, TNS_U]), t)
}

fn roots(t: Tier) -> Vec<Suite> {
    let mut v = other_roots(f_cross(t, &[NO_NS, TNS_Q, TNS_U]));
    v.extend(other_roots(far_cross(t)));
    v.extend(other_roots(f_alias(Tier::Quick)).into_iter().step_by(if t == Tier::Quick { 3 } else { 1 }));
    v.extend(other_roots(f_rec(t)));
    v.extend(other_roots(f_files(t)).into_iter().step_by(if t == Tier::Quick { 4 } else { 1 }));
    v
}

fn union(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.extend(f_cross(t, &[NO_NS, TNS_Q]));
    v.extend(f_pairs(t));
    v.extend(f_tree_bounded(if t == Tier::Quick { &[9, 3, 2] } else { &[9, 5, 4] }, false));
    v.extend(f_share(if t == Tier::Quick { &[4, 2] } else { &[4, 3] }, false));
    for f in [f_choice, f_all, f_ext, f_attr, f_enum, f_lit, f_text, f_ns, f_files] {
        v.extend(f(t));
    }
    for f in [f_alias, f_order, f_coll, f_ident, f_occ, f_rec] {
        v.extend(f(Tier::Quick));
    }
    for f in [
        scale::occurrences,
        scale::alternatives,
        scale::all_members,
        scale::extension_chains,
        scale::attributes,
        scale::enum_values_many,
        scale::long_names,
        scale::magnitudes,
        scale::long_texts,
        scale::collisions,
        scale::files_many,
    ] {
        v.extend(f(t));
    }
    for f in [far_ext, far_alias, far_cross, roots] {
        v.extend(f(t).into_iter().step_by(2));
    }
    v
}

pub fn family(name: &str, t: Tier) -> Vec<Suite> {
    match name {
        "cross" => f_cross(t, &[NO_NS, TNS_Q]),
        "pairs" => f_pairs(t),
        "tree" => f_tree(t, false),
        "treechoice" => f_tree(t, true),
        "occ" => f_occ(t),
        "share" => f_share(if t == Tier::Quick { &[4, 3] } else { &[6, 5] }, false),
        "sharechoice" => f_share(if t == Tier::Quick { &[5, 3] } else { &[6, 5] }, true),
        "choice" => f_choice(t),
        "all" => f_all(t),
        "ext" => f_ext(t),
        "attr" => f_attr(t),
        "enum" => f_enum(t),
        "ident" => f_ident(t),
        "lit" => f_lit(t),
        "text" => f_text(t),
        "ns" => f_ns(t),
        "files" => f_files(t),
        "alias" => f_alias(t),
        "order" => f_order(t),
        "coll" => f_coll(t),
        "garbage" => f_garbage(t),
        "limits" => f_limits(),
        "scaleocc" => scale::occurrences(t),
        "scalechoice" => scale::alternatives(t),
        "scaleall" => scale::all_members(t),
        "scaleext" => scale::extension_chains(t),
        "scaleattr" => scale::attributes(t),
        "scaleenum" => scale::enum_values_many(t),
        "scaleident" => scale::long_names(t),
        "scalelit" => scale::magnitudes(t),
        "scaletext" => scale::long_texts(t),
        "scalecoll" => scale::collisions(t),
        "scalefiles" => scale::files_many(t),
        "farext" => far_ext(t),
        "faralias" => far_alias(t),
        "farcross" => far_cross(t),
        "farattr" => far(f_attr(Tier::Quick), t),
        "farchoice" => far(f_choice(Tier::Quick), t),
        "farall" => far(f_all(Tier::Quick), t),
        "roots" => roots(t),
        "rec" => f_rec(t),
        "union" => union(t),
        _ => panic!("no family {name}"),
    }
}

pub const FAMILIES: [&str; 40] = [
    "roots",    "rec",    "farext", "faralias", "farcross", "farattr", "farchoice", "farall",
    "scaleocc", "scalechoice", "scaleall", "scaleext", "scaleattr", "scaleenum", "scaleident", "scalelit", "scaletext", "scalecoll", "scalefiles",
    "share", "sharechoice",    "cross", "pairs", "tree", "treechoice", "occ", "choice", "all", "ext", "attr", "enum", "ident", "lit", "text", "ns", "files", "alias",
    "order", "coll", "garbage",
];

pub fn suites(prop: &str, t: Tier) -> Vec<Suite> {
    let fams: &[&str] = match prop {
        "C01" | "C02" | "C03" => return union(t),
        "C04" => {
            let mut v = union(t);
            v.extend(f_garbage(t));
            return v;
        }
        "C07" => &["ns"],
        "C08" => &["files", "scalefiles"],
        "C09" => &["enum", "scaleenum"],
        "C10" => &["ident", "scaleident"],
        "C11" => &["lit", "scalelit"],
        "C12" => &["all", "scaleall", "farall"],
        "C13" => &["tree", "occ", "share", "scaleocc"],
        "C14" => &["choice", "treechoice", "sharechoice", "scalechoice", "farchoice"],
        "C15" => &["ext", "scaleext", "farext"],
        "C16" => &["attr", "scaleattr", "farattr"],
        "C17" => &["text", "scaletext"],
        "C18" => &["coll", "limits", "scalecoll", "cross", "farcross"],
        "C20" => &["order"],
        "C22" => &["alias", "faralias", "rec", "roots"],
        f => return family(f, t),
    };
    // small families are always explored with all their schemas; the tier then only decides on the
    // number of documents
    let small = |f: &str| matches!(f, "choice" | "all" | "attr" | "enum" | "ns" | "files" | "coll" | "occ" | "order" | "lit" | "text" | "ident");
    fams.iter().flat_map(|f| family(f, if small(f) { Tier::Thorough } else { t })).collect()
}

pub fn aspects(prop: &str) -> Vec<Aspect> {
    use Aspect::*;
    match prop {
        "C01" => vec![RoundTrip],
        "C02" => vec![Decode],
        "C03" => vec![Encode],
        "C04" => vec![Reject, Panic],
        _ => vec![Decode, Reject, Encode, RoundTrip, Panic],
    }
}

pub fn part(prop: &str, t: Tier) -> Part {
    let invalid = !matches!(prop, "C01" | "C02" | "C03");
    Part { valid: prop != "C04", invalid, scale: if t == Tier::Thorough { 4 } else { 1 } }
}
