//! Refusal of schemas: base schemas that together use every supported construct, and every single edit
//! of a catalogue at every place of them (an attribute or element that is not implemented there, a
//! required one removed, unusable values, undeclared prefixes, unknown built-in types), plus every
//! truncation and single-character deletion. Each edited schema has to be refused with the file and
//! the position of the edited place.

use crate::util::*;
use std::fs;
use xsd_internal::xsd::schema::{Schema, SchemaError};

pub const XS: &str = "http://www.w3.org/2001/XMLSchema";

#[derive(Clone, Debug, PartialEq)]
struct X {
    name: &'static str,
    attrs: Vec<(&'static str, String)>,
    kids: Vec<X>,
    text: String,
}

fn x(name: &'static str, attrs: &[(&'static str, &str)], kids: Vec<X>) -> X {
    X { name, attrs: attrs.iter().map(|(a, b)| (*a, b.to_string())).collect(), kids, text: String::new() }
}
fn doc() -> X {
    let mut d = x("documentation", &[], vec![]);
    d.text = "Some text.".into();
    x("annotation", &[], vec![d])
}
fn el(n: &str, t: &str) -> X {
    x("element", &[("name", n), ("type", t)], vec![])
}

/// `b:` stands for a built-in type, `n:` for a type or element of the schema.
fn bases() -> Vec<X> {
    let sch = |kids: Vec<X>| x("schema", &[], kids);
    vec![
        // elements: typed, referenced, anonymous, untyped; groups of all kinds
        sch(vec![
            x("include", &[("schemaLocation", "other.xsd")], vec![]),
            x("element", &[("name", "root")], vec![
                doc(),
                x("complexType", &[], vec![
                    x("sequence", &[("minOccurs", "0"), ("maxOccurs", "2")], vec![
                        x("element", &[("name", "typed"), ("type", "b:string"), ("minOccurs", "0"), ("maxOccurs", "unbounded")], vec![doc()]),
                        x("element", &[("ref", "n:other"), ("minOccurs", "1")], vec![]),
                        x("element", &[("name", "anon")], vec![x("complexType", &[], vec![x("sequence", &[], vec![el("deep", "b:int")])])]),
                        x("element", &[("name", "simple")], vec![x("simpleType", &[], vec![x("restriction", &[("base", "b:string")], vec![])])]),
                        x("element", &[("name", "untyped")], vec![]),
                        x("element", &[("name", "named"), ("type", "n:Named"), ("form", "unqualified"), ("default", "d")], vec![]),
                        x("element", &[("name", "fix"), ("type", "b:string"), ("fixed", "f")], vec![]),
                        x("sequence", &[("minOccurs", "0")], vec![el("s1", "b:decimal"), el("s2", "b:boolean")]),
                        x("choice", &[("minOccurs", "0"), ("maxOccurs", "3")], vec![
                            el("c1", "b:date"),
                            x("sequence", &[("minOccurs", "1")], vec![el("c2", "b:float"), el("c3", "b:any")]),
                        ]),
                    ]),
                    x("attribute", &[("name", "a1"), ("type", "b:string"), ("use", "required")], vec![doc()]),
                    x("attribute", &[("name", "a2"), ("type", "n:Code"), ("default", "x")], vec![]),
                    x("attribute", &[("name", "a3")], vec![x("simpleType", &[], vec![x("restriction", &[("base", "b:string")], vec![x("enumeration", &[("value", "v")], vec![])])])]),
                    x("attribute", &[("name", "a4"), ("type", "b:string"), ("fixed", "f")], vec![]),
                ]),
            ]),
            x("element", &[("name", "other"), ("type", "b:string"), ("fixed", "f")], vec![doc()]),
            x("element", &[("name", "alias"), ("type", "n:Named")], vec![]),
            x("element", &[("name", "scalar")], vec![x("simpleType", &[], vec![x("restriction", &[("base", "b:int")], vec![])])]),
            x("complexType", &[("name", "Named"), ("mixed", "false")], vec![doc(), x("sequence", &[], vec![el("in", "b:string")])]),
            x("simpleType", &[("name", "Code")], vec![doc(), x("restriction", &[("base", "b:string")], vec![])]),
        ]),
        // the other kinds of content
        sch(vec![
            x("element", &[("name", "root"), ("type", "n:Ext")], vec![]),
            x("complexType", &[("name", "Base")], vec![x("sequence", &[], vec![el("in", "b:string")]), x("attribute", &[("name", "b1"), ("type", "b:int")], vec![])]),
            x("complexType", &[("name", "Ext")], vec![x("complexContent", &[], vec![x("extension", &[("base", "n:Base")], vec![
                x("sequence", &[("minOccurs", "0")], vec![el("more", "b:string"), x("choice", &[], vec![el("l", "b:string"), el("r", "b:string")])]),
                x("attribute", &[("name", "e1"), ("type", "b:int"), ("use", "optional")], vec![]),
            ])])]),
            x("complexType", &[("name", "Money")], vec![doc(), x("simpleContent", &[], vec![x("extension", &[("base", "b:decimal")], vec![
                x("attribute", &[("name", "cur"), ("type", "b:string"), ("use", "required")], vec![]),
            ])])]),
            x("complexType", &[("name", "Pick")], vec![
                x("choice", &[], vec![el("one", "b:string"), x("element", &[("ref", "n:root")], vec![]), x("sequence", &[("minOccurs", "1"), ("maxOccurs", "2")], vec![el("two", "b:string")])]),
                x("attribute", &[("name", "p1"), ("type", "b:string")], vec![]),
            ]),
            x("complexType", &[("name", "Any")], vec![x("all", &[("minOccurs", "0")], vec![el("a", "b:string"), x("element", &[("name", "b"), ("type", "n:Facets"), ("minOccurs", "0")], vec![])])]),
            x("complexType", &[("name", "Empty")], vec![x("attribute", &[("name", "x1"), ("type", "b:boolean")], vec![])]),
            x("simpleType", &[("name", "Facets")], vec![x("restriction", &[("base", "b:string")], vec![
                x("length", &[("value", "1")], vec![]),
                x("minLength", &[("value", "1")], vec![]),
                x("maxLength", &[("value", "1")], vec![]),
                x("pattern", &[("value", "[a-z]")], vec![]),
            ])]),
            x("simpleType", &[("name", "Range")], vec![x("restriction", &[("base", "b:decimal")], vec![
                x("minInclusive", &[("value", "-1.5")], vec![]),
                x("maxInclusive", &[("value", "1.5")], vec![]),
                x("fractionDigits", &[("value", "1")], vec![]),
                x("totalDigits", &[("value", "1")], vec![]),
            ])]),
            x("simpleType", &[("name", "Enum")], vec![x("restriction", &[("base", "b:string")], vec![
                x("enumeration", &[("value", "a")], vec![]),
                x("enumeration", &[("value", "b")], vec![doc()]),
            ])]),
        ]),
    ]
}

const ATTRS: [(&str, &str); 33] = [
    ("id", "i1"), ("name", "nm"), ("ref", "n:other"), ("type", "b:string"), ("base", "b:string"), ("minOccurs", "1"), ("maxOccurs", "1"), ("default", "d"),
    ("fixed", "f"), ("form", "qualified"), ("nillable", "true"), ("abstract", "false"), ("block", "#all"), ("final", "#all"), ("substitutionGroup", "n:other"),
    ("use", "optional"), ("mixed", "false"), ("value", "v"), ("itemType", "b:string"), ("memberTypes", "b:string"), ("namespace", "##any"),
    ("processContents", "lax"), ("schemaLocation", "other.xsd"), ("source", "s"), ("targetNamespace", "urn:x"), ("elementFormDefault", "qualified"),
    ("xpath", "."), ("refer", "n:other"), ("public", "p"), ("system", "s"), ("Name", "nm"), ("minoccurs", "1"), ("foo", "bar"),
];

const ELEMENTS: [&str; 47] = [
    "all", "annotation", "any", "anyAttribute", "appinfo", "attribute", "attributeGroup", "choice", "complexContent", "complexType", "documentation", "element",
    "enumeration", "extension", "field", "fractionDigits", "group", "import", "include", "key", "keyref", "length", "list", "maxExclusive", "maxInclusive",
    "maxLength", "minExclusive", "minInclusive", "minLength", "notation", "pattern", "redefine", "restriction", "schema", "selector", "sequence", "simpleContent",
    "simpleType", "totalDigits", "union", "unique", "whiteSpace", "override", "assert", "alternative", "Element", "foo",
];

const FACETS: [&str; 9] = ["length", "minLength", "maxLength", "pattern", "minInclusive", "maxInclusive", "fractionDigits", "totalDigits", "enumeration"];

/// What is implemented at a place: attributes (None: any, they are not interpreted), children (None:
/// not looked at) and children of which a second one is one too many.
fn spec(path: &[&X]) -> (Option<Vec<&'static str>>, Option<Vec<&'static str>>, Vec<&'static str>) {
    let node = path[path.len() - 1];
    let parent = if path.len() > 1 { path[path.len() - 2].name } else { "" };
    let has = |a: &str| node.attrs.iter().any(|x| x.0 == a);
    let builtin = node.attrs.iter().any(|a| a.0 == "type" && a.1.starts_with("b:"));
    if path[..path.len() - 1].iter().any(|n| FACETS.contains(&n.name)) {
        // (nothing below a facet is interpreted)
        return (None, None, vec![]);
    }
    match node.name {
        "schema" => (None, Some(vec!["include", "import", "element", "complexType", "simpleType"]), vec![]),
        "include" | "import" => (None, None, vec![]),
        "element" => {
            let mut a = vec![];
            let mut k = vec!["annotation"];
            if parent == "schema" {
                a.push("name");
                if has("type") {
                    a.push("type");
                    if builtin {
                        a.push("fixed");
                    }
                } else {
                    k.extend(["complexType", "simpleType"]);
                }
            } else {
                a.extend(["minOccurs", "maxOccurs"]);
                if has("ref") {
                    // (nothing below a reference is interpreted)
                    return (Some([a, vec!["ref"]].concat()), None, vec![]);
                }
                a.extend(["name", "form", "default"]);
                if !node.kids.iter().any(|k| k.name != "annotation") {
                    a.push("type");
                    if builtin {
                        a.push("fixed");
                    }
                }
                if !has("type") {
                    k.extend(["complexType", "simpleType"]);
                }
            }
            (Some(a), Some(k), vec!["annotation", "complexType", "simpleType"])
        }
        "complexType" => {
            let mut a = vec!["mixed"];
            if parent == "schema" {
                a.push("name");
            }
            let special = node.kids.iter().any(|k| matches!(k.name, "simpleContent" | "complexContent"));
            let k = if special { vec!["annotation"] } else { vec!["annotation", "attribute", "sequence", "all", "choice"] };
            (Some(a), Some(k), vec!["annotation", "sequence", "all", "choice"])
        }
        "simpleType" => (Some(if parent == "schema" { vec!["name"] } else { vec![] }), Some(vec!["annotation", "restriction"]), vec!["annotation", "restriction"]),
        "restriction" => (None, Some(FACETS.to_vec()), vec![]),
        f if FACETS.contains(&f) => (None, None, vec![]),
        "simpleContent" | "complexContent" => (Some(vec![]), Some(vec!["extension"]), vec!["extension"]),
        "extension" if parent == "simpleContent" => (None, Some(vec!["attribute"]), vec![]),
        "extension" => (None, Some(vec!["attribute", "sequence"]), vec!["sequence"]),
        "attribute" => {
            let mut a = vec!["name", "default", "use"];
            if node.kids.iter().any(|k| k.name == "simpleType") {
                (Some(a), Some(vec!["annotation", "simpleType"]), vec!["annotation", "simpleType"])
            } else {
                a.push("type");
                if builtin {
                    a.push("fixed");
                }
                (Some(a), Some(vec!["annotation"]), vec!["annotation"])
            }
        }
        "sequence" => (
            Some(if matches!(parent, "complexType" | "choice") { vec!["minOccurs", "maxOccurs"] } else { vec!["minOccurs"] }),
            Some(vec!["element", "choice", "sequence", "annotation"]),
            vec![],
        ),
        "all" => (Some(vec!["minOccurs", "maxOccurs"]), Some(vec!["element", "choice", "sequence", "annotation"]), vec![]),
        "choice" => (
            Some(if parent == "complexType" { vec![] } else { vec!["minOccurs", "maxOccurs"] }),
            Some(vec!["element", "sequence", "annotation"]),
            vec![],
        ),
        "annotation" => (Some(vec![]), Some(vec!["documentation"]), vec![]),
        "documentation" => (None, None, vec![]),
        n => panic!("{n}"),
    }
}

/// Attributes that have to be there, and children.
fn required(path: &[&X]) -> (Vec<&'static str>, Vec<&'static str>) {
    let node = path[path.len() - 1];
    let parent = if path.len() > 1 { path[path.len() - 2].name } else { "" };
    match node.name {
        "include" => (vec!["schemaLocation"], vec![]),
        "element" if parent == "schema" && node.attrs.iter().any(|a| a.0 == "fixed") => (vec!["name"], vec![]),
        "element" if parent == "schema" => (vec!["name", "type"], vec!["complexType", "simpleType"]),
        "element" => (vec!["name", "ref"], vec![]),
        "complexType" => (vec!["name"], vec![]),
        "simpleType" => (vec!["name"], vec!["restriction"]),
        "restriction" | "extension" => (vec!["base"], vec![]),
        "attribute" => (vec!["name", "type"], vec!["simpleType"]),
        "simpleContent" | "complexContent" => (vec![], vec!["extension"]),
        f if FACETS.contains(&f) => (vec!["value"], vec![]),
        _ => (vec![], vec![]),
    }
}

fn bad_values(path: &[&X], attr: &str) -> Vec<&'static str> {
    let node = path[path.len() - 1];
    let parent = if path.len() > 1 { path[path.len() - 2].name } else { "" };
    let types = ["zz:string", "zz:Foo", "b:double", "b:token", "b:NMTOKEN", "b:anyURI", "b:foo", "b:String", "b:"];
    match (node.name, attr) {
        (_, "minOccurs") => vec!["x", "-1", "", "1.5", "unbounded", "4294967296"],
        (_, "maxOccurs") => vec!["x", "-1", "", "1.5", "Unbounded", "4294967296"],
        (_, "use") => vec!["x", "", "Required"],
        (_, "mixed") => vec!["true", "1", "x"],
        (_, "form") => vec!["x", ""],
        ("element" | "attribute", "type") => types.to_vec(),
        ("element", "ref") => vec!["zz:other", "b:string", "b:foo"],
        ("extension", "base") if parent == "complexContent" => vec!["zz:Base", "b:string", "b:foo"],
        ("extension", "base") => types.to_vec(),
        ("restriction", "base") => [types.to_vec(), vec!["n:Code", "n:Enum"]].concat(),
        ("length" | "minLength" | "maxLength" | "fractionDigits" | "totalDigits", "value") => vec!["x", "-1", "", "1.5"],
        ("minInclusive" | "maxInclusive", "value") => vec!["x", "", "1,5", "2000-01-01"],
        _ => vec![],
    }
}

/// A place of a document: path of child indices, and an attribute.
type Place = (Vec<usize>, Option<String>);

#[derive(Clone, Debug)]
struct Edit {
    what: String,
    doc: X,
    /// where the error may point to
    at: Vec<Place>,
}

fn node_mut<'a>(d: &'a mut X, path: &[usize]) -> &'a mut X {
    path.iter().fold(d, |n, i| &mut n.kids[*i])
}

fn all_paths(d: &X, here: Vec<usize>, v: &mut Vec<Vec<usize>>) {
    v.push(here.clone());
    for (i, k) in d.kids.iter().enumerate() {
        all_paths(k, [here.clone(), vec![i]].concat(), v);
    }
}

fn chain<'a>(d: &'a X, path: &[usize]) -> Vec<&'a X> {
    let mut v = vec![d];
    for i in path {
        v.push(&v[v.len() - 1].kids[*i]);
    }
    v
}

fn inserted(name: &'static str) -> X {
    match name {
        "annotation" => doc(),
        "include" | "import" | "redefine" | "override" => x(name, &[("schemaLocation", "other.xsd")], vec![]),
        "element" | "attribute" => x(name, &[("name", "ins"), ("type", "b:string")], vec![]),
        "restriction" | "extension" => x(name, &[("base", "b:string")], vec![]),
        n if FACETS.contains(&n) || ["minExclusive", "maxExclusive", "whiteSpace"].contains(&n) => x(name, &[("value", "1")], vec![]),
        "group" | "attributeGroup" | "notation" | "key" | "unique" | "keyref" | "Element" | "foo" | "schema" => x(name, &[("name", "ins")], vec![]),
        "sequence" | "choice" | "all" => x(name, &[], vec![el("ins", "b:string")]),
        "simpleType" => x(name, &[], vec![x("restriction", &[("base", "b:string")], vec![])]),
        "documentation" => doc().kids.remove(0),
        _ => x(name, &[], vec![]),
    }
}

fn edits(base: &X) -> Vec<Edit> {
    let mut v = vec![];
    let mut paths = vec![];
    all_paths(base, vec![], &mut paths);
    for p in &paths {
        let c = chain(base, p);
        let node = c[c.len() - 1];
        let here: Place = (p.clone(), None);
        let (attrs, kids, once) = spec(&c);
        if let Some(ok) = attrs {
            for (a, val) in ATTRS {
                if ok.contains(&a) || node.attrs.iter().any(|x| x.0 == a) {
                    continue;
                }
                for first in [true, false] {
                    let mut d = base.clone();
                    let n = node_mut(&mut d, p);
                    n.attrs.insert(if first { 0 } else { n.attrs.len() }, (a, val.to_string()));
                    let mut at = vec![(p.clone(), Some(a.to_string())), here.clone()];
                    // an attribute that makes what is already there superfluous
                    if matches!(a, "ref" | "type" | "name" | "base") {
                        at.extend(node.attrs.iter().map(|x| (p.clone(), Some(x.0.to_string()))));
                        at.extend((0..node.kids.len()).map(|i| ([p.clone(), vec![i]].concat(), None)));
                    }
                    v.push(Edit { what: format!("attribute {a} added to {}", name_of(&c)), doc: d, at });
                }
            }
        }
        if let Some(ok) = kids {
            for e in ELEMENTS {
                let again = once.contains(&e) && node.kids.iter().any(|k| k.name == e);
                // two content models next to each other
                let model = ["sequence", "all", "choice"];
                let second = node.name == "complexType" && model.contains(&e) && node.kids.iter().any(|k| model.contains(&k.name));
                let two_types = node.name == "element" && matches!(e, "complexType" | "simpleType") && node.kids.iter().any(|k| matches!(k.name, "complexType" | "simpleType"));
                if ok.contains(&e) && !again && !second && !two_types {
                    continue;
                }
                for i in 0..=node.kids.len() {
                    let mut d = base.clone();
                    node_mut(&mut d, p).kids.insert(i, inserted(e));
                    let mut at = vec![([p.clone(), vec![i]].concat(), None)];
                    if again || second || two_types || matches!(e, "simpleContent" | "complexContent") {
                        at.extend((0..=node.kids.len()).map(|i| ([p.clone(), vec![i]].concat(), None)));
                    }
                    if e == "simpleType" && node.name == "attribute" {
                        // either of the two types of the attribute is one too many
                        at.push(here.clone());
                        at.extend(node.attrs.iter().map(|x| (p.clone(), Some(x.0.to_string()))));
                    }
                    v.push(Edit { what: format!("element {e} added to {} at {i}", name_of(&c)), doc: d, at });
                }
            }
        }
        let (ra, rk) = required(&c);
        for a in ra {
            if let Some(i) = node.attrs.iter().position(|x| x.0 == a) {
                let mut d = base.clone();
                node_mut(&mut d, p).attrs.remove(i);
                v.push(Edit { what: format!("attribute {a} removed from {}", name_of(&c)), doc: d, at: vec![here.clone()] });
            }
        }
        for k in rk {
            if let Some(i) = node.kids.iter().position(|x| x.name == k) {
                let mut d = base.clone();
                node_mut(&mut d, p).kids.remove(i);
                v.push(Edit { what: format!("element {k} removed from {}", name_of(&c)), doc: d, at: vec![here.clone()] });
            }
        }
        for (i, (a, _)) in node.attrs.iter().enumerate() {
            for val in bad_values(&c, a) {
                let mut d = base.clone();
                node_mut(&mut d, p).attrs[i].1 = val.to_string();
                v.push(Edit { what: format!("{a}=\"{val}\" in {}", name_of(&c)), doc: d, at: vec![(p.clone(), Some(a.to_string())), here.clone()] });
            }
        }
        if node.name == "attribute" && node.attrs.iter().any(|a| a.0 == "default") {
            let mut d = base.clone();
            node_mut(&mut d, p).attrs.push(("use", "required".into()));
            v.push(Edit { what: format!("default and required in {}", name_of(&c)), doc: d, at: ["default", "use"].iter().map(|a| (p.clone(), Some(a.to_string()))).chain([here.clone()]).collect() });
        }
    }
    for (a, vals) in [("elementFormDefault", vec!["x", ""]), ("attributeFormDefault", vec!["qualified", "x", ""])] {
        for val in vals {
            let mut d = base.clone();
            d.attrs.push((a, val.to_string()));
            let mut at = vec![(vec![], Some(a.to_string())), (vec![], None)];
            if val == "qualified" {
                // only attributes of a schema with a target namespace are affected
                at.extend(paths.iter().filter(|p| chain(base, p)[p.len()].name == "attribute").map(|p| (p.clone(), None)));
            }
            v.push(Edit { what: format!("{a}=\"{val}\""), doc: d, at });
        }
    }
    for n in ["Schema", "element", "foo"] {
        let mut d = base.clone();
        d.name = n;
        v.push(Edit { what: format!("root element {n}"), doc: d, at: vec![(vec![], None)] });
    }
    v
}

fn name_of(c: &[&X]) -> String {
    c.iter()
        .map(|n| match n.attrs.iter().find(|a| a.0 == "name" || a.0 == "ref") {
            Some(a) => format!("{}({})", n.name, a.1),
            None => n.name.to_string(),
        })
        .collect::<Vec<_>>()
        .join("/")
}

/// How the schema is written down.
#[derive(Clone, Copy, Debug)]
struct Style {
    /// the XSD namespace is the default namespace, the target namespace has a prefix
    default: bool,
    /// every attribute on a line of its own
    spread: bool,
    /// a declaration, a comment with multi-byte characters, tabs
    noise: bool,
}

struct Rendered {
    text: String,
    places: Vec<(Place, u32, u32)>,
}

fn render(d: &X, st: Style) -> Rendered {
    struct R {
        st: Style,
        out: String,
        row: u32,
        col: u32,
        places: Vec<(Place, u32, u32)>,
    }
    impl R {
        fn put(&mut self, s: &str) {
            for c in s.chars() {
                self.out.push(c);
                if c == '\n' {
                    self.row += 1;
                    self.col = 1;
                } else {
                    self.col += 1;
                }
            }
        }
        fn node(&mut self, n: &X, path: &mut Vec<usize>) {
            let indent = if self.st.noise { "\t".repeat(path.len()) } else { "  ".repeat(path.len()) };
            self.put(&indent);
            if self.st.noise && path.len() % 2 == 1 {
                self.put("<!-- é日 -->");
            }
            let p = if self.st.default { "" } else { "xs:" };
            self.places.push(((path.clone(), None), self.row, self.col));
            self.put(&format!("<{p}{}", n.name));
            if path.is_empty() {
                if self.st.default {
                    self.put(&format!(" xmlns=\"{XS}\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\""));
                } else {
                    self.put(&format!(" xmlns:xs=\"{XS}\""));
                }
            }
            for (a, v) in &n.attrs {
                if self.st.spread {
                    self.put("\n");
                    self.put(&indent);
                    self.put("    ");
                } else {
                    self.put(" ");
                }
                self.places.push(((path.clone(), Some(a.to_string())), self.row, self.col));
                let v = match (v.split_once(':'), self.st.default) {
                    (Some(("b", l)), true) => l.to_string(),
                    (Some(("b", l)), false) => format!("xs:{l}"),
                    (Some(("n", l)), true) => format!("t:{l}"),
                    (Some(("n", l)), false) => l.to_string(),
                    _ => v.clone(),
                };
                self.put(&format!("{a}=\"{v}\""));
            }
            if n.kids.is_empty() && n.text.is_empty() {
                self.put("/>\n");
                return;
            }
            self.put(">");
            self.put(&n.text);
            if !n.kids.is_empty() {
                self.put("\n");
                for (i, k) in n.kids.iter().enumerate() {
                    path.push(i);
                    self.node(k, path);
                    path.pop();
                }
                self.put(&indent);
            }
            self.put(&format!("</{p}{}>\n", n.name));
        }
    }
    let mut r = R { st, out: String::new(), row: 1, col: 1, places: vec![] };
    if st.noise {
        r.put("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- Ünïcödé -->\n");
    }
    r.node(d, &mut vec![]);
    Rendered { text: r.out, places: r.places }
}

enum Res {
    Ok,
    Panic(String),
    Err(SchemaError),
}

fn load(path: &std::path::Path) -> Res {
    match guarded(|| Schema::parse_file(path).and_then(|s| s.generate_all().map(|_| ()))) {
        Err(p) => Res::Panic(p),
        Ok(Ok(())) => Res::Ok,
        Ok(Err(e)) => Res::Err(e),
    }
}

const OTHER: &str = "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:simpleType name=\"FromOther\"><xs:restriction base=\"xs:string\"/></xs:simpleType></xs:schema>";

pub fn run(o: &Out, thorough: bool) {
    let styles: Vec<Style> = if thorough {
        (0..8).map(|i| Style { default: i & 1 == 1, spread: i & 2 == 2, noise: i & 4 == 4 }).collect()
    } else {
        vec![Style { default: false, spread: false, noise: false }, Style { default: true, spread: true, noise: true }]
    };
    for k in 0..LANES {
        let d = o.dir.join(format!("lane{k}"));
        fs::create_dir_all(&d).unwrap();
        fs::write(d.join("other.xsd"), OTHER).unwrap();
        fs::write(
            d.join("outer.xsd"),
            format!("<xs:schema xmlns:xs=\"{XS}\">\n\n\n\n  <xs:element name=\"outer\" type=\"xs:string\"/>\n <xs:include schemaLocation=\"inner.xsd\"/></xs:schema>"),
        )
        .unwrap();
    }
    let bases = bases();
    // the unedited schemas are accepted in every style
    for (i, b) in bases.iter().enumerate() {
        for st in &styles {
            let p = o.dir.join("lane0/inner.xsd");
            fs::write(&p, render(b, *st).text).unwrap();
            o.add("states", 1);
            match load(&p) {
                Res::Ok => {}
                Res::Panic(m) => o.finding("base", render(b, *st).text, format!("base schema {i}: panic: {m}")),
                Res::Err(e) => o.finding("base", render(b, *st).text, format!("base schema {i} is refused: {e}")),
            }
        }
    }
    let mut all: Vec<(Edit, Style)> = vec![];
    for b in &bases {
        for e in edits(b) {
            for st in &styles {
                // (without target namespace the form of attributes makes no difference)
                if e.what == "attributeFormDefault=\"qualified\"" && !st.default {
                    continue;
                }
                all.push((e.clone(), *st));
            }
        }
    }
    o.sample(all[all.len() / 2].0.what.clone());
    o.sample(all[all.len() / 3].0.what.clone());
    lanes(&all, |k, (e, st)| {
        let dir = o.dir.join(format!("lane{k}"));
        let r = render(&e.doc, *st);
        o.progress(k, &e.what);
        for outer in [false, true] {
            let p = dir.join("inner.xsd");
            if !outer {
                fs::write(&p, &r.text).unwrap();
            }
            o.add("states", 1);
            // refused, file, position, message
            o.add("transitions", 4);
            o.add("traces", 1);
            let fail = |m: String| o.finding("edit", format!("{}: {}\n{}", e.what, if outer { "in an included file" } else { "in the main file" }, r.text), m);
            match load(&if outer { dir.join("outer.xsd") } else { p }) {
                Res::Ok => fail("accepted".into()),
                Res::Panic(m) => fail(format!("panic: {m}")),
                Res::Err(err) => {
                    let SchemaError::Xsd { file, row, col, .. } = &err else {
                        fail(format!("refused without a position: {err}"));
                        continue;
                    };
                    let text = err.to_string();
                    if !file.ends_with("inner.xsd") || !text.contains("inner.xsd") {
                        fail(format!("the error names {file}: {err}"));
                    }
                    let at: Vec<(u32, u32)> = e.at.iter().filter_map(|a| r.places.iter().find(|p| p.0 == *a)).map(|p| (p.1, p.2)).collect();
                    assert!(!at.is_empty(), "no place for {}", e.what);
                    if !at.contains(&(*row, *col)) {
                        fail(format!("the error points to {row}:{col} instead of one of {at:?}: {err}"));
                    }
                    if !text.contains(&row.to_string()) || !text.contains(&col.to_string()) {
                        fail(format!("the message does not give row and column: {text}"));
                    }
                }
            }
            if !thorough && !outer && st.default {
                break;
            }
        }
    });
    // damaged text: every truncation and every deletion of one character
    let mut damaged: Vec<String> = vec![];
    for (i, b) in bases.iter().enumerate() {
        let text = render(b, Style { default: i == 1, spread: false, noise: i == 1 }).text;
        let ix: Vec<usize> = text.char_indices().map(|c| c.0).collect();
        for w in ix.windows(2) {
            damaged.push(text[..w[0]].to_string());
            damaged.push(format!("{}{}", &text[..w[0]], &text[w[1]..]));
            if thorough {
                for c in ["<", "&", "\"", ">", "/", " ", "\u{1}"] {
                    damaged.push(format!("{}{c}{}", &text[..w[0]], &text[w[0]..]));
                }
            }
        }
    }
    lanes(&damaged, |k, text| {
        o.progress(k, text);
        o.add("states", 1);
        o.add("transitions", 1);
        let p = o.dir.join(format!("lane{k}/inner.xsd"));
        fs::write(&p, text).unwrap();
        let wf = roxmltree::Document::parse(text).err();
        match (load(&p), wf) {
            (Res::Panic(m), _) => o.finding("damaged", text.clone(), format!("panic: {m}")),
            (Res::Ok, Some(e)) => o.finding("damaged", text.clone(), format!("accepted although it is not well-formed: {e}")),
            (Res::Err(err), Some(e)) => {
                o.add("traces", 1);
                o.add("transitions", 1);
                match &err {
                    SchemaError::Xsd { file, row, col, .. } if file.ends_with("inner.xsd") && (*row, *col) == (e.pos().row, e.pos().col) => {}
                    err => o.finding("damaged", text.clone(), format!("not well-formed at {}, but refused with: {err}", e.pos())),
                }
            }
            _ => {}
        }
    });
}
