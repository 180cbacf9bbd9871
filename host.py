"""Host-module part of C23: every combination of visibility, attributes and content of the module the
macro is applied to, and every way to give it a wrong argument, compiled with the real macro.

A case is a small program; the positive ones have to compile, run and exit 0, the negative ones have
to be refused by the compiler with an error that matches."""
import itertools, os

XSD = """<?xml version="1.0"?>
<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">
  <xs:element name="root"><xs:complexType><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType></xs:element>
</xs:schema>
"""
BAD = """<?xml version="1.0"?>
<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">
  <xs:element name="root"
     nillable="true" type="xs:string"/>
</xs:schema>
"""
ILL = "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\">\n  <oops>\n</xs:schema>\n"

ROUND = ('let r = {p}::Root {{ a: 7 }}; let x = r.to_xml().unwrap(); '
         'assert_eq!({p}::Root::from_xml(std::str::from_utf8(&x).unwrap()).unwrap(), r);')

# visibility: text, usable next to the module, next to its parent, elsewhere in the crate
VIS = {
    "private": ("", (True, False, False)),
    "pub": ("pub ", (True, True, True)),
    "crate": ("pub(crate) ", (True, True, True)),
    "super": ("pub(super) ", (True, True, False)),
    "in": ("pub(in crate::top) ", (True, True, False)),
    "self": ("pub(self) ", (True, False, False)),
}
WHERE = ["next to the module", "next to its parent", "elsewhere in the crate"]
# attributes on the module: text before the macro, after it, extra statement for main, expected failure
ATTRS = {
    "none": ("", "", None),
    "allow": ("", "#[allow(dead_code, unused)]", None),
    "before": ("#[allow(dead_code)]", "", None),
    "doc": ("/// a module", "", None),
    "docafter": ("", "/// a module\n/// of two lines", None),
    "cfgyes": ("", "#[cfg(all())]", None),
    "two": ("#[allow(dead_code)]", "#[cfg(all())] #[allow(unused)]", None),
    "cfgno": ("", "#[cfg(any())]", "E0433|E0432|could not find|unresolved"),
    "deprecated": ("", '#[deprecated(note = "MARK")]', "MARK"),
    "third": ("", '#[allow(unused)] #[cfg(all())] #[deprecated(note = "MARK")]', "MARK"),
    "first": ("", '#[deprecated(note = "MARK")] #[allow(unused)] #[cfg(all())]', "MARK"),
    "around": ('#[deprecated(note = "MARK")]', '#[allow(unused)]', "MARK"),
    # of several lint levels the last one counts
    "order": ("", "#[deny(non_snake_case)] #[allow(non_snake_case)]", None),
    "disorder": ("", "#[allow(non_snake_case)] #[deny(non_snake_case)]", "Upper"),
}
# content: items, use of them with {p} for the path of the module
ITEMS = {
    "empty": ("", ""),
    "const": ("pub const K: u8 = 3;", "assert_eq!({p}::K, 3);"),
    "fn": ("pub fn mk() -> Root { Root { a: 5 } }", "assert_eq!({p}::mk().a, 5);"),
    "impl": ("impl Root { pub fn twice(&self) -> i64 { self.a as i64 * 2 } }", "assert_eq!({p}::Root {{ a: 4 }}.twice(), 8);"),
    "implafter": ("impl Default for Root { fn default() -> Self { Root { a: 1 } } }\npub struct Other(pub Root);",
                  "assert_eq!({p}::Other(Default::default()).0.a, 1);"),
    "use": ("pub use std::collections::BTreeMap as Map;", "let m: {p}::Map<u8, u8> = Default::default(); assert!(m.is_empty());"),
    "mod": ("pub mod inner { pub fn get(r: &super::Root) -> i32 { r.a } }", "assert_eq!({p}::inner::get(&{p}::Root {{ a: 6 }}), 6);"),
    "macro": ("macro_rules! nine { () => { 9 } }\npub fn nine() -> i32 { nine!() }", "assert_eq!({p}::nine(), 9);"),
    "trait": ("pub trait Named { fn name(&self) -> String; }\nimpl Named for Root { fn name(&self) -> String { \"root\".into() } }",
              "{{ use {p}::Named; assert_eq!({p}::Root {{ a: 1 }}.name(), \"root\"); }}"),
    "attrs": ("#[derive(Debug, Clone, PartialEq)] pub struct Kept { #[allow(unused)] pub x: u8 }\n#[cfg(any())] pub struct Root;",
              "assert_eq!({p}::Kept {{ x: 1 }}.clone(), {p}::Kept {{ x: 1 }});"),
    "many": ("pub const A: u8 = 1;\npub const B: u8 = A + 1;\npub static C: u8 = B;\npub type T = Root;\npub enum E { X, Y }",
             "assert_eq!(({p}::A, {p}::B, {p}::C), (1, 2, 2)); let _: {p}::T = {p}::Root {{ a: 1 }}; let _ = [{p}::E::X, {p}::E::Y];"),
    "innerorder": ("#![deny(non_upper_case_globals)]\n#![allow(non_upper_case_globals)]\npub const lower: u8 = 4;", "assert_eq!({p}::lower, 4);"),
    "innerlast": ("#![allow(unused)]\n#![doc = \"x\"]\n#![allow(non_upper_case_globals)]\npub const odd: u8 = 4;", "assert_eq!({p}::odd, 4);"),
    "inner": ("#![allow(dead_code)]\nfn unused() {}\npub const K: u8 = 4;", "assert_eq!({p}::K, 4);"),
}


def program(vis, attr, item, where, macro='#[xsd::all(schema = "good.xsd")]'):
    before, after, _ = ATTRS[attr]
    body, use = ITEMS[item]
    if attr in ("order", "disorder"):
        body += " pub fn Upper() {}"
    module = f"{before}\n{macro}\n{after}\n{VIS[vis][0]}mod host {{ {body} }}"
    path = "host" if where == 0 else "crate::top::outer::host"
    test = ROUND.format(p=path) + " " + use.format(p=path)
    deny = "#![deny(deprecated)]" if ATTRS[attr][2] == "MARK" else "#![deny(non_upper_case_globals)]" if item == "innerlast" else ""
    at = ["", "", ""]
    at[where] = f"pub fn check() {{ {test} }}"
    call = ["top::outer::check", "top::check", "check"][where] + "();"
    return f"{deny}\nmod top {{\npub mod outer {{\n{module}\n{at[0]}\n}}\n{at[1]}\n}}\n{at[2]}\nfn main() {{ {call} }}\n"


def cases(thorough):
    """(name, source, expected error (None: has to work))"""
    out = []
    for v, a, i in itertools.product(VIS, ATTRS, ITEMS):
        # quick: every pair of dimensions, not every triple
        if not thorough and [v != "pub", a != "none", i != "empty"].count(True) > 2:
            continue
        if not thorough and v == "self" and (a != "none" or i != "empty"):
            continue
        out.append((f"{v}/{a}/{i} used next to the module", program(v, a, i, 0), ATTRS[a][2]))
    for v in VIS:
        for i in ITEMS if thorough else ["empty", "const"]:
            for w in (1, 2):
                ok = VIS[v][1][w]
                out.append((f"{v}/{i} used {WHERE[w]}", program(v, "none", i, w), None if ok else "E0603|is private"))
    src = lambda m: f"{m} pub mod host {{}}\nfn main() {{}}\n"
    for name, m, err in [
        ("no argument", "#[xsd::all]", "schema"),
        ("empty argument list", "#[xsd::all()]", "schema"),
        ("no such file", '#[xsd::all(schema = "missing.xsd")]', r"missing\.xsd"),
        ("no such directory", '#[xsd::all(schema = "nodir/good.xsd")]', r"nodir/good\.xsd"),
        ("empty path", '#[xsd::all(schema = "")]', ""),
        ("a directory", '#[xsd::all(schema = "sub")]', "sub"),
        ("not a string", "#[xsd::all(schema = 5)]", ""),
        ("no value", "#[xsd::all(schema)]", ""),
        ("another property", '#[xsd::all(schema = "good.xsd", other = "x")]', "unsupported"),
        ("only another property", '#[xsd::all(file = "good.xsd")]', "unsupported"),
        ("not UTF-8", '#[xsd::all(schema = "latin.xsd")]', r"latin\.xsd"),
        ("ill-formed", '#[xsd::all(schema = "ill.xsd")]', r"ill\.xsd"),
        ("unsupported attribute", '#[xsd::all(schema = "bad.xsd")]', r"line 4 .*bad\.xsd.*nillable"),
        ("unsupported in an included file", '#[xsd::all(schema = "sub/incl.xsd")]', r"line 4 .*bad\.xsd.*nillable"),
        ("missing included file", '#[xsd::all(schema = "sub/gone.xsd")]', r"gone2\.xsd"),
    ]:
        out.append((name, src(m), err))
    for item in ["struct S;", "fn f() {}", "const K: u8 = 1;", "enum E {}"]:
        out.append((f"on {item}", f'#[xsd::all(schema = "good.xsd")] {item}\nfn main() {{}}\n', ""))
    out.append(("path in a subdirectory", '#[xsd::all(schema = "sub/good2.xsd")] mod host {}\nfn main() { ' + ROUND.format(p="host") + " }\n", None))
    out.append(("path with dots", '#[xsd::all(schema = "./sub/../good.xsd")] mod host {}\nfn main() { ' + ROUND.format(p="host") + " }\n", None))
    out.append(("trailing comma", '#[xsd::all(schema = "good.xsd",)] mod host {}\nfn main() { ' + ROUND.format(p="host") + " }\n", None))
    out.append(("two modules of one schema", '#[xsd::all(schema = "good.xsd")] mod host {}\n#[xsd::all(schema = "good.xsd")] mod host2 {}\nfn main() { '
                + ROUND.format(p="host") + ROUND.format(p="host2") + " }\n", None))
    return out


def files(d):
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    inc = lambda f: f'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:include schemaLocation="{f}"/></xs:schema>'
    for n, t in [("good.xsd", XSD), ("bad.xsd", BAD), ("ill.xsd", ILL), ("sub/good2.xsd", XSD), ("sub/incl.xsd", inc("../bad.xsd")), ("sub/gone.xsd", inc("gone2.xsd"))]:
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "latin.xsd"), "wb").write(XSD.replace("root", "r\u00f6\u00f6t").encode("latin-1"))
