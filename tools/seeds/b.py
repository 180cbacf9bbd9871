XS = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>\n%s\n</xs:schema>\n'
def xs(body, attrs=""):
    return XS % (attrs, body)
M = '#[xsd::all(schema = "schema.xsd")]\nmod m {}\n'
I = "xsd-internal/src/"
def root(body):
    return '<xs:element name="Root"><xs:complexType>%s</xs:complexType></xs:element>' % body
GEN = '''use xsd::internal::xsd::schema::Schema;
fn gen(src: &str) -> Result<String, String> {
    let s = Schema::parse(src, "schema.xsd").map_err(|e| e.to_string())?;
    s.generate_all().map(|t| t.to_string()).map_err(|e| e.to_string())
}
'''
SEEDS = [
dict(id="b01-peek-back", property="C05",
  edits=[("xsd/src/decode.rs", "                .peeked\n                .pop_front()", "                .peeked\n                .pop_back()")],
  needs="an any-order lookup that passes over at least two children, then a peek",
  breaks="peeking takes the last of the passed-over children to be the next one",
  files={}, main='''fn main() {
    let doc = xsd::decode::decode("<r><a/><b/><c/></r>").unwrap();
    let r = doc.try_child("r", None).unwrap();
    assert!(r.child("c", None).is_some());
    assert!(r.peek_child("a", None), "a comes next");
    assert!(r.next_child("a", None).is_some());
}
'''),
dict(id="b02-namespaces-kept", property="C06",
  edits=[("xsd/src/lib.rs", "let namespace = mem::replace(&mut inner.namespace, Namespace::empty());", "let namespace = inner.namespace.clone();")],
  needs="two start tags through one context; the writer hides the repetition unless the declaration is out of scope again",
  breaks="declarations made before an earlier start tag are written again",
  files={}, main='''use xsd::xml::writer::EmitterConfig;
fn main() {
    let mut body = Vec::new();
    let mut w = EmitterConfig::new().write_document_declaration(false).create_writer(&mut body);
    w.write(xsd::xml::writer::XmlEvent::start_element("o")).unwrap();
    let mut ctx = xsd::Context::new("a");
    ctx.set_ns("p", "urn:p");
    for _ in 0..2 {
        ctx.write_start_element(&mut w).unwrap();
        ctx.write_end_element(&mut w).unwrap();
    }
    w.write(xsd::xml::writer::XmlEvent::end_element()).unwrap();
    let s = String::from_utf8(body).unwrap();
    assert_eq!(s.matches("urn:p").count(), 1, "{s}");
}
'''),
dict(id="b03-namespace-case", property="C07",
  edits=[(I+"ast/namespaces.rs", "if let Some(id) = self.by_namespace.get(namespace) {", "if let Some(id) = self.by_namespace.get(&namespace.to_lowercase()) {"),
         (I+"ast/namespaces.rs", "self.by_namespace.insert(namespace.to_string(), id);", "self.by_namespace.insert(namespace.to_lowercase(), id);")],
  needs="two namespaces that differ only in upper and lower case",
  breaks="both are taken for the same namespace",
  files={"schema.xsd": xs('<xs:import namespace="urn:A" schemaLocation="b.xsd"/>'+root('<xs:sequence><xs:element ref="b:item"/></xs:sequence>'), ' targetNamespace="urn:a" xmlns:b="urn:A"'),
         "b.xsd": xs('<xs:element name="item" type="xs:string"/>', ' targetNamespace="urn:A"')},
  main=M+'''fn main() {
    assert!(m::Root::from_xml("<Root xmlns='urn:a'><item xmlns='urn:A'>x</item></Root>").is_ok());
    assert!(m::Root::from_xml("<Root xmlns='urn:a'><item>x</item></Root>").is_err());
}
'''),
dict(id="b04-location-file-name", property="C08",
  edits=[(I+"xsd/schema.rs", "path.push(location);", 'path.push(location.strip_prefix("./").unwrap_or(location).replace("../", ""));')],
  needs="a file in a subdirectory that includes one of a directory above",
  breaks="the file is looked for in the directory of the including file",
  files={"schema.xsd": xs('<xs:include schemaLocation="sub/b.xsd"/><xs:element name="Root" type="B"/>'),
         "sub/b.xsd": xs('<xs:include schemaLocation="../c.xsd"/><xs:complexType name="B"><xs:sequence><xs:element name="c" type="C"/></xs:sequence></xs:complexType>'),
         "c.xsd": xs('<xs:simpleType name="C"><xs:restriction base="xs:int"/></xs:simpleType>')},
  main=M+'''fn main() {
    assert!(m::Root::from_xml("<Root><c>1</c></Root>").is_ok());
}
'''),
dict(id="b05-variant-number-once", property="C09",
  edits=[(I+"ast/root.rs", '''        loop {
            if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
                unknown_count += 1;
                variant_name = format!("Variant{}", unknown_count);
            } else {
                break;
            }
        }
''', '''        if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
            unknown_count += 1;
            variant_name = format!("Variant{}", unknown_count);
        }
''')],
  needs="a value without usable characters after a value `Variant1`",
  breaks="one of the two values has no variant any more",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="Variant1"/><xs:enumeration value="+"/></xs:restriction></xs:simpleType></xs:element>')},
  main=M+'''fn main() {
    let a: m::Root = "Variant1".parse().unwrap();
    let b: m::Root = "+".parse().unwrap();
    assert!(a != b);
}
'''),
dict(id="b07-positive-signed", property="C11",
  edits=[(I+"xsd/context.rs", '"positiveInteger" => LiteralType::Uint64,', '"positiveInteger" => LiteralType::Int64,')],
  needs="a positiveInteger beyond the range of a signed 64-bit number",
  breaks="the value is refused",
  files={"schema.xsd": xs('<xs:element name="Root" type="xs:positiveInteger"/>')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root>18446744073709551615</Root>").unwrap();
    assert_eq!(v.0 as i128, 18446744073709551615);
}
'''),
dict(id="b08-all-literals-only", property="C12",
  edits=[(I+"xsd/parse/complex_type.rs", "                leaf.is_unordered = true;", "                leaf.is_unordered = !matches!(leaf.definition.content, LeafContent::Fixed(_));")],
  needs="an all group with a member of a fixed value that does not come first",
  breaks="the member is only found at its declared place",
  files={"schema.xsd": xs(root('<xs:all><xs:element name="a" type="xs:string" fixed="x"/><xs:element name="b" type="xs:int"/></xs:all>'))},
  main=M+'''fn main() {
    assert!(m::Root::from_xml("<Root><b>1</b><a>x</a></Root>").is_ok());
}
'''),
dict(id="b09-empty-group-list", property="C13",
  edits=[(I+"ast/leaf.rs", '''                if self.is_optional() {
                    value = quote! {
                        let val = #value;
                        if val.is_empty() {
                            None
                        } else {
                            Some(val)
                        }
                    }
                }
            } else''', '''                if self.is_optional() {
                    value = quote! { Some(#value) };
                }
            } else''')],
  needs="an optional repeated group that does not occur",
  breaks="the group is read as present with no occurrence",
  files={"schema.xsd": xs(root('<xs:sequence><xs:choice minOccurs="0" maxOccurs="unbounded"><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/></xs:choice></xs:sequence>'))},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root/>").unwrap();
    assert!(format!("{v:?}").contains("None"), "{v:?}");
}
'''),
dict(id="b10-choice-lookahead", property="C14",
  edits=[(I+"ast/root.rs", '''                let checks = variants.iter().map(|variant| {
                    if variant.is_virtual {''', '''                let checks = variants.iter().filter(|variant| !variant.is_vec()).map(|variant| {
                    if variant.is_virtual {''')],
  needs="an optional choice whose repeated alternative is there",
  breaks="the choice is taken for absent",
  files={"schema.xsd": xs(root('<xs:sequence><xs:choice minOccurs="0"><xs:element name="a" type="xs:int" maxOccurs="unbounded"/><xs:element name="b" type="xs:int"/></xs:choice></xs:sequence>'))},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root><a>1</a><a>2</a></Root>").unwrap();
    assert!(format!("{v:?}").contains("A([1, 2])"), "{v:?}");
}
'''),
dict(id="b11-extension-required", property="C15",
  edits=[(I+"xsd/parse/complex_content.rs", '''            is_virtual: true,
            min_occurs,
            max_occurs: MaxOccurs::default(),
        });''', '''            is_virtual: true,
            min_occurs: if base_name.namespace == ctx.target_namespace() { min_occurs } else { MinOccurs::default() },
            max_occurs: MaxOccurs::default(),
        });''')],
  needs="an optional sequence that extends a type of another namespace and does not occur",
  breaks="the document is refused",
  files={"schema.xsd": xs('<xs:import namespace="urn:b" schemaLocation="b.xsd"/>'+root('<xs:complexContent><xs:extension base="b:B"><xs:sequence minOccurs="0"><xs:element name="y" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent>'), ' targetNamespace="urn:a" xmlns:b="urn:b"'),
         "b.xsd": xs('<xs:complexType name="B"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>', ' targetNamespace="urn:b"')},
  main=M+'''fn main() {
    assert!(m::Root::from_xml("<a:Root xmlns:a='urn:a'><x>1</x></a:Root>").is_ok());
    assert!(m::Root::from_xml("<a:Root xmlns:a='urn:a'><x>1</x><y>2</y></a:Root>").is_ok());
}
'''),
dict(id="b12-fixed-trimmed", property="C16",
  edits=[(I+"xsd/parse/attribute.rs", "*content = LeafContent::Fixed(attr.value().to_string());", "*content = LeafContent::Fixed(attr.value().trim().to_string());")],
  needs="an attribute whose fixed value starts or ends with a blank",
  breaks="the fixed text is refused and another is written",
  files={"schema.xsd": xs(root('<xs:attribute name="f" type="xs:string" fixed="x " use="required"/>'))},
  main=M+'''fn main() {
    assert!(m::Root::from_xml("<Root f='x '/>").is_ok());
    assert!(m::Root::from_xml("<Root f='x'/>").is_err());
}
'''),
dict(id="b13-no-escaping", property="C17",
  edits=[(I+"xsd/schema.rs", "                        .perform_indent(true)\n", "                        .perform_indent(true)\n                        .perform_escaping(false)\n")],
  needs="a text with a markup character, encoded",
  breaks="the encoded document is not well-formed or carries another text",
  files={"schema.xsd": xs('<xs:element name="Root" type="xs:string"/>')},
  main=M+'''fn main() {
    let v = m::Root("a<b&amp;".to_string());
    let x = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert_eq!(m::Root::from_xml(&x).unwrap(), v);
}
'''),
dict(id="b14-restricted-inlined", property="C18",
  edits=[(I+"xsd/schema.rs", "        for name in self.context.elements.keys() {\n", '''        for (name, root) in &self.context.elements {
            // restricted literals are used in place
            if matches!(root, Root::Leaf(def) if !def.restrictions.is_empty()) {
                continue;
            }
''')],
  needs="a named simple type with a facet, used by name in Rust",
  breaks="no Rust type is generated for it",
  files={"schema.xsd": xs('<xs:simpleType name="Short"><xs:restriction base="xs:string"><xs:maxLength value="3"/></xs:restriction></xs:simpleType><xs:element name="Root" type="Short"/>')},
  main=M+'''fn main() {
    let s = m::Short("abc".to_string());
    let r = m::Root("abc".to_string());
    assert_eq!(s.0, r.0);
}
'''),
dict(id="b15-id-ignored", property="C19",
  edits=[(I+"xsd/node.rs", "if attr.namespace().is_none() && !attr.visited.get() {", 'if attr.namespace().is_none() && !attr.visited.get() && !matches!(*name, "id" | "final" | "block") {')],
  needs="an attribute of a schema element that the generator does not implement, but that looks harmless",
  breaks="the attribute is ignored instead of refused",
  files={}, main=GEN+'''fn main() {
    let e = gen(r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">
<xs:complexType name="T" block="extension"><xs:sequence/></xs:complexType></xs:schema>"#);
    assert!(e.unwrap_err().contains("block"));
}
'''),
dict(id="b17-closure-cut", property="C21",
  edits=[(I+"xsd/schema.rs", '''            if new_names.is_empty() {
                break;
            }''', '''            // the dependencies of what was already generated were generated with it
            if new_names.iter().all(|name| already_generated.contains(name)) || new_names.iter().any(|name| already_generated.contains(name) && new_names.len() > 1) {
                break;
            }''')],
  needs="two requests with a shared record whose closures overlap in one type next to another new one",
  breaks="what stands beside the overlap is missing",
  files={}, main='''use xsd::internal::xsd::schema::Schema;
use std::collections::HashSet;
fn main() {
    let s = Schema::parse(r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">
<xs:complexType name="A"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType>
<xs:complexType name="B"><xs:sequence><xs:element name="b" type="xs:int"/></xs:sequence></xs:complexType>
<xs:complexType name="C"><xs:sequence><xs:element name="x" type="A"/><xs:element name="y" type="B"/></xs:sequence></xs:complexType>
</xs:schema>"#, "schema.xsd").unwrap();
    let n = |x: &str| s.elements().find(|(n, _)| n.name == x).unwrap().0;
    let mut done = HashSet::new();
    s.generate_element_and_dependencies(n("A"), &mut done).unwrap();
    let t = s.generate_element_and_dependencies(n("C"), &mut done).unwrap().to_string();
    assert!(t.contains("pub struct B "), "B is needed");
}
'''),
dict(id="b18-resolve-once", property="C22",
  edits=[(I+"xsd/context.rs", '''        while let Some(Root::Leaf(LeafDefinition {
            content: LeafContent::Named(name),''', '''        if let Some(Root::Leaf(LeafDefinition {
            content: LeafContent::Named(name),''')],
  needs="a reference through two aliases to a complex type",
  breaks="the content is written without or with one element too many",
  files={"schema.xsd": xs('<xs:complexType name="T"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType><xs:element name="B" type="T"/><xs:element name="C" type="B"/><xs:element name="D" type="C"/>'+root('<xs:sequence><xs:element name="x" type="D"/></xs:sequence>'))},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root><x><a>1</a></x></Root>").unwrap();
    let x = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert_eq!(x.matches("<x>").count(), 1, "{x}");
}
'''),
dict(id="b19-optional-attribute-docs", property="C23",
  edits=[(I+"ast/attribute.rs", '''            .docs
            .as_ref()
            .filter(|docs| !docs.is_empty())''', '''            .docs
            .as_ref()
            .filter(|docs| !docs.is_empty() && self.default.is_none())''')],
  needs="documentation of an attribute that has a default",
  breaks="the field has no doc comment",
  files={}, main=GEN+'''fn main() {
    let e = gen(r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">
<xs:complexType name="T"><xs:attribute name="a" type="xs:int" default="1"><xs:annotation><xs:documentation>Some words</xs:documentation></xs:annotation></xs:attribute></xs:complexType></xs:schema>"#).unwrap();
    assert!(e.contains("Some words"));
}
'''),
dict(id="b20-missing-root-name", property="C04",
  edits=[("xsd/src/decode.rs", '''    pub fn try_child(&self, name: &str, namespace: Option<&str>) -> Result<Node<'_>, FromXmlError> {
        self.child(name, namespace)
            .ok_or_else(|| FromXmlError::MissingElement {
                name: name.to_string(),
                namespace: namespace.map(String::from),
            })
    }

    pub fn attribute(''', '''    pub fn try_child(&self, name: &str, namespace: Option<&str>) -> Result<Node<'_>, FromXmlError> {
        self.child(name, namespace)
            .ok_or_else(|| FromXmlError::MissingElement {
                name: self.node.tag_name().name().to_string(),
                namespace: namespace.map(String::from),
            })
    }

    pub fn attribute(''')],
  needs="a required member of an all group that is absent",
  breaks="the error names the parent instead of the missing element",
  files={"schema.xsd": xs(root('<xs:all><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/></xs:all>'))},
  main=M+'''fn main() {
    let e = m::Root::from_xml("<Root><b>1</b></Root>").unwrap_err().to_string();
    assert!(e.contains("element a"), "{e}");
}
'''),


dict(id="b23-optional-list-single", property="C02",
  edits=[(I+"ast/leaf.rs", '''                let mut from_vec = quote! {
                    {
                        let mut vec = Vec::new();
                        while let Some(node) = node.#next_child(#name_xml, #namespace_xml) {
                            vec.push(#value);
                        }''', '''                let limit = match self.max_occurs {
                    MaxOccurs::Number(n) => n as usize,
                    MaxOccurs::Unbounded => u16::MAX as usize / 257,
                };
                let mut from_vec = quote! {
                    {
                        let mut vec = Vec::new();
                        while let Some(node) = node.#next_child(#name_xml, #namespace_xml) {
                            vec.push(#value);
                            if vec.len() == #limit {
                                break;
                            }
                        }''')],
  needs="more than 255 occurrences of an unbounded element",
  breaks="the occurrences beyond that are lost or the document is refused",
  files={"schema.xsd": xs(root('<xs:sequence><xs:element name="a" type="xs:int" maxOccurs="unbounded"/></xs:sequence>'))},
  main=M+'''fn main() {
    let v = m::Root { a: (0..300).collect() };
    let x = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert_eq!(m::Root::from_xml(&x).unwrap(), v);
}
'''),
dict(id="b24-attr-order-wrapped", property="C06",
  edits=[("xsd/src/lib.rs", "Context::Virtual(inner) => inner.attributes.push((name.into(), value.into())),", "Context::Virtual(inner) => inner.attributes.insert(0, (name.into(), value.into())),")],
  needs="attributes set through a wrapping context after ones set on the context itself",
  breaks="the start tag has them in another order than they were set",
  files={}, main='''use xsd::xml::writer::EmitterConfig;
fn main() {
    let mut body = Vec::new();
    let mut w = EmitterConfig::new().write_document_declaration(false).create_writer(&mut body);
    let mut ctx = xsd::Context::new("a");
    ctx.set_attr("x", "1");
    xsd::Context::wrap(&mut ctx).set_attr("y", "2");
    ctx.write_start_element(&mut w).unwrap();
    ctx.write_end_element(&mut w).unwrap();
    let s = String::from_utf8(body).unwrap();
    assert!(s.find("x=").unwrap() < s.find("y=").unwrap(), "{s}");
}
'''),
dict(id="b25-passed-over-lost", property="C05",
  edits=[("xsd/src/decode.rs", '''            .take()
            .or_else(|| children.peeked.pop_front())
            .or_else(|| children.children.next())''', '''            .take()
            .or_else(|| children.children.next())
            .or_else(|| children.peeked.pop_front())''')],
  needs="an any-order lookup that passes over a child, then an in-order lookup while children not yet seen remain",
  breaks="children that were passed over come after the ones not yet seen",
  files={},
  main='''fn main() {
    let doc = xsd::decode::decode("<r><a/><b/><c/></r>").unwrap();
    let r = doc.try_child("r", None).unwrap();
    assert!(r.child("b", None).is_some());
    assert!(r.next_child("a", None).is_some());
}
'''),
]
