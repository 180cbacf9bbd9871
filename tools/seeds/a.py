XS = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>\n%s\n</xs:schema>\n'
def xs(body, attrs=""):
    return XS % (attrs, body)
M = '#[xsd::all(schema = "schema.xsd")]\nmod m {}\n'
I = "xsd-internal/src/"
SEEDS = [
dict(id="s01-swap-remove", property="C05",
  edits=[("xsd/src/decode.rs", "return children.peeked.remove(ix).map(Node::new);", "return children.peeked.swap_remove_back(ix).map(Node::new);")],
  needs="an any-order lookup that passes over at least two children, followed by an any-order lookup of the first of them and an in-order lookup",
  breaks="the remaining children no longer keep document order",
  files={}, main='''fn main() {
    let doc = xsd::decode::decode("<r><a/><b/><c/><d/></r>").unwrap();
    let r = doc.try_child("r", None).unwrap();
    assert!(r.child("d", None).is_some());
    assert!(r.child("a", None).is_some());
    assert!(r.next_child("b", None).is_some(), "b is the first remaining child");
    assert!(r.next_child("c", None).is_some());
}
'''),
dict(id="s02-attributes-kept", property="C06",
  edits=[("xsd/src/lib.rs", "let attributes = mem::take(&mut inner.attributes);", "let attributes = inner.attributes.clone();")],
  needs="two start tags written through the same context, an attribute set before the first",
  breaks="the second start tag repeats the attributes of the first",
  files={}, main='''use xsd::xml::writer::EmitterConfig;
fn main() {
    let mut body = Vec::new();
    let mut w = EmitterConfig::new().write_document_declaration(false).create_writer(&mut body);
    let mut ctx = xsd::Context::new("a");
    ctx.set_attr("x", "1");
    ctx.write_start_element(&mut w).unwrap();
    ctx.write_start_element(&mut w).unwrap();
    ctx.write_end_element(&mut w).unwrap();
    ctx.write_end_element(&mut w).unwrap();
    let s = String::from_utf8(body).unwrap();
    assert_eq!(s.matches("x=").count(), 1, "{s}");
}
'''),
dict(id="s03-two-occurrences", property="C13",
  edits=[(I+"ast/leaf.rs", "MaxOccurs::Number(n) if n > 1 => true,", "MaxOccurs::Number(n) if n > 2 => true,")],
  needs="maxOccurs of exactly 2",
  breaks="the particle is a plain field and its second occurrence is lost",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="item" type="xs:int" maxOccurs="2"/></xs:sequence></xs:complexType></xs:element>')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root><item>1</item><item>2</item></Root>").unwrap();
    assert_eq!(format!("{v:?}"), "Root { item: [1, 2] }");
}
'''),
dict(id="s04-choice-greedy", property="C14",
  edits=[(I+"ast/root.rs", "while let Some(node) = node.next_child(#name_xml, #namespace_xml) {", "while let Some(node) = node.child(#name_xml, #namespace_xml) {")],
  needs="a choice with a repeated element as alternative, followed by another element and then again one of the name of the alternative",
  breaks="the alternative also takes elements that belong to what follows the choice",
  files={"schema.xsd": xs('''<xs:element name="Root"><xs:complexType><xs:sequence>
  <xs:choice><xs:element name="a" type="xs:int" maxOccurs="unbounded"/><xs:element name="b" type="xs:int"/></xs:choice>
  <xs:element name="c" type="xs:int"/><xs:element name="Last" type="xs:int" minOccurs="0"/><xs:sequence><xs:element name="a" type="xs:int" minOccurs="0"/><xs:element name="z" type="xs:int"/></xs:sequence>
</xs:sequence></xs:complexType></xs:element>''')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root><a>1</a><a>2</a><c>3</c><a>4</a><z>5</z></Root>").unwrap();
    let s = format!("{v:?}");
    assert!(s.contains("A([1, 2])"), "{s}");
}
'''),
dict(id="s05-enum-trim", property="C09",
  edits=[(I+"xsd/parse/simple_type.rs", '''                enumerations.push(Name::new(
                    child.try_attribute("value")?.value().into_owned(),''', '''                enumerations.push(Name::new(
                    child.try_attribute("value")?.value().trim().to_string(),''')],
  needs="an enumeration value that starts or ends with white space",
  breaks="the value itself is refused and the variant prints another text",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="x "/><xs:enumeration value="y"/></xs:restriction></xs:simpleType></xs:element>')},
  main=M+'''fn main() {
    let v: m::Root = "x ".parse().unwrap();
    assert_eq!(v.to_string(), "x ");
    assert!("x".parse::<m::Root>().is_err());
}
'''),
dict(id="s06-attribute-camel", property="C10",
  edits=[(I+"ast/attribute.rs", "let name_xml = ctx.get_xml_element_name(&self.name);", "let name_xml = self.name.name.to_camel_case();")],
  needs="an attribute whose name is not written in camel case, encoded",
  breaks="the attribute is written under another name than the one it is read from",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:complexType><xs:attribute name="data-id" type="xs:string" use="required"/></xs:complexType></xs:element>')},
  main=M+'''fn main() {
    let x = String::from_utf8(m::Root { data_id: "1".into() }.to_xml().unwrap()).unwrap();
    assert!(x.contains("data-id=\\"1\\""), "{x}");
}
'''),
dict(id="s07-integer-narrow", property="C11",
  edits=[(I+"xsd/context.rs", '"integer" | "long" => LiteralType::Int64,', '"long" => LiteralType::Int64,'), (I+"xsd/context.rs", '"int" => LiteralType::Int32,', '"int" | "integer" => LiteralType::Int32,')],
  needs="an xs:integer beyond 32 bits",
  breaks="xs:integer is an i32 and larger values are refused",
  files={"schema.xsd": xs('<xs:element name="Root" type="xs:integer"/>')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root>4294967296</Root>").unwrap();
    assert_eq!(v.0 as i128, 4294967296);
}
'''),
dict(id="s08-all-optional-ordered", property="C12",
  edits=[(I+"xsd/parse/complex_type.rs", '''            for leaf in &mut leaves {
                leaf.is_unordered = true;
            }''', '''            for leaf in leaves.iter_mut().filter(|leaf| !leaf.is_optional()) {
                leaf.is_unordered = true;
            }''')],
  needs="an all group with an optional member that is present, but not at its declared position",
  breaks="the optional member is read as absent",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:complexType><xs:all><xs:element name="a" type="xs:int" minOccurs="0"/><xs:element name="b" type="xs:int"/></xs:all></xs:complexType></xs:element>')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root><b>1</b><a>2</a></Root>").unwrap();
    assert_eq!(v.a, Some(2));
}
'''),
dict(id="s09-foreign-attribute", property="C16",
  edits=[("xsd/src/decode.rs", "        self.node.attribute(name)\n", "        self.node\n            .attributes()\n            .find(|attr| attr.name() == name)\n            .map(|attr| attr.value())\n")],
  needs="an attribute of another namespace with the same local name, before or without the declared one",
  breaks="the foreign attribute is taken for the declared one",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:complexType><xs:attribute name="id" type="xs:string"/></xs:complexType></xs:element>')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root xmlns:o='urn:o' o:id='1'/>").unwrap();
    assert_eq!(v.id, None);
}
'''),
dict(id="s10-simple-content-dependency", property="C21",
  edits=[(I+"xsd/parse/simple_content.rs", '''        ctx.discover_type(name, Some(parent));
        name.clone()''', '''        name.clone()''')],
  needs="a request for a type with simple content whose base is a named type",
  breaks="the base type is missing from the generated code",
  files={"schema.xsd": xs('''<xs:simpleType name="Base"><xs:restriction base="xs:string"><xs:enumeration value="a"/></xs:restriction></xs:simpleType>
<xs:complexType name="Price"><xs:simpleContent><xs:extension base="Base"><xs:attribute name="cur" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType>''')},
  main='''use std::collections::HashSet;
fn main() {
    let s = xsd::internal::xsd::schema::Schema::parse_file("schema.xsd").unwrap();
    let n = s.elements().map(|(n, _)| n).find(|n| n.name == "Price").unwrap();
    let mut done = HashSet::new();
    let t = s.generate_element_and_dependencies(n, &mut done).unwrap().to_string();
    assert!(t.contains("pub enum Base"), "{t}");
}
'''),
dict(id="s11-import-not-transitive", property="C08",
  edits=[(I+"xsd/schema.rs", '''                for (name, root) in std::mem::take(&mut schema.context.elements) {
                    ctx.add_root(name, root);''', '''                for (name, root) in std::mem::take(&mut schema.context.elements) {
                    if child.name() == "import" && name.namespace != schema.context.target_namespace
                    {
                        continue;
                    }
                    ctx.add_root(name, root);''')],
  needs="an imported file that imports a third namespace of its own",
  breaks="the types of the third file are missing",
  files={"schema.xsd": xs('<xs:import namespace="urn:b" schemaLocation="b.xsd"/><xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="x" type="b:B"/></xs:sequence></xs:complexType></xs:element>', ' targetNamespace="urn:a" xmlns:b="urn:b"'),
         "b.xsd": xs('<xs:import namespace="urn:c" schemaLocation="c.xsd"/><xs:complexType name="B"><xs:sequence><xs:element name="y" type="c:C"/></xs:sequence></xs:complexType>', ' targetNamespace="urn:b" xmlns:c="urn:c"'),
         "c.xsd": xs('<xs:complexType name="C"><xs:sequence><xs:element name="z" type="xs:int"/></xs:sequence></xs:complexType>', ' targetNamespace="urn:c"')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<r:Root xmlns:r='urn:a'><x><y><z>1</z></y></x></r:Root>").unwrap();
    assert_eq!(v.x.y.z, 1);
}
'''),
dict(id="s12-ref-as-local", property="C07",
  edits=[(I+"xsd/parse/element.rs", '''            return Ok(Leaf {
                name: name.clone(),''', '''            return Ok(Leaf {
                name: ctx.get_node_name(&name.name, false),''')],
  needs="a reference to a global element in a schema with target namespace and unqualified local elements (or to an imported element)",
  breaks="the referenced element is expected and written in the wrong namespace",
  files={"schema.xsd": xs('<xs:element name="Leaf" type="xs:int"/><xs:element name="Root"><xs:complexType><xs:sequence><xs:element ref="t:Leaf"/></xs:sequence></xs:complexType></xs:element>', ' targetNamespace="urn:t" xmlns:t="urn:t"')},
  main=M+'''fn main() {
    m::Root::from_xml("<t:Root xmlns:t='urn:t'><t:Leaf>1</t:Leaf></t:Root>").unwrap();
    assert!(m::Root::from_xml("<t:Root xmlns:t='urn:t'><Leaf>1</Leaf></t:Root>").is_err());
}
'''),
dict(id="s13-error-place", property="C19",
  edits=[(I+"xsd/node.rs", '''                parent: self.node.name().to_string(),
                range: child.range(),''', '''                parent: self.node.name().to_string(),
                range: self.node.range(),''')],
  needs="an unsupported element that is not on the line and column of its parent",
  breaks="the error points to the parent instead of the offending element",
  files={}, main='''fn main() {
    let e = xsd::internal::xsd::schema::Schema::parse("<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'>\\n<xs:complexType name='A'>\\n  <xs:anyAttribute/>\\n</xs:complexType>\\n</xs:schema>", "x.xsd").unwrap_err().to_string();
    assert!(e.contains("line 3"), "{e}");
}
'''),
dict(id="s14-max-occurs-lenient", property="C19",
  edits=[(I+"xsd/parse/element.rs", '''                Ok(MaxOccurs::Number(u32::from_str(&val).map_err(|err| {
                    XsdError::ParseInt {
                        err,
                        range: attr.range(),
                    }
                })?))''', '''                Ok(u32::from_str(&val)
                    .map(MaxOccurs::Number)
                    .unwrap_or(MaxOccurs::Unbounded))''')],
  needs="a maxOccurs that is neither a number nor `unbounded`",
  breaks="the malformed value is taken for `unbounded`",
  files={}, main='''fn main() {
    for v in ["many", "-1", ""] {
        let x = format!("<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'><xs:complexType name='A'><xs:sequence><xs:element name='a' type='xs:int' maxOccurs='{v}'/></xs:sequence></xs:complexType></xs:schema>");
        assert!(xsd::internal::xsd::schema::Schema::parse(&x, "x.xsd").is_err(), "{v}");
    }
}
'''),
dict(id="s15-forward-reference", property="C20",
  edits=[(I+"xsd/parse/simple_content.rs", '''    let leaf_name = if let LeafContent::Named(name) = &content {
''', '''    let leaf_name = if let LeafContent::Named(name) = &content {
        if !ctx.has_root(name) {
            return Err(XsdError::UnsupportedType {
                name: name.name.clone(),
                range: base.range(),
            });
        }
'''), (I+"xsd/context.rs", "    pub fn add_root(&mut self, name: Name, root: Root) {", '''    pub fn has_root(&self, name: &Name) -> bool {
        self.roots.contains_key(name)
    }

    pub fn add_root(&mut self, name: Name, root: Root) {''')],
  needs="simple content that extends a type declared further down",
  breaks="the schema is refused in that order of its declarations",
  files={}, main='''fn main() {
    let a = "<xs:simpleType name='B'><xs:restriction base='xs:string'/></xs:simpleType>";
    let b = "<xs:complexType name='P'><xs:simpleContent><xs:extension base='B'/></xs:simpleContent></xs:complexType>";
    for (x, y) in [(a, b), (b, a)] {
        let x = format!("<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'>{x}{y}</xs:schema>");
        xsd::internal::xsd::schema::Schema::parse(&x, "x.xsd").unwrap();
    }
}
'''),
dict(id="s16-ref-occurs", property="C22",
  edits=[(I+"xsd/parse/element.rs", '''                    restrictions: Vec::new(),
                    docs: None,
                },
                is_unordered: false,
                is_virtual: false,
                min_occurs,
                max_occurs,''', '''                    restrictions: Vec::new(),
                    docs: None,
                },
                is_unordered: false,
                is_virtual: false,
                min_occurs,
                max_occurs: MaxOccurs::default(),''')],
  needs="a repeated reference to a global element",
  breaks="the reference is read once only, unlike the element declared in place",
  files={"schema.xsd": xs('<xs:element name="Leaf" type="xs:int"/><xs:element name="Root"><xs:complexType><xs:sequence><xs:element ref="Leaf" maxOccurs="unbounded"/></xs:sequence></xs:complexType></xs:element>')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root><Leaf>1</Leaf><Leaf>2</Leaf></Root>").unwrap();
    assert_eq!(format!("{v:?}"), "Root { leaf: [1, 2] }");
}
'''),
dict(id="s17-prohibited-ends-list", property="C15",
  edits=[(I+"xsd/parse/complex_content.rs", '''        if let Some(attr) = super::attribute::parse(child, parent, ctx)? {
            attributes.push(attr);
        }
    }

    children.prevent_unvisited_children()?;
''', '''        match super::attribute::parse(child, parent, ctx)? {
            Some(attr) => attributes.push(attr),
            None => break,
        }
    }
''')],
  needs="an extension with an attribute declared after a prohibited one",
  breaks="the later attributes of the extension are neither read nor written",
  files={"schema.xsd": xs('''<xs:complexType name="Base"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType>
<xs:element name="Root"><xs:complexType><xs:complexContent><xs:extension base="Base"><xs:attribute name="p" type="xs:string" use="prohibited"/><xs:attribute name="q" type="xs:string"/></xs:extension></xs:complexContent></xs:complexType></xs:element>''')},
  main=M+'''fn main() {
    let v = m::Root::from_xml("<Root q='1'><a>1</a></Root>").unwrap();
    assert!(format!("{v:?}").contains("q: Some"));
}
'''),
dict(id="s18-cdata", property="C17",
  edits=[(I+"ast/leaf_content.rs", "writer.write(XmlEvent::characters(&val))?;", "writer.write(XmlEvent::cdata(&val))?;")],
  needs="text that contains `]]>`",
  breaks="the encoded text cannot be read back",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="a" type="xs:string"/></xs:sequence></xs:complexType></xs:element>')},
  main=M+'''fn main() {
    let v = m::Root { a: "x]]>y<".into() };
    let x = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert_eq!(m::Root::from_xml(&x).unwrap(), v);
}
'''),
dict(id="s19-fixed-root-parse", property="C18",
  edits=[(I+"ast/root.rs", "if matches!(def.content, LeafContent::Literal(_)) {", "if !matches!(def.content, LeafContent::Named(_)) {")],
  needs="a global element with a fixed value",
  breaks="the generated code does not compile",
  files={"schema.xsd": xs('<xs:element name="Root" type="xs:string" fixed="x"/>')},
  main=M+'''fn main() {
    m::Root::from_xml("<Root>x</Root>").unwrap();
}
'''),
dict(id="s20-docs-blanks", property="C23",
  edits=[(I+"xsd/parse/annotation.rs", '''    docs.split_whitespace().collect::<Vec<&str>>().join(" ")''', '''    docs.trim()
        .lines()
        .map(str::trim)
        .collect::<Vec<&str>>()
        .join(" ")''')],
  needs="documentation with several blanks in a row or an empty line",
  breaks="white space is not collapsed",
  files={}, main='''fn main() {
    let s = xsd::internal::xsd::schema::Schema::parse("<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'><xs:complexType name='A'><xs:annotation><xs:documentation>one  two\\n\\n three</xs:documentation></xs:annotation></xs:complexType></xs:schema>", "x.xsd").unwrap();
    let t = s.generate_all().unwrap().to_string();
    assert!(t.contains("\\"one two three\\""), "{t}");
}
'''),
dict(id="s21-blank-text", property="C01",
  edits=[(I+"ast/leaf_content.rs", "if !val.is_empty() {", "if !val.trim().is_empty() {")],
  needs="a string value of only white space",
  breaks="the text is not written and the value decodes to an empty string",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="a" type="xs:string"/></xs:sequence></xs:complexType></xs:element>')},
  main=M+'''fn main() {
    let v = m::Root { a: "  ".into() };
    let x = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert_eq!(m::Root::from_xml(&x).unwrap(), v);
}
'''),
dict(id="s22-lookahead-all", property="C02",
  edits=[(I+"ast/root.rs", '''                        if *prev_required {
                            return None;
                        }
''', '')],
  needs="an optional group whose second element also is what follows the group",
  breaks="the absent group is taken for present and the document is refused",
  files={"schema.xsd": xs('''<xs:element name="Root"><xs:complexType><xs:sequence>
<xs:sequence minOccurs="0"><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/></xs:sequence>
<xs:sequence><xs:element name="b" type="xs:int"/><xs:element name="c" type="xs:int"/></xs:sequence></xs:sequence></xs:complexType></xs:element>''')},
  main=M+'''fn main() {
    m::Root::from_xml("<Root><b>1</b><c>2</c></Root>").unwrap();
}
'''),
dict(id="s23-variant-error-kind", property="C04",
  edits=[(I+"ast/root.rs", '''                        return Err(::xsd::decode::FromXmlError::MissingVariant {
                            name: #variant_name.to_string(),
                        }.into())''', '''                        return Err(::xsd::decode::FromXmlError::InvalidVariant {
                            name: #variant_name.to_string(),
                        }.into())''')],
  needs="a required choice none of whose alternatives is there",
  breaks="the error is the one for invalid enumeration values",
  files={"schema.xsd": xs('<xs:element name="Root"><xs:complexType><xs:sequence><xs:choice><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/></xs:choice></xs:sequence></xs:complexType></xs:element>')},
  main=M+'''fn main() {
    let e = m::Root::from_xml("<Root/>").unwrap_err();
    assert!(matches!(e, xsd::decode::FromXmlError::MissingVariant { .. }), "{e}");
}
'''),
dict(id="s24-one-prefix-too-few", property="C03",
  edits=[(I+"xsd/schema.rs", "        for (id, ns) in self.context.namespaces.iter() {\n", "        for (id, ns) in self.context.namespaces.iter().take(2) {\n")],
  needs="elements of three namespaces",
  breaks="elements are written with an undeclared prefix",
  files={"schema.xsd": xs('<xs:import namespace="urn:b" schemaLocation="b.xsd"/><xs:import namespace="urn:c" schemaLocation="c.xsd"/><xs:element name="Root"><xs:complexType><xs:sequence><xs:element ref="b:B"/><xs:element ref="c:C"/></xs:sequence></xs:complexType></xs:element>', ' targetNamespace="urn:a" xmlns:b="urn:b" xmlns:c="urn:c"'),
         "b.xsd": xs('<xs:element name="B" type="xs:int"/>', ' targetNamespace="urn:b"'),
         "c.xsd": xs('<xs:element name="C" type="xs:int"/>', ' targetNamespace="urn:c"')},
  main=M+'''fn main() {
    let v = m::Root { b: 1, c: 2 };
    let x = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert_eq!(m::Root::from_xml(&x).unwrap(), v);
}
'''),
]
