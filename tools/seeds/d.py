XS = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>\n%s\n</xs:schema>\n'
def xs(body, attrs=""):
    return XS % (attrs, body)
M = '#[xsd::all(schema = "schema.xsd")]\nmod m {}\n'
I = "xsd-internal/src/"
SEEDS = [
dict(id="d01-end-error", property="C06",
  edits=[("xsd/src/lib.rs", "            Context::Context(_) => writer.write(XmlEvent::end_element())?,\n", '''            // the start tag told already if nothing can be written
            Context::Context(_) => match writer.write(XmlEvent::end_element()) {
                Err(xml::writer::Error::Io(_)) => {}
                other => other?,
            },
''')],
  needs="a writer that fails during an end tag",
  breaks="the failure is not reported, the document is cut off",
  files={}, main='''use std::io::Write;
struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    for room in 0.. {
        let mut w = xsd::xml::writer::EmitterConfig::new().write_document_declaration(false).create_writer(Full(room));
        let mut a = xsd::Context::new("a");
        let mut b = xsd::Context::new("b");
        let mut go = || -> Result<(), xsd::xml::writer::Error> {
            a.write_start_element(&mut w)?;
            b.write_start_element(&mut w)?;
            b.write_end_element(&mut w)?;
            a.write_end_element(&mut w)
        };
        let ok = go().is_ok();
        // <a><b /></a>
        assert_eq!(ok, room >= "<a><b /></a>".len(), "{room} bytes");
        if ok { break; }
    }
}
'''),
dict(id="d02-enum-trim", property="C24",
  edits=[(I+"ast/root.rs", "                            Ok(match s {\n", "                            Ok(match s.trim_start_matches('\\u{feff}').trim_end_matches('_') {\n")],
  needs="a text that is an enumeration value followed by an underscore",
  breaks="the text is accepted (and a listed value that ends so is refused)",
  files={"schema.xsd": xs('<xs:simpleType name="E"><xs:restriction base="xs:string"><xs:enumeration value="a"/><xs:enumeration value="b_"/></xs:restriction></xs:simpleType>')},
  main=M+'''fn main() {
    assert_eq!("b_".parse::<m::E>().unwrap().as_str(), "b_");
    assert!("a_".parse::<m::E>().is_err());
}
'''),
dict(id="d03-display-width", property="C24",
  edits=[(I+"ast/root.rs", "                                self.0.fmt(f)\n", "                                write!(f, \"{:.38}\", self.0)\n")],
  needs="a value of a named simple type with a long text",
  breaks="what is displayed is cut off",
  files={"schema.xsd": xs('<xs:simpleType name="S"><xs:restriction base="xs:string"><xs:maxLength value="100"/></xs:restriction></xs:simpleType>')},
  main=M+'''fn main() {
    let t = "0123456789".repeat(9);
    let v: m::S = t.parse().unwrap();
    assert_eq!(v.to_string(), t);
}
'''),
dict(id="d04-from-str-plus", property="C24",
  edits=[(I+"ast/root.rs", "                                Ok(#root_name(::std::str::FromStr::from_str(s).map_err(|err| {\n", "                                // XML Schema allows an explicit sign\n                                let unsigned = s.strip_prefix('+').unwrap_or(s);\n                                Ok(#root_name(::std::str::FromStr::from_str(unsigned).map_err(|err| {\n")],
  needs="a text that starts with a plus sign, converted to a named string type",
  breaks="the sign is lost",
  files={"schema.xsd": xs('<xs:simpleType name="S"><xs:restriction base="xs:string"/></xs:simpleType>')},
  main=M+'''fn main() {
    assert_eq!("+49 1".parse::<m::S>().unwrap().0, "+49 1");
}
'''),
dict(id="d05-display-trim", property="C24",
  edits=[(I+"ast/root.rs", "                            f.write_str(self.as_str())\n", "                            f.write_str(self.as_str().trim_end())\n")],
  needs="an enumeration value that ends with a blank",
  breaks="the value is displayed (and written) without it and cannot be read again",
  files={"schema.xsd": xs('<xs:simpleType name="E"><xs:restriction base="xs:string"><xs:enumeration value="a"/><xs:enumeration value="b "/></xs:restriction></xs:simpleType>')},
  main=M+'''fn main() {
    let v: m::E = "b ".parse().unwrap();
    assert_eq!(v.to_string().parse::<m::E>().unwrap(), v);
}
'''),
dict(id="d06-parse-value", property="C24",
  edits=[(I+"ast/root.rs", "                                        value: s.to_string(),\n", "                                        value: s.split_whitespace().collect(),\n")],
  needs="a text with white space that is no value of a named simple type",
  breaks="the error carries another text than the one that was refused",
  files={"schema.xsd": xs('<xs:simpleType name="N"><xs:restriction base="xs:int"/></xs:simpleType>')},
  main=M+'''fn main() {
    match "1 000 x".parse::<m::N>() {
        Err(xsd::decode::FromXmlError::ParseType { value, .. }) => assert_eq!(value, "1 000 x"),
        other => panic!("{other:?}"),
    }
}
'''),
]
