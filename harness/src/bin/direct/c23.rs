//! Documentation: base schemas with documentation slots, every set of filled slots (up to the bound)
//! and every kind of text in every slot. The doc comments of the generated code have to be exactly
//! the expected ones, and the code without them has to be the code of the undocumented schema.

use crate::util::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use xsd_internal::xsd::schema::Schema;

const XS: &str = "http://www.w3.org/2001/XMLSchema";

/// A schema with `@n@` where slot n can have an annotation, and where the text of slot n is expected:
/// the first filled slot of the list is the documentation of the place.
struct Base {
    body: &'static str,
    places: &'static [(&'static str, &'static [usize])],
    slots: usize,
}

const BASES: [Base; 6] = [
    // local elements and attributes of all kinds
    Base {
        body: r#"
  <complexType name="Order">@0@
    <sequence>
      <element name="id" type="string">@1@</element>
      <element name="item" maxOccurs="unbounded">@2@<complexType>@3@<sequence><element name="sku" type="string" minOccurs="0">@4@</element></sequence></complexType></element>
      <element name="state" minOccurs="0">@5@<simpleType>@6@<restriction base="string"/></simpleType></element>
      <element name="ship" type="t:Addr">@7@</element>
      <element name="loose">@8@</element>
      <element name="fix" type="string" fixed="f">@9@</element>
    </sequence>
    <attribute name="kind" type="string" use="required">@10@</attribute>
    <attribute name="code" type="t:Code">@11@</attribute>
  </complexType>
  <simpleType name="Code"><restriction base="string"/></simpleType>
  <complexType name="Addr"><sequence><element name="city" type="string"/></sequence></complexType>"#,
        places: &[
            ("Order", &[0]), ("Order.id", &[1]), ("Order.item", &[2]), ("OrderItemData", &[2, 3]), ("OrderItemData.sku", &[4]), ("Order.state", &[5]),
            ("OrderStateData", &[5, 6]), ("Order.ship", &[7]), ("Order.loose", &[8]), ("Order.fix", &[9]), ("Order.kind", &[10]), ("Order.code", &[11]),
        ],
        slots: 12,
    },
    // global declarations of all kinds
    Base {
        body: r#"
  <element name="text" type="string">@0@</element>
  <element name="alias" type="t:Base">@1@</element>
  <element name="whole">@2@<complexType>@3@<sequence><element name="in" type="int">@4@</element></sequence></complexType></element>
  <element name="scalar">@5@<simpleType>@6@<restriction base="int"/></simpleType></element>
  <complexType name="Base">@7@<sequence><element name="city" type="string"/></sequence></complexType>
  <complexType name="Ext">@8@<complexContent><extension base="t:Base"><sequence><element name="more" type="string">@9@</element></sequence><attribute name="kind" type="int">@10@</attribute></extension></complexContent></complexType>
  <simpleType name="Code">@11@<restriction base="string"><maxLength value="3"/></restriction></simpleType>"#,
        places: &[
            ("Text", &[0]), ("Alias", &[1]), ("Whole", &[2, 3]), ("Whole.r#in", &[4]), ("Scalar", &[5, 6]), ("Base", &[7]), ("Ext", &[8]), ("*.more", &[9]),
            ("Ext.kind", &[10]), ("Code", &[11]),
        ],
        slots: 12,
    },
    // choices, groups, simple content
    Base {
        body: r#"
  <complexType name="Pick">@0@<choice>
      <element name="left" type="string">@1@</element>
      <element name="right" type="t:Code" maxOccurs="2">@2@</element>
      <element name="mid">@3@<complexType>@4@<sequence><element name="deep" type="string">@5@</element></sequence></complexType></element>
    </choice><attribute name="kind" type="string">@6@</attribute></complexType>
  <complexType name="Price">@7@<simpleContent><extension base="decimal"><attribute name="cur" type="string">@8@</attribute></extension></simpleContent></complexType>
  <complexType name="Mix">@9@<sequence><choice minOccurs="0"><element name="one" type="int">@10@</element><element name="two" type="int"/></choice>
    <sequence minOccurs="0"><element name="three" type="int">@11@</element><element name="four" type="int"/></sequence></sequence></complexType>
  <simpleType name="Code"><restriction base="string"/></simpleType>"#,
        places: &[
            ("Pick", &[0]), ("PickData.Left", &[1]), ("PickData.Right", &[2]), ("PickData.Mid", &[3]), ("PickMidData", &[3, 4]), ("PickMidData.deep", &[5]),
            ("Pick.kind", &[6]), ("Price", &[7]), ("Price.cur", &[8]), ("Mix", &[9]), ("*.One", &[10]), ("*.three", &[11]),
        ],
        slots: 12,
    },
    // all groups, attributes of anonymous types, empty content
    Base {
        body: r#"
  <complexType name="Any">@0@<all><element name="a" type="string">@1@</element><element name="b" type="boolean" minOccurs="0">@2@</element></all></complexType>
  <complexType name="Empty">@3@<attribute name="x" type="date" default="2000-01-01">@4@</attribute><attribute name="y">@5@<simpleType><restriction base="string"/></simpleType></attribute></complexType>
  <complexType name="Lone">@6@</complexType>
  <complexType name="Rep">@7@<sequence maxOccurs="unbounded"><element name="r" type="float">@8@</element></sequence></complexType>"#,
        places: &[("Any", &[0]), ("Any.a", &[1]), ("Any.b", &[2]), ("Empty", &[3]), ("Empty.x", &[4]), ("Empty.y", &[5]), ("Lone", &[6]), ("Rep", &[7]), ("*.r", &[8])],
        slots: 9,
    },
    // enumerations have no documentation of their own; nested sequences have it on their field or variant; where that of other
    // groups and of references goes is left open (`?`)
    Base {
        body: r#"
  <simpleType name="Code">@0@<restriction base="string"><enumeration value="u">@1@</enumeration></restriction></simpleType>
  <element name="state">@2@<simpleType>@3@<restriction base="string"><enumeration value="v"/></restriction></simpleType></element>
  <complexType name="Use"><sequence>@4@
      <element name="size">@5@<simpleType>@6@<restriction base="string"><enumeration value="w"/></restriction></simpleType></element>
      <element name="code" type="t:Code" minOccurs="0">@7@</element>
      <element ref="t:state">@8@</element>
    </sequence>
    <attribute name="mode">@9@<simpleType>@10@<restriction base="string"><enumeration value="x"/></restriction></simpleType></attribute>
    <attribute name="kind" type="t:Code" use="required">@11@</attribute></complexType>"#,
        places: &[("Use.size", &[5]), ("Use.code", &[7]), ("Use.mode", &[9]), ("Use.kind", &[11]), ("?", &[4]), ("?", &[8])],
        slots: 12,
    },
    Base {
        body: r#"
  <complexType name="Nest"><sequence>@0@
      <element name="z" type="int">@1@</element>
      <sequence minOccurs="0">@2@<element name="abOne" type="int">@3@</element><element name="abTwo" type="int"/></sequence>
      <choice minOccurs="0">@4@<sequence>@5@<element name="cdOne" type="int">@6@</element><element name="cdTwo" type="int"/></sequence>
        <element name="other">@7@<complexType>@8@<choice>@9@<element name="deep" type="string">@10@</element></choice></complexType></element></choice>
    </sequence></complexType>
  <complexType name="Ext"><complexContent><extension base="t:Nest"><sequence>@11@<element name="own" type="string"/></sequence></extension></complexContent></complexType>"#,
        places: &[
            ("?", &[0]), ("Nest.z", &[1]), ("Nest.ab", &[2]), ("*.ab_one", &[3]), ("?", &[4]), ("*.Cd", &[5]), ("*.cd_one", &[6]), ("*.Other", &[7]),
            ("NestOtherData", &[7, 8]), ("?", &[9]), ("*.Deep", &[10]), ("?", &[11]),
        ],
        slots: 12,
    },
];

/// Content of an annotation and the expected documentation.
fn texts() -> Vec<(String, Option<&'static str>)> {
    let long = |n: usize, w: &str| -> &'static str { Box::leak(vec![w; n].join(" ").into_boxed_str()) };
    let (words, word, lines) = (long(40, "word"), long(1, Box::leak("w".repeat(300).into_boxed_str())), long(300, "line. Next"));
    let d = |s: &str| format!("<documentation>{s}</documentation>");
    vec![
        (d("Plain text."), Some("Plain text.")),
        (d("  spread \n\t over\r\n   lines  "), Some("spread over lines")),
        (d("say \"hi\" and \\ back\\nslash"), Some("say \"hi\" and \\ back\\nslash")),
        (d("*/ // /// #[doc] {} {0} %s $x #x"), Some("*/ // /// #[doc] {} {0} %s $x #x")),
        (d("&lt;b&gt; &amp; &#x41;"), Some("<b> & A")),
        (d("ünïcödé 日本"), Some("ünïcödé 日本")),
        (d("<![CDATA[<raw> &amp;]]>"), Some("<raw> &amp;")),
        (d("before <!-- not this --> after"), Some("before after")),
        ("<documentation xml:lang=\"en\" source=\"urn:s\">lang</documentation>".into(), Some("lang")),
        (d(words), Some(words)),
        (d(word), Some(word)),
        (d(&lines.replace(' ', "\n      ")), Some(lines)),
        (d("TODO: 1. 2) - x = y; 50% `code` [link](x) r#\"raw\"# 'q'"), Some("TODO: 1. 2) - x = y; 50% `code` [link](x) r#\"raw\"# 'q'")),
        (d("x"), Some("x")),
        (d("   \n "), None),
        (d(""), None),
        ("<documentation/>".into(), None),
        ("".into(), None),
    ]
}

fn render(b: &Base, slot: impl Fn(usize) -> Option<String>) -> String {
    let mut x = format!("<schema xmlns=\"{XS}\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\">");
    let mut rest = b.body;
    while let Some((a, r)) = rest.split_once('@') {
        x.push_str(a);
        let (n, r) = r.split_once('@').unwrap();
        if let Some(t) = slot(n.parse().unwrap()) {
            x.push_str(&format!("<annotation>{t}</annotation>"));
        }
        rest = r;
    }
    x.push_str(rest);
    x.push_str("\n</schema>\n");
    x
}

struct Docs {
    at: Vec<String>,
    found: Vec<(String, String)>,
}

impl Docs {
    fn take(&mut self, attrs: &mut Vec<syn::Attribute>) {
        let place = self.at.join(".");
        attrs.retain(|a| {
            if let syn::Meta::NameValue(m) = &a.meta {
                if m.path.is_ident("doc") {
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &m.value {
                        self.found.push((place.clone(), s.value().trim().to_string()));
                        return false;
                    }
                }
            }
            true
        });
    }
}
impl VisitMut for Docs {
    fn visit_item_struct_mut(&mut self, i: &mut syn::ItemStruct) {
        self.at.push(i.ident.to_string());
        self.take(&mut i.attrs);
        syn::visit_mut::visit_item_struct_mut(self, i);
        self.at.pop();
    }
    fn visit_item_enum_mut(&mut self, i: &mut syn::ItemEnum) {
        self.at.push(i.ident.to_string());
        self.take(&mut i.attrs);
        syn::visit_mut::visit_item_enum_mut(self, i);
        self.at.pop();
    }
    fn visit_field_mut(&mut self, i: &mut syn::Field) {
        if let Some(n) = &i.ident {
            self.at.push(n.to_string());
            self.take(&mut i.attrs);
            self.at.pop();
        } else {
            self.take(&mut i.attrs);
        }
    }
    fn visit_variant_mut(&mut self, i: &mut syn::Variant) {
        self.at.push(i.ident.to_string());
        self.take(&mut i.attrs);
        syn::visit_mut::visit_variant_mut(self, i);
        self.at.pop();
    }
    fn visit_attributes_mut(&mut self, attrs: &mut Vec<syn::Attribute>) {
        // any other place
        self.take(attrs);
    }
}

/// The items without documentation, and the documentation by place.
fn generate(xsd: &str) -> Result<(BTreeSet<String>, Vec<(String, String)>), String> {
    let r = guarded(|| -> Result<_, String> {
        let s = Schema::parse(xsd, "schema.xsd").map_err(|e| e.to_string())?;
        s.generate_all().map_err(|e| e.to_string())
    });
    let ts = r.map_err(|p| format!("panic: {p}"))??;
    let mut f: syn::File = syn::parse2(ts).map_err(|e| format!("generated code is not Rust: {e}"))?;
    let mut v = Docs { at: vec![], found: vec![] };
    v.visit_file_mut(&mut f);
    v.found.sort();
    Ok((f.items.iter().map(|i| i.to_token_stream().to_string()).collect(), v.found))
}

pub fn run(o: &Out, thorough: bool) {
    let texts = texts();
    for b in &BASES {
        let plain = render(b, |_| None);
        let (code, docs) = match generate(&plain) {
            Ok(x) => x,
            Err(e) => {
                o.finding("base", plain, e);
                continue;
            }
        };
        if !docs.is_empty() {
            o.finding("docs", plain, format!("documentation out of nowhere: {docs:?}"));
            continue;
        }
        // (set of filled slots, text of each slot)
        let mut cases: Vec<Vec<Option<usize>>> = vec![];
        for set in 0..1u32 << b.slots {
            let n = set.count_ones() as usize;
            if thorough || n <= 3 || n + 2 >= b.slots {
                cases.push((0..b.slots).map(|i| (set >> i & 1 == 1).then_some(0)).collect());
            }
        }
        for s in 0..b.slots {
            for t in 0..texts.len() {
                // alone, and with everything else filled
                for others in [None, Some(0)] {
                    let mut v = vec![others; b.slots];
                    v[s] = Some(t);
                    cases.push(v);
                }
            }
        }
        if thorough {
            for s in 0..b.slots {
                for s2 in 0..s {
                    for t in 0..texts.len() {
                        for t2 in 0..texts.len() {
                            let mut v = vec![None; b.slots];
                            v[s] = Some(t);
                            v[s2] = Some(t2);
                            cases.push(v);
                        }
                    }
                }
            }
        }
        lanes(&cases, |k, c| {
            // the text of a slot names it, so that no other one can be taken for it
            let fill = |i: usize| {
                c[i].map(|t| match texts[t].1 {
                    Some(_) => texts[t].0.replacen("</documentation>", &format!(" s{i}e</documentation>"), 1),
                    None => texts[t].0.clone(),
                })
            };
            let x = render(b, fill);
            o.progress(k, &x);
            o.add("states", 1);
            // every place, and the code itself
            o.add("transitions", b.places.len() as u64 + 1);
            o.add("traces", 1);
            let mut want: Vec<(String, String)> = vec![];
            for (place, slots) in b.places.iter().filter(|p| p.0 != "?") {
                if let Some((i, text)) = slots.iter().find_map(|i| c[*i].and_then(|t| texts[t].1).map(|t| (i, t))) {
                    want.push((place.to_string(), format!("{text} s{i}e")));
                }
            }
            want.sort();
            match generate(&x) {
                Err(e) => o.finding("docs", x, format!("refused because of documentation: {e}")),
                Ok((got_code, got)) => {
                    if got_code != code {
                        let d: Vec<&String> = got_code.symmetric_difference(&code).take(2).collect();
                        return o.finding("docs", x, format!("documentation changes the code: {d:?}"));
                    }
                    // compare as multisets; the type of `*.field` does not matter
                    let mut left: BTreeMap<(String, String), i32> = BTreeMap::new();
                    let star = |p: &str| {
                        let last = p.rsplit('.').next().unwrap();
                        if p.contains('.') && b.places.iter().any(|q| q.0 == format!("*.{last}")) {
                            format!("*.{last}")
                        } else {
                            p.to_string()
                        }
                    };
                    let free = |t: &str| b.places.iter().any(|p| p.0 == "?" && t.ends_with(&format!(" s{}e", p.1[0])));
                    for (p, t) in got.iter().filter(|g| !free(&g.1)) {
                        *left.entry((star(p), t.clone())).or_insert(0) += 1;
                    }
                    for w in &want {
                        *left.entry(w.clone()).or_insert(0) -= 1;
                    }
                    left.retain(|_, n| *n != 0);
                    if !left.is_empty() {
                        let f = |s: i32| left.iter().filter(|x| x.1.signum() == s).map(|x| x.0).collect::<Vec<_>>();
                        o.finding("docs", x, format!("documentation missing: {:?}, unexpected: {:?}", f(-1), f(1)));
                    }
                }
            }
        });
        o.sample(render(b, |i| (i % 2 == 0).then(|| texts[i % texts.len()].0.clone())));
    }
}
