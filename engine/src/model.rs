//! Schema AST used by the enumerators, and its rendering as XSD text.
//! Nothing in this crate depends on the code under test.

pub const NS_XSD: &str = "http://www.w3.org/2001/XMLSchema";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Lit {
    String,
    Boolean,
    Integer,
    Long,
    NonNegativeInteger,
    PositiveInteger,
    Int,
    Decimal,
    Float,
    Time,
    Date,
    DateTime,
    Duration,
    Base64Binary,
    HexBinary,
    AnyType,
}

pub const ALL_LITS: [Lit; 16] = [
    Lit::String,
    Lit::Boolean,
    Lit::Integer,
    Lit::Long,
    Lit::NonNegativeInteger,
    Lit::PositiveInteger,
    Lit::Int,
    Lit::Decimal,
    Lit::Float,
    Lit::Time,
    Lit::Date,
    Lit::DateTime,
    Lit::Duration,
    Lit::Base64Binary,
    Lit::HexBinary,
    Lit::AnyType,
];

/// How the value of a built-in type is represented in Rust.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Repr {
    Str,
    Bool,
    I64,
    U64,
    I32,
    F32,
    Dec,
}

impl Lit {
    pub fn xsd(&self) -> &'static str {
        match self {
            Lit::String => "string",
            Lit::Boolean => "boolean",
            Lit::Integer => "integer",
            Lit::Long => "long",
            Lit::NonNegativeInteger => "nonNegativeInteger",
            Lit::PositiveInteger => "positiveInteger",
            Lit::Int => "int",
            Lit::Decimal => "decimal",
            Lit::Float => "float",
            Lit::Time => "time",
            Lit::Date => "date",
            Lit::DateTime => "dateTime",
            Lit::Duration => "duration",
            Lit::Base64Binary => "base64Binary",
            Lit::HexBinary => "hexBinary",
            Lit::AnyType => "anyType",
        }
    }

    pub fn repr(&self) -> Repr {
        match self {
            Lit::Boolean => Repr::Bool,
            Lit::Integer | Lit::Long => Repr::I64,
            Lit::NonNegativeInteger | Lit::PositiveInteger => Repr::U64,
            Lit::Int => Repr::I32,
            Lit::Decimal => Repr::Dec,
            Lit::Float => Repr::F32,
            _ => Repr::Str,
        }
    }

    /// The `n`-th canonical value of this type; distinct for distinct small `n` (boolean excepted).
    pub fn label(&self, n: usize) -> String {
        match self {
            Lit::String | Lit::AnyType => format!("s{n}"),
            Lit::Boolean => if n % 2 == 0 { "true" } else { "false" }.to_string(),
            Lit::Integer | Lit::Long | Lit::Int => {
                if n % 3 == 2 {
                    format!("-{}", 10 + n)
                } else {
                    format!("{}", 10 + n)
                }
            }
            Lit::NonNegativeInteger | Lit::PositiveInteger => format!("{}", 10 + n),
            Lit::Decimal => format!("{}.25", 10 + n),
            Lit::Float => format!("{}.5", 10 + n),
            Lit::Time => format!("10:{:02}:00", n % 60),
            Lit::Date => format!("{}-01-02", 2000 + n),
            Lit::DateTime => format!("{}-01-02T03:04:05Z", 2000 + n),
            Lit::Duration => format!("P{}D", 1 + n),
            Lit::Base64Binary => format!("AA{:02}", n % 100),
            Lit::HexBinary => format!("AB{:02}", n % 100),
        }
    }
}

/// Result of reading `text` as a value of built-in type `lit`.
pub enum Lex {
    /// Rust debug text of the value (strings: the text itself), and the text expected when encoding.
    Ok { dbg: String, canon: Vec<String> },
    Bad,
    Unspecified,
}

pub fn lex(lit: Lit, text: &str) -> Lex {
    let t = text.trim_matches(|c| matches!(c, ' ' | '\t' | '\r' | '\n'));
    fn digits(s: &str) -> bool {
        !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
    }
    let one = |s: String| Lex::Ok { dbg: s.clone(), canon: vec![s] };
    match lit.repr() {
        Repr::Str => one(text.to_string()),
        Repr::Bool => match t {
            "true" | "1" => one("true".into()),
            "false" | "0" => one("false".into()),
            _ => Lex::Bad,
        },
        Repr::I64 | Repr::I32 | Repr::U64 => {
            let body = t.strip_prefix('+').or_else(|| t.strip_prefix('-')).unwrap_or(t);
            if !digits(body) {
                return Lex::Bad;
            }
            let Ok(v) = t.strip_prefix('+').unwrap_or(t).parse::<i128>() else { return Lex::Bad };
            let ok = match lit.repr() {
                Repr::I64 => i64::try_from(v).is_ok(),
                Repr::I32 => i32::try_from(v).is_ok(),
                _ => u64::try_from(v).is_ok(),
            };
            if lit == Lit::PositiveInteger && v == 0 {
                return Lex::Unspecified;
            }
            if lit.repr() == Repr::U64 && v == 0 && t.starts_with('-') {
                return Lex::Unspecified; // "-0" is a nonNegativeInteger, but no u64 text
            }
            if ok { one(v.to_string()) } else { Lex::Bad }
        }
        Repr::Dec => {
            let body = t.strip_prefix('+').or_else(|| t.strip_prefix('-')).unwrap_or(t);
            let (a, b) = body.split_once('.').unwrap_or((body, ""));
            let well = (a.is_empty() || digits(a)) && (b.is_empty() || digits(b)) && (digits(a) || digits(b));
            if !well {
                return if t.contains(['e', 'E', '_']) { Lex::Unspecified } else { Lex::Bad };
            }
            if a.trim_start_matches('0').len() + b.len() > 28 {
                return Lex::Unspecified;
            }
            if a.is_empty() || b.is_empty() && body.contains('.') || t.starts_with('+') {
                // non-canonical spelling: compared numerically by the caller
                let neg = t.starts_with('-');
                let a = if a.is_empty() { "0" } else { a };
                let s = format!("{}{}{}{}", if neg { "-" } else { "" }, a, if b.is_empty() { "" } else { "." }, b);
                return one(canon_dec(&s));
            }
            one(canon_dec(t))
        }
        Repr::F32 => {
            let v: f32 = match t {
                "INF" => f32::INFINITY,
                "-INF" => f32::NEG_INFINITY,
                "NaN" => f32::NAN,
                _ => {
                    let l = t.to_ascii_lowercase();
                    if l.contains("inf") || l.contains("nan") {
                        return if matches!(l.trim_start_matches(['+', '-']), "inf" | "infinity" | "nan") {
                            Lex::Unspecified
                        } else {
                            Lex::Bad
                        };
                    }
                    match t.parse::<f32>() {
                        Ok(v) => v,
                        Err(_) => return Lex::Bad,
                    }
                }
            };
            let canon = if v.is_nan() {
                vec!["NaN".to_string()]
            } else if v.is_infinite() {
                vec![if v > 0.0 { "INF" } else { "-INF" }.to_string()]
            } else {
                vec![v.to_string()]
            };
            Lex::Ok { dbg: format!("{v:?}"), canon }
        }
    }
}

/// Decimal text without leading zeros and without sign of zero; keeps the scale.
fn canon_dec(s: &str) -> String {
    let (neg, body) = match s.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, s),
    };
    let (a, b) = body.split_once('.').unwrap_or((body, ""));
    let a = a.trim_start_matches('0');
    let a = if a.is_empty() { "0" } else { a };
    let zero = a == "0" && b.bytes().all(|c| c == b'0');
    let mut r = String::new();
    if neg && !zero {
        r.push('-');
    }
    r.push_str(a);
    if !b.is_empty() {
        r.push('.');
        r.push_str(b);
    }
    r
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct QRef {
    pub ns: Option<String>,
    pub local: String,
}

#[derive(Clone, Debug)]
pub enum Ty {
    Lit(Lit),
    Ref(QRef),
    Simple(Simple),
    Complex(Box<Complex>),
    /// no type given at all
    None,
}

#[derive(Clone, Debug)]
pub struct Simple {
    pub base: Lit,
    pub facets: Vec<(String, String)>,
    /// enumeration values; empty for a plain restriction
    pub values: Vec<String>,
    pub docs: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Complex {
    pub content: Content,
    pub attrs: Vec<Attr>,
    pub docs: Option<String>,
}

#[derive(Clone, Debug)]
pub enum Content {
    Empty,
    Group(Group),
    SimpleExt(Ty),
    ComplexExt { base: QRef, seq: Option<Group> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Seq,
    Choice,
    All,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Occ {
    pub min: u32,
    /// None: unbounded
    pub max: Option<u32>,
}

pub const ONE: Occ = Occ { min: 1, max: Some(1) };
pub const OPT: Occ = Occ { min: 0, max: Some(1) };
pub const STAR: Occ = Occ { min: 0, max: None };
pub const PLUS: Occ = Occ { min: 1, max: None };

impl Occ {
    pub fn n(min: u32, max: u32) -> Occ {
        Occ { min, max: Some(max) }
    }
    pub fn is_vec(&self) -> bool {
        self.max.map_or(true, |m| m > 1)
    }
    pub fn is_opt(&self) -> bool {
        self.min == 0
    }
    fn attrs(&self) -> String {
        let mut s = String::new();
        if self.min != 1 {
            s += &format!(" minOccurs=\"{}\"", self.min);
        }
        match self.max {
            Some(1) => {}
            Some(n) => s += &format!(" maxOccurs=\"{n}\""),
            None => s += " maxOccurs=\"unbounded\"",
        }
        s
    }
}

#[derive(Clone, Debug)]
pub struct Group {
    pub kind: Kind,
    pub occ: Occ,
    pub items: Vec<Item>,
    pub docs: Option<String>,
}

#[derive(Clone, Debug)]
pub enum Item {
    El(El),
    Group(Group),
}

#[derive(Clone, Debug)]
pub struct El {
    pub name: String,
    pub ty: Ty,
    pub occ: Occ,
    pub fixed: Option<String>,
    pub default: Option<String>,
    pub form: Option<bool>,
    /// reference to a global element; name and ty are then ignored
    pub eref: Option<QRef>,
    pub docs: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Use {
    Absent,
    Optional,
    Required,
    Prohibited,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub name: String,
    pub ty: Ty,
    pub use_: Use,
    pub default: Option<String>,
    pub fixed: Option<String>,
    pub docs: Option<String>,
}

#[derive(Clone, Debug)]
pub enum Decl {
    El { name: String, ty: Ty, fixed: Option<String>, docs: Option<String> },
    Complex { name: String, c: Complex },
    Simple { name: String, s: Simple },
}

impl Decl {
    pub fn name(&self) -> &str {
        match self {
            Decl::El { name, .. } | Decl::Complex { name, .. } | Decl::Simple { name, .. } => name,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    Absent,
    Qualified,
    Unqualified,
}

#[derive(Clone, Debug)]
pub struct Link {
    pub import: bool,
    /// text of schemaLocation
    pub location: String,
    /// index of the linked file
    pub file: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RefStyle {
    /// every namespace has a prefix
    Prefix,
    /// the target namespace is the default namespace, references to it are unprefixed
    DefaultNs,
    /// XSD is the default namespace
    XsdDefault,
}

#[derive(Clone, Debug)]
pub struct File {
    pub path: String,
    pub tns: Option<String>,
    pub form: Form,
    pub style: RefStyle,
    pub links: Vec<Link>,
    pub decls: Vec<Decl>,
}

#[derive(Clone, Debug)]
pub struct Suite {
    /// stable identification within the enumeration: family and description
    pub family: &'static str,
    pub desc: String,
    pub files: Vec<File>,
    /// name of the root element
    pub root: String,
    /// file that declares it (file 0 is the one the generator is given)
    pub root_file: usize,
    /// Rust type of the root
    pub root_ty: String,
    /// field and variant names are only checked for consistency, not for their spelling
    pub loose: bool,
    pub opt: DocOpt,
}

/// Which documents are explored for a suite.
#[derive(Clone, Debug)]
pub struct DocOpt {
    /// cap on valid documents (whole deviation levels are completed below it)
    pub valid_cap: usize,
    /// corrupt the valid documents with at most this many deviations
    pub mutate_dev: usize,
    pub mutate_cap: usize,
    /// all child-name words of the root up to this length
    pub word_len: usize,
    pub word_cap: usize,
    /// documents in other namespace / markup styles
    pub styles: bool,
    /// verbatim documents
    pub extra: Vec<Extra>,
    /// value table instead of running labels: every slot of the document takes each of these texts
    pub texts: Vec<String>,
    /// explore permutations of the root's children
    pub permute: bool,
    /// further numbers of occurrences
    pub counts: Vec<usize>,
}

impl Default for DocOpt {
    fn default() -> Self {
        DocOpt {
            valid_cap: 60,
            mutate_dev: 1,
            mutate_cap: 250,
            word_len: 0,
            word_cap: 0,
            styles: false,
            extra: vec![],
            texts: vec![],
            permute: false,
            counts: vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Extra {
    pub xml: String,
    pub expect: ExtraExpect,
}

#[derive(Clone, Debug)]
pub enum ExtraExpect {
    /// decide by the reference decoder
    Model,
    Reject,
    NoPanic,
}

// ---------------------------------------------------------------- construction helpers

pub fn q(local: &str) -> QRef {
    QRef { ns: None, local: local.into() }
}
pub fn qn(ns: Option<&str>, local: &str) -> QRef {
    QRef { ns: ns.map(String::from), local: local.into() }
}
pub fn s(base: Lit) -> Simple {
    Simple { base, facets: vec![], values: vec![], docs: None }
}
pub fn en(values: &[&str]) -> Simple {
    Simple { base: Lit::String, facets: vec![], values: values.iter().map(|v| v.to_string()).collect(), docs: None }
}
pub fn el(name: &str, ty: Ty, occ: Occ) -> Item {
    Item::El(El { name: name.into(), ty, occ, fixed: None, default: None, form: None, eref: None, docs: None })
}
pub fn els(name: &str, occ: Occ) -> Item {
    el(name, Ty::Lit(Lit::String), occ)
}
pub fn eref(r: QRef, occ: Occ) -> Item {
    Item::El(El { name: r.local.clone(), ty: Ty::None, occ, fixed: None, default: None, form: None, eref: Some(r), docs: None })
}
pub fn elfix(name: &str, lit: Lit, fixed: &str, occ: Occ) -> Item {
    Item::El(El { name: name.into(), ty: Ty::Lit(lit), occ, fixed: Some(fixed.into()), default: None, form: None, eref: None, docs: None })
}
pub fn group(kind: Kind, occ: Occ, items: Vec<Item>) -> Group {
    Group { kind, occ, items, docs: None }
}
pub fn gi(kind: Kind, occ: Occ, items: Vec<Item>) -> Item {
    Item::Group(group(kind, occ, items))
}
pub fn seq(items: Vec<Item>) -> Complex {
    cx(Content::Group(group(Kind::Seq, ONE, items)), vec![])
}
pub fn cx(content: Content, attrs: Vec<Attr>) -> Complex {
    Complex { content, attrs, docs: None }
}
pub fn at(name: &str, ty: Ty, use_: Use) -> Attr {
    Attr { name: name.into(), ty, use_, default: None, fixed: None, docs: None }
}
pub fn dcx(name: &str, c: Complex) -> Decl {
    Decl::Complex { name: name.into(), c }
}
pub fn dsi(name: &str, s: Simple) -> Decl {
    Decl::Simple { name: name.into(), s }
}
pub fn del(name: &str, ty: Ty) -> Decl {
    Decl::El { name: name.into(), ty, fixed: None, docs: None }
}
pub fn cty(c: Complex) -> Ty {
    Ty::Complex(Box::new(c))
}
pub fn file(decls: Vec<Decl>) -> File {
    File { path: "main.xsd".into(), tns: None, form: Form::Absent, style: RefStyle::Prefix, links: vec![], decls }
}
pub fn suite(family: &'static str, desc: String, decls: Vec<Decl>) -> Suite {
    suite_files(family, desc, vec![file(decls)])
}
pub fn suite_files(family: &'static str, desc: String, files: Vec<File>) -> Suite {
    Suite { family, desc, files, root: "root".into(), root_file: 0, root_ty: "Root".into(), loose: false, opt: DocOpt::default() }
}

// ---------------------------------------------------------------- rendering

pub fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '&' => r.push_str("&amp;"),
            '<' => r.push_str("&lt;"),
            '>' => r.push_str("&gt;"),
            '"' => r.push_str("&quot;"),
            '\n' => r.push_str("&#10;"),
            '\r' => r.push_str("&#13;"),
            '\t' => r.push_str("&#9;"),
            c => r.push(c),
        }
    }
    r
}

pub struct Render<'a> {
    file: &'a File,
    /// namespace uri -> prefix
    prefixes: Vec<(String, String)>,
    out: String,
    ind: usize,
}

fn collect_ns_ty(t: &Ty, out: &mut Vec<String>) {
    match t {
        Ty::Ref(r) => out.extend(r.ns.clone()),
        Ty::Complex(c) => collect_ns_cx(c, out),
        _ => {}
    }
}
fn collect_ns_group(g: &Group, out: &mut Vec<String>) {
    for i in &g.items {
        match i {
            Item::El(e) => {
                collect_ns_ty(&e.ty, out);
                if let Some(r) = &e.eref {
                    out.extend(r.ns.clone());
                }
            }
            Item::Group(g) => collect_ns_group(g, out),
        }
    }
}
fn collect_ns_cx(c: &Complex, out: &mut Vec<String>) {
    for a in &c.attrs {
        collect_ns_ty(&a.ty, out);
    }
    match &c.content {
        Content::Empty => {}
        Content::Group(g) => collect_ns_group(g, out),
        Content::SimpleExt(t) => collect_ns_ty(t, out),
        Content::ComplexExt { base, seq } => {
            out.extend(base.ns.clone());
            if let Some(g) = seq {
                collect_ns_group(g, out)
            }
        }
    }
}

impl<'a> Render<'a> {
    pub fn render(file: &'a File, all: &[File]) -> String {
        let mut uris = vec![];
        uris.extend(file.tns.clone());
        for d in &file.decls {
            match d {
                Decl::El { ty, .. } => collect_ns_ty(ty, &mut uris),
                Decl::Complex { c, .. } => collect_ns_cx(c, &mut uris),
                Decl::Simple { .. } => {}
            }
        }
        for l in &file.links {
            uris.extend(all[l.file].tns.clone());
        }
        let mut seen: Vec<String> = vec![];
        for u in uris {
            if !seen.contains(&u) {
                seen.push(u);
            }
        }
        let prefixes = seen.into_iter().enumerate().map(|(i, u)| (u, format!("p{i}"))).collect();
        let mut r = Render { file, prefixes, out: String::new(), ind: 0 };
        r.schema(all);
        r.out
    }

    fn x(&self, local: &str) -> String {
        if self.file.style == RefStyle::XsdDefault { local.to_string() } else { format!("xs:{local}") }
    }

    fn qref(&self, r: &QRef) -> String {
        match &r.ns {
            None => r.local.clone(),
            Some(ns) => {
                if self.file.style == RefStyle::DefaultNs && self.file.tns.as_ref() == Some(ns) {
                    return r.local.clone();
                }
                let p = &self.prefixes.iter().find(|(u, _)| u == ns).expect("prefix").1;
                format!("{p}:{}", r.local)
            }
        }
    }

    fn open(&mut self, local: &str, attrs: &str) {
        let l = format!("{}<{}{}>\n", "  ".repeat(self.ind), self.x(local), attrs);
        self.out += &l;
        self.ind += 1;
    }
    fn close(&mut self, local: &str) {
        self.ind -= 1;
        let l = format!("{}</{}>\n", "  ".repeat(self.ind), self.x(local));
        self.out += &l;
    }
    fn empty(&mut self, local: &str, attrs: &str) {
        let l = format!("{}<{}{}/>\n", "  ".repeat(self.ind), self.x(local), attrs);
        self.out += &l;
    }
    fn docs(&mut self, d: &Option<String>) {
        if let Some(d) = d {
            self.open("annotation", "");
            let l = format!("{}<{}>{}</{}>\n", "  ".repeat(self.ind), self.x("documentation"), esc(d), self.x("documentation"));
            self.out += &l;
            self.close("annotation");
        }
    }

    fn schema(&mut self, all: &[File]) {
        let f = self.file;
        let mut a = String::new();
        if f.style == RefStyle::XsdDefault {
            a += &format!(" xmlns=\"{NS_XSD}\"");
        } else {
            a += &format!(" xmlns:xs=\"{NS_XSD}\"");
        }
        match f.form {
            Form::Absent => {}
            Form::Qualified => a += " elementFormDefault=\"qualified\"",
            Form::Unqualified => a += " elementFormDefault=\"unqualified\"",
        }
        if let Some(t) = &f.tns {
            a += &format!(" targetNamespace=\"{}\"", esc(t));
            if f.style == RefStyle::DefaultNs {
                a += &format!(" xmlns=\"{}\"", esc(t));
            }
        }
        for (u, p) in &self.prefixes {
            a += &format!(" xmlns:{p}=\"{}\"", esc(u));
        }
        self.open("schema", &a);
        for l in &f.links {
            let mut a = String::new();
            if l.import {
                if let Some(t) = &all[l.file].tns {
                    a += &format!(" namespace=\"{}\"", esc(t));
                }
            }
            a += &format!(" schemaLocation=\"{}\"", esc(&l.location));
            self.empty(if l.import { "import" } else { "include" }, &a);
        }
        for d in &f.decls {
            match d {
                Decl::El { name, ty, fixed, docs } => {
                    self.element(&format!(" name=\"{}\"", esc(name)), ty, fixed, docs)
                }
                Decl::Complex { name, c } => self.complex(&format!(" name=\"{}\"", esc(name)), c),
                Decl::Simple { name, s } => self.simple(&format!(" name=\"{}\"", esc(name)), s),
            }
        }
        self.close("schema");
    }

    fn lit(&self, l: &Lit) -> String {
        self.x(l.xsd())
    }

    fn element(&mut self, attrs: &str, ty: &Ty, fixed: &Option<String>, docs: &Option<String>) {
        let mut a = attrs.to_string();
        match ty {
            Ty::Lit(l) => a += &format!(" type=\"{}\"", self.lit(l)),
            Ty::Ref(r) => a += &format!(" type=\"{}\"", self.qref(r)),
            _ => {}
        }
        if let Some(f) = fixed {
            a += &format!(" fixed=\"{}\"", esc(f));
        }
        let inline = matches!(ty, Ty::Simple(_) | Ty::Complex(_));
        if !inline && docs.is_none() {
            self.empty("element", &a);
            return;
        }
        self.open("element", &a);
        self.docs(docs);
        match ty {
            Ty::Simple(s) => self.simple("", s),
            Ty::Complex(c) => self.complex("", c),
            _ => {}
        }
        self.close("element");
    }

    fn simple(&mut self, attrs: &str, s: &Simple) {
        self.open("simpleType", attrs);
        self.docs(&s.docs);
        let a = format!(" base=\"{}\"", self.lit(&s.base));
        if s.facets.is_empty() && s.values.is_empty() {
            self.empty("restriction", &a);
        } else {
            self.open("restriction", &a);
            for v in &s.values {
                self.empty("enumeration", &format!(" value=\"{}\"", esc(v)));
            }
            for (f, v) in &s.facets {
                self.empty(f, &format!(" value=\"{}\"", esc(v)));
            }
            self.close("restriction");
        }
        self.close("simpleType");
    }

    fn attr(&mut self, at: &Attr) {
        let mut a = format!(" name=\"{}\"", esc(&at.name));
        match &at.ty {
            Ty::Lit(l) => a += &format!(" type=\"{}\"", self.lit(l)),
            Ty::Ref(r) => a += &format!(" type=\"{}\"", self.qref(r)),
            _ => {}
        }
        match at.use_ {
            Use::Absent => {}
            Use::Optional => a += " use=\"optional\"",
            Use::Required => a += " use=\"required\"",
            Use::Prohibited => a += " use=\"prohibited\"",
        }
        if let Some(d) = &at.default {
            a += &format!(" default=\"{}\"", esc(d));
        }
        if let Some(d) = &at.fixed {
            a += &format!(" fixed=\"{}\"", esc(d));
        }
        if let Ty::Simple(s) = &at.ty {
            self.open("attribute", &a);
            self.docs(&at.docs);
            self.simple("", s);
            self.close("attribute");
        } else if at.docs.is_some() {
            self.open("attribute", &a);
            self.docs(&at.docs);
            self.close("attribute");
        } else {
            self.empty("attribute", &a);
        }
    }

    fn complex(&mut self, attrs: &str, c: &Complex) {
        self.open("complexType", attrs);
        self.docs(&c.docs);
        match &c.content {
            Content::Empty => {
                for a in &c.attrs {
                    self.attr(a);
                }
            }
            Content::Group(g) => {
                self.group(g);
                for a in &c.attrs {
                    self.attr(a);
                }
            }
            Content::SimpleExt(t) => {
                self.open("simpleContent", "");
                let b = match t {
                    Ty::Lit(l) => self.lit(l),
                    Ty::Ref(r) => self.qref(r),
                    _ => panic!("simple content base"),
                };
                self.open("extension", &format!(" base=\"{b}\""));
                for a in &c.attrs {
                    self.attr(a);
                }
                self.close("extension");
                self.close("simpleContent");
            }
            Content::ComplexExt { base, seq } => {
                self.open("complexContent", "");
                let b = self.qref(base);
                self.open("extension", &format!(" base=\"{b}\""));
                if let Some(g) = seq {
                    self.group(g);
                }
                for a in &c.attrs {
                    self.attr(a);
                }
                self.close("extension");
                self.close("complexContent");
            }
        }
        self.close("complexType");
    }

    fn group(&mut self, g: &Group) {
        let n = match g.kind {
            Kind::Seq => "sequence",
            Kind::Choice => "choice",
            Kind::All => "all",
        };
        self.open(n, &g.occ.attrs());
        self.docs(&g.docs);
        for i in &g.items {
            match i {
                Item::Group(g) => self.group(g),
                Item::El(e) => {
                    let mut a = String::new();
                    if let Some(r) = &e.eref {
                        a += &format!(" ref=\"{}\"", self.qref(r));
                        a += &e.occ.attrs();
                        self.empty("element", &a);
                        continue;
                    }
                    a += &format!(" name=\"{}\"", esc(&e.name));
                    a += &e.occ.attrs();
                    if let Some(d) = &e.default {
                        a += &format!(" default=\"{}\"", esc(d));
                    }
                    match e.form {
                        None => {}
                        Some(true) => a += " form=\"qualified\"",
                        Some(false) => a += " form=\"unqualified\"",
                    }
                    self.element(&a, &e.ty, &e.fixed, &e.docs);
                }
            }
        }
        self.close(n);
    }
}
