//! Reference semantics of a schema: a predictive decoder over document trees, written from the
//! XSD rules and the documented Rust shapes, not from the code under test.

use crate::model::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type QName = (Option<String>, String);

/// Document tree.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct XNode {
    pub ns: Option<String>,
    pub name: String,
    pub attrs: Vec<(Option<String>, String, String)>,
    pub text: String,
    pub kids: Vec<XNode>,
}

impl XNode {
    pub fn new(q: &QName) -> XNode {
        XNode { ns: q.0.clone(), name: q.1.clone(), attrs: vec![], text: String::new(), kids: vec![] }
    }
    pub fn qname(&self) -> QName {
        (self.ns.clone(), self.name.clone())
    }
}

/// Expected text of an encoded element or attribute.
#[derive(Clone, Debug, PartialEq)]
pub enum Text {
    /// no text (element content or empty)
    None,
    Exact(String),
    /// any spelling XSD allows for the same value
    Scalar(Lit, String),
}

/// Expected encoded tree.
#[derive(Clone, Debug)]
pub struct Canon {
    pub q: QName,
    pub attrs: BTreeMap<String, Text>,
    pub text: Text,
    pub kids: Vec<Canon>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    /// debug text of a boolean, integer or float
    Raw(String),
    Dec(String),
    Unit,
    New(Box<Val>),
    Rec { key: String, ty: Option<String>, fields: Vec<(Option<String>, Val)> },
    /// enumeration value; key identifies the enumeration type
    Enum { key: String, value: String },
    /// choice alternative; key identifies the choice, alt the alternative
    Alt { key: String, alt: usize, name: Option<String>, inner: Box<Val> },
    None,
    Some(Box<Val>),
    List(Vec<Val>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Reason {
    MissingElement(QName),
    MissingAttribute(String),
    MissingVariant,
    InvalidVariant(String),
    ParseType(String),
    /// name of the element that has elements but no text at all
    TextExpected(String),
    /// expected and received text
    FixedMismatch(String, String),
    /// some error, no matter which
    Any,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Valid { val: Val, canon: Canon },
    /// must be refused, with one of these reasons
    Reject(BTreeSet<Reason>),
    /// either outcome is acceptable, but no panic
    Unspec,
}

pub struct Env<'a> {
    pub suite: &'a Suite,
    types: HashMap<QName, (usize, usize)>,
    els: HashMap<QName, (usize, usize)>,
}

#[derive(Default)]
pub struct St {
    pub reasons: BTreeSet<Reason>,
    pub unspec: bool,
}

pub fn snake(s: &str) -> String {
    let mut r = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        if matches!(c, '-' | '.' | '_' | ' ') {
            if !r.is_empty() && !r.ends_with('_') {
                r.push('_');
            }
        } else if c.is_uppercase() {
            if i > 0 && !r.is_empty() && !r.ends_with('_') && !cs[i - 1].is_uppercase() {
                r.push('_');
            }
            r.extend(c.to_lowercase());
        } else {
            r.push(*c);
        }
    }
    r
}

pub fn pascal(s: &str) -> String {
    let mut r = String::new();
    let mut up = true;
    for c in s.chars() {
        if matches!(c, '-' | '.' | '_' | ' ') {
            up = true;
        } else if up {
            r.extend(c.to_uppercase());
            up = false;
        } else {
            r.push(c);
        }
    }
    r
}

/// Rust name of the type generated for a definition.
pub fn type_name(s: &str) -> String {
    let p = pascal(s);
    match p.as_str() {
        "AsRef" | "Box" | "Err" | "None" | "Ok" | "Option" | "Result" | "Some" | "String" | "Vec" => p + "_",
        _ => p,
    }
}

/// Resolved scalar/complex type.
pub enum RTy<'a> {
    Lit(Lit),
    Enum { key: String, s: &'a Simple },
    Complex { file: usize, key: String, name: Option<String>, c: &'a Complex },
}

pub struct RRes<'a> {
    pub ty: RTy<'a>,
    pub fixed: Option<&'a str>,
}

impl<'a> Env<'a> {
    pub fn new(suite: &'a Suite) -> Env<'a> {
        let mut types = HashMap::new();
        let mut els = HashMap::new();
        for (f, file) in suite.files.iter().enumerate() {
            for (d, decl) in file.decls.iter().enumerate() {
                let q = (file.tns.clone(), decl.name().to_string());
                match decl {
                    Decl::El { .. } => els.insert(q, (f, d)),
                    _ => types.insert(q, (f, d)),
                };
            }
        }
        Env { suite, types, els }
    }

    fn decl(&self, (f, d): (usize, usize)) -> (usize, &'a Decl) {
        (f, &self.suite.files[f].decls[d])
    }

    pub fn global_el(&self, r: &QRef) -> (usize, &'a Decl) {
        self.decl(*self.els.get(&(r.ns.clone(), r.local.clone())).unwrap_or_else(|| panic!("no element {r:?} in {}", self.suite.desc)))
    }

    pub fn root(&self) -> (QName, RRes<'a>, bool) {
        let file = &self.suite.files[self.suite.root_file];
        let r = QRef { ns: file.tns.clone(), local: self.suite.root.clone() };
        let (f, d) = self.global_el(&r);
        let Decl::El { ty, fixed, .. } = d else { unreachable!() };
        let newtype = match ty {
            // an element is represented by its type if both have the same name
            Ty::Ref(q) if *q == r => match self.decl(self.types[&(q.ns.clone(), q.local.clone())]).1 {
                Decl::Simple { s, .. } => s.values.is_empty(),
                _ => false,
            },
            Ty::Lit(_) | Ty::Ref(_) | Ty::None => true,
            Ty::Simple(s) => s.values.is_empty(),
            Ty::Complex(_) => false,
        };
        let key = format!("el:{:?}:{}", file.tns, self.suite.root);
        let mut res = self.resolve(f, ty, &key, true);
        if fixed.is_some() {
            res.fixed = fixed.as_deref();
        }
        if let RTy::Complex { name, .. } = &mut res.ty {
            if name.is_none() {
                *name = Some(self.suite.root_ty.clone());
            }
        }
        ((file.tns.clone(), self.suite.root.clone()), res, newtype)
    }

    /// `key` identifies the place of an inline definition.
    pub fn resolve(&self, file: usize, ty: &'a Ty, key: &str, _top: bool) -> RRes<'a> {
        let t = match ty {
            Ty::None => RTy::Lit(Lit::AnyType),
            Ty::Lit(l) => RTy::Lit(*l),
            Ty::Simple(s) => self.simple(s, key),
            Ty::Complex(c) => RTy::Complex { file, key: key.to_string(), name: None, c },
            Ty::Ref(r) => {
                let q = (r.ns.clone(), r.local.clone());
                let (f, d) = match self.types.get(&q) {
                    Some(d) => self.decl(*d),
                    // the name of an element stands for its type
                    None => self.global_el(r),
                };
                if let Decl::El { ty, name, fixed, .. } = d {
                    let mut res = self.resolve(f, ty, &format!("el:{:?}:{}", r.ns, r.local), true);
                    res.fixed = res.fixed.or(fixed.as_deref());
                    if let RTy::Complex { name: n @ None, .. } = &mut res.ty {
                        *n = Some(type_name(name));
                    }
                    return res;
                }
                let key = format!("ty:{:?}:{}", r.ns, r.local);
                match d {
                    Decl::Simple { s, .. } => self.simple(s, &key),
                    Decl::Complex { name, c } => RTy::Complex { file: f, key, name: Some(type_name(name)), c },
                    Decl::El { .. } => unreachable!(),
                }
            }
        };
        RRes { ty: t, fixed: None }
    }

    /// The complex type named by an extension base.
    pub fn base(&self, r: &QRef) -> RRes<'a> {
        let (f, d) = self.decl(self.types[&(r.ns.clone(), r.local.clone())]);
        let Decl::Complex { name, c } = d else { panic!("base") };
        let key = format!("ty:{:?}:{}", r.ns, r.local);
        RRes { ty: RTy::Complex { file: f, key, name: Some(type_name(name)), c }, fixed: None }
    }

    fn simple(&self, s: &'a Simple, key: &str) -> RTy<'a> {
        if s.values.is_empty() {
            RTy::Lit(s.base)
        } else {
            RTy::Enum { key: key.to_string(), s }
        }
    }

    /// Name, type, fixed value of an element particle declared in `file`.
    pub fn el(&self, file: usize, e: &'a El, key: &str) -> (QName, String, RRes<'a>) {
        if let Some(r) = &e.eref {
            let (f, d) = self.global_el(r);
            let Decl::El { name, ty, fixed, .. } = d else { unreachable!() };
            let key = format!("el:{:?}:{}", r.ns, r.local);
            let mut res = self.resolve(f, ty, &key, true);
            if fixed.is_some() {
                res.fixed = fixed.as_deref();
            }
            if let RTy::Complex { name: n @ None, .. } = &mut res.ty {
                *n = Some(type_name(name));
            }
            return ((r.ns.clone(), r.local.clone()), r.local.clone(), res);
        }
        let f = &self.suite.files[file];
        let qualified = e.form.unwrap_or(f.form == Form::Qualified);
        let ns = if qualified { f.tns.clone() } else { None };
        let mut res = self.resolve(file, &e.ty, &format!("{key}/{}", e.name), false);
        if e.fixed.is_some() {
            res.fixed = e.fixed.as_deref();
        }
        ((ns, e.name.clone()), e.name.clone(), res)
    }

    pub fn first(&self, file: usize, g: &'a Group) -> (BTreeSet<QName>, bool) {
        let (set, nullable) = self.first_once(file, g);
        (set, nullable || g.occ.min == 0)
    }

    /// As `first`, for one occurrence of the group.
    fn first_once(&self, file: usize, g: &'a Group) -> (BTreeSet<QName>, bool) {
        let mut set = BTreeSet::new();
        let mut nullable = g.kind != Kind::Choice;
        let mut open = true;
        for i in &g.items {
            let (s, n) = match i {
                Item::El(e) => {
                    let (q, _, _) = self.el(file, e, "");
                    (BTreeSet::from([q]), e.occ.min == 0)
                }
                Item::Group(g) => {
                    let (s, n) = self.first(file, g);
                    (s, n || g.occ.min == 0)
                }
            };
            match g.kind {
                Kind::Choice => {
                    set.extend(s);
                    nullable |= n;
                }
                Kind::All => {
                    set.extend(s);
                    nullable &= n;
                }
                Kind::Seq => {
                    if open {
                        set.extend(s);
                    }
                    if !n {
                        open = false;
                        nullable = false;
                    }
                }
            }
        }
        (set, nullable)
    }

    pub fn decode(&self, root: &XNode) -> Verdict {
        let (q, res, newtype) = self.root();
        let mut st = St::default();
        if root.qname() != q {
            return Verdict::Reject(BTreeSet::from([Reason::MissingElement(q)]));
        }
        let mut canon = Canon { q: q.clone(), attrs: BTreeMap::new(), text: Text::None, kids: vec![] };
        let val = self.value(&res, root, &mut canon, &mut st);
        let val = if newtype { Val::New(Box::new(val)) } else { val };
        if !st.reasons.is_empty() {
            if st.unspec {
                Verdict::Reject(BTreeSet::from([Reason::Any]))
            } else {
                Verdict::Reject(st.reasons)
            }
        } else if st.unspec {
            Verdict::Unspec
        } else {
            Verdict::Valid { val, canon }
        }
    }

    fn scalar(&self, lit: Lit, text: &str, st: &mut St) -> (Val, Text) {
        match lex(lit, text) {
            Lex::Ok { dbg, .. } => {
                let v = match lit.repr() {
                    Repr::Str => Val::Str(dbg.clone()),
                    Repr::Dec => Val::Dec(dbg.clone()),
                    _ => Val::Raw(dbg.clone()),
                };
                (v, Text::Scalar(lit, text.to_string()))
            }
            Lex::Bad => {
                st.reasons.insert(Reason::ParseType(text.to_string()));
                (Val::Unit, Text::None)
            }
            Lex::Unspecified => {
                st.unspec = true;
                (Val::Unit, Text::None)
            }
        }
    }

    fn enum_(&self, key: &str, s: &Simple, text: &str, st: &mut St) -> (Val, Text) {
        if s.values.iter().any(|v| v == text) {
            (Val::Enum { key: key.to_string(), value: text.to_string() }, Text::Exact(text.to_string()))
        } else {
            if s.base != Lit::String {
                st.unspec = true;
            } else {
                st.reasons.insert(Reason::InvalidVariant(text.to_string()));
            }
            (Val::Unit, Text::None)
        }
    }

    fn fixed(&self, lit: Option<Lit>, fixed: &str, text: &str, attr: bool, st: &mut St) -> (Val, Text) {
        if text == fixed {
            return (Val::Unit, Text::Exact(fixed.to_string()));
        }
        let same = match lit {
            Some(l) if l.repr() != Repr::Str => match (lex(l, fixed), lex(l, text)) {
                (Lex::Ok { dbg: a, .. }, Lex::Ok { dbg: b, .. }) => a == b,
                (_, Lex::Unspecified) => true,
                _ => false,
            },
            Some(Lit::String) | None => false,
            _ => text.trim() == fixed.trim(),
        };
        if same || (text.is_empty() && !attr) {
            st.unspec = true;
        } else {
            st.reasons.insert(Reason::FixedMismatch(fixed.to_string(), text.to_string()));
            if lit.map_or(false, |l| l.repr() != Repr::Str) {
                st.reasons.insert(Reason::ParseType(text.to_string()));
            }
        }
        (Val::Unit, Text::None)
    }

    pub fn value(&self, res: &RRes<'a>, node: &XNode, out: &mut Canon, st: &mut St) -> Val {
        match &res.ty {
            RTy::Lit(_) | RTy::Enum { .. } => {
                let str_like = match &res.ty {
                    RTy::Lit(l) => l.repr() == Repr::Str,
                    _ => false,
                };
                if !node.kids.is_empty() && node.text.is_empty() && !matches!(&res.ty, RTy::Lit(Lit::AnyType)) {
                    st.reasons.insert(Reason::TextExpected(node.name.clone()));
                    return Val::Unit;
                }
                if !node.kids.is_empty() && (str_like || res.fixed.is_some() || !node.text.trim().is_empty()) {
                    st.unspec = true;
                    return Val::Unit;
                }
                if !node.kids.is_empty() {
                    st.reasons.insert(Reason::Any);
                    st.unspec = true;
                    return Val::Unit;
                }
                let (v, t) = if let Some(f) = res.fixed {
                    let l = if let RTy::Lit(l) = &res.ty { Some(*l) } else { None };
                    self.fixed(l, f, &node.text, false, st)
                } else {
                    match &res.ty {
                        RTy::Lit(l) => self.scalar(*l, &node.text, st),
                        RTy::Enum { key, s } => self.enum_(key, s, &node.text, st),
                        _ => unreachable!(),
                    }
                };
                out.text = t;
                v
            }
            RTy::Complex { file, key, name, c } => {
                let mut cur = Cursor { kids: node.kids.iter().collect() };
                let (v, _) = self.complex(*file, key, name.clone(), c, node, &mut cur, out, st);
                if !cur.kids.is_empty() {
                    st.unspec = true;
                }
                v
            }
        }
    }

    fn simple_content(&self, c: &Complex, file: usize) -> bool {
        match &c.content {
            Content::SimpleExt(_) => true,
            Content::ComplexExt { base, .. } => {
                let t = Ty::Ref(base.clone());
                let _ = file;
                let q = (base.ns.clone(), base.local.clone());
                let _ = t;
                match self.types.get(&q).map(|x| self.decl(*x)) {
                    Some((f, Decl::Complex { c, .. })) => self.simple_content(c, f),
                    _ => false,
                }
            }
            _ => false,
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn complex(
        &self,
        file: usize,
        key: &str,
        name: Option<String>,
        c: &'a Complex,
        node: &XNode,
        cur: &mut Cursor<'_>,
        out: &mut Canon,
        st: &mut St,
    ) -> (Val, bool) {
        let mut whole = true;
        if !self.simple_content(c, file) && !node.text.trim().is_empty() {
            st.unspec = true;
        }
        let mut fields = vec![];
        match &c.content {
            Content::Empty => {}
            Content::Group(g) => {
                let anon = g.kind == Kind::Choice || g.occ != ONE;
                let ok = if anon {
                    match self.group(file, key, g, g.occ, cur, out, st) {
                        Some(v) => {
                            fields.push((None, v));
                            true
                        }
                        None => false,
                    }
                } else {
                    self.items(file, key, g, cur, out, st, &mut fields)
                };
                if !ok {
                    whole = false;
                    cur.kids.clear();
                }
            }
            Content::SimpleExt(t) => {
                let res = self.resolve(file, t, key, false);
                let v = match &res.ty {
                    RTy::Complex { file, key, name, c } => self.complex(*file, key, name.clone(), c, node, cur, out, st).0,
                    _ => {
                        let v = self.value(&res, node, out, st);
                        cur.kids.clear();
                        v
                    }
                };
                fields.push((None, v));
            }
            Content::ComplexExt { base, seq } => {
                let q = (base.ns.clone(), base.local.clone());
                let (f, d) = self.decl(self.types[&q]);
                let Decl::Complex { name, c } = d else { panic!("base") };
                let bkey = format!("ty:{:?}:{}", base.ns, base.local);
                let (v, ok) = self.complex(f, &bkey, Some(type_name(name)), c, node, cur, out, st);
                fields.push((None, v));
                whole = ok;
                if let Some(g) = seq {
                    if !ok {
                        // base content failed: do not guess about the rest
                        cur.kids.clear();
                    } else {
                        let present = !g.occ.is_opt() || cur.peek().is_some_and(|q| self.first(file, g).0.contains(&q));
                        if present {
                            let mut fs = vec![];
                            if !self.items(file, &format!("{key}+"), g, cur, out, st, &mut fs) {
                                whole = false;
                                cur.kids.clear();
                            }
                            let v = Val::Rec { key: format!("{key}+"), ty: None, fields: fs };
                            fields.push((None, if g.occ.is_opt() { Val::Some(Box::new(v)) } else { v }));
                        } else {
                            fields.push((None, Val::None));
                        }
                    }
                }
            }
        }
        for a in &c.attrs {
            if a.use_ == Use::Prohibited {
                continue;
            }
            let text = node.attrs.iter().find(|(ns, n, _)| ns.is_none() && *n == a.name).map(|x| x.2.as_str());
            let opt = a.use_ != Use::Required;
            let v = match text {
                None => {
                    if !opt {
                        st.reasons.insert(Reason::MissingAttribute(a.name.clone()));
                    }
                    Val::None
                }
                Some(text) => {
                    let res = self.resolve(file, &a.ty, &format!("{key}/@{}", a.name), false);
                    let (v, t) = match (&res.ty, &a.fixed) {
                        (RTy::Lit(l), Some(f)) => self.fixed(Some(*l), f, text, true, st),
                        (RTy::Lit(l), None) => self.scalar(*l, text, st),
                        (RTy::Enum { key, s }, _) => self.enum_(key, s, text, st),
                        _ => panic!("attribute type"),
                    };
                    out.attrs.insert(a.name.clone(), t);
                    if opt { Val::Some(Box::new(v)) } else { v }
                }
            };
            fields.push((Some(a.name.clone()), v));
        }
        (Val::Rec { key: key.to_string(), ty: name, fields }, whole)
    }

    /// Items of a sequence or all group, read as fields of one record.
    #[allow(clippy::too_many_arguments)]
    fn items(
        &self,
        file: usize,
        key: &str,
        g: &'a Group,
        cur: &mut Cursor<'_>,
        out: &mut Canon,
        st: &mut St,
        fields: &mut Vec<(Option<String>, Val)>,
    ) -> bool {
        for (i, item) in g.items.iter().enumerate() {
            match item {
                Item::El(e) => {
                    let (q, fname, res) = self.el(file, e, key);
                    let Some(v) = self.element(&q, &res, e.occ, g.kind == Kind::All, cur, out, st) else { return false };
                    fields.push((Some(fname), v));
                }
                Item::Group(h) => {
                    let Some(v) = self.group(file, &format!("{key}#{i}"), h, h.occ, cur, out, st) else { return false };
                    fields.push((None, v));
                }
            }
        }
        true
    }

    #[allow(clippy::too_many_arguments)]
    fn element(
        &self,
        q: &QName,
        res: &RRes<'a>,
        occ: Occ,
        any_order: bool,
        cur: &mut Cursor<'_>,
        out: &mut Canon,
        st: &mut St,
    ) -> Option<Val> {
        let take = |cur: &mut Cursor<'_>, out: &mut Canon, st: &mut St| -> Option<Val> {
            let n = if any_order { cur.take_any(q) } else { cur.take(q) }?;
            let mut c = Canon { q: q.clone(), attrs: BTreeMap::new(), text: Text::None, kids: vec![] };
            let v = self.value(res, n, &mut c, st);
            out.kids.push(c);
            Some(v)
        };
        if occ.is_vec() {
            let mut vs = vec![];
            while let Some(v) = take(cur, out, st) {
                vs.push(v);
            }
            let n = vs.len() as u32;
            if n > 0 && n < occ.min || occ.max.is_some_and(|m| n > m) || (n == 0 && occ.min > 0) {
                st.unspec = true;
            }
            Some(if occ.is_opt() {
                if vs.is_empty() { Val::None } else { Val::Some(Box::new(Val::List(vs))) }
            } else {
                Val::List(vs)
            })
        } else {
            match take(cur, out, st) {
                Some(v) => Some(if occ.is_opt() { Val::Some(Box::new(v)) } else { v }),
                None if occ.is_opt() => Some(Val::None),
                None => {
                    st.reasons.insert(Reason::MissingElement(q.clone()));
                    None
                }
            }
        }
    }

    /// A group read as one anonymous value.
    #[allow(clippy::too_many_arguments)]
    fn group(&self, file: usize, key: &str, g: &'a Group, occ: Occ, cur: &mut Cursor<'_>, out: &mut Canon, st: &mut St) -> Option<Val> {
        let (first, nullable) = self.first_once(file, g);
        let here = |cur: &Cursor<'_>| cur.peek().is_some_and(|q| first.contains(&q));
        if g.kind == Kind::All && occ.is_opt() && !here(cur) && cur.kids.iter().any(|k| first.contains(&k.qname())) {
            // members behind a foreign element: whether that is the group or ignored content is open
            st.unspec = true;
            return Some(Val::None);
        }
        if occ.is_vec() {
            let mut vs = vec![];
            while here(cur) {
                vs.push(self.once(file, key, g, nullable, cur, out, st)?);
            }
            let n = vs.len() as u32;
            if n > 0 && n < occ.min || occ.max.is_some_and(|m| n > m) || (n == 0 && occ.min > 0) {
                st.unspec = true;
            }
            return Some(if occ.is_opt() {
                if vs.is_empty() { Val::None } else { Val::Some(Box::new(Val::List(vs))) }
            } else {
                Val::List(vs)
            });
        }
        if occ.is_opt() {
            if !here(cur) {
                return Some(Val::None);
            }
            return self.once(file, key, g, nullable, cur, out, st).map(|v| Val::Some(Box::new(v)));
        }
        self.once(file, key, g, nullable, cur, out, st)
    }

    #[allow(clippy::too_many_arguments)]
    fn once(&self, file: usize, key: &str, g: &'a Group, nullable: bool, cur: &mut Cursor<'_>, out: &mut Canon, st: &mut St) -> Option<Val> {
        if g.kind != Kind::Choice {
            let mut fields = vec![];
            if !self.items(file, key, g, cur, out, st, &mut fields) {
                return None;
            }
            return Some(Val::Rec { key: format!("{key}*"), ty: None, fields });
        }
        let next = cur.peek();
        for (i, item) in g.items.iter().enumerate() {
            match item {
                Item::El(e) => {
                    let (q, fname, res) = self.el(file, e, key);
                    if next.as_ref() != Some(&q) {
                        continue;
                    }
                    let occ = if e.occ.is_vec() { Occ { min: e.occ.min.max(1), max: e.occ.max } } else { ONE };
                    let v = self.element(&q, &res, occ, false, cur, out, st)?;
                    return Some(Val::Alt { key: key.to_string(), alt: i, name: Some(pascal(&fname)), inner: Box::new(v) });
                }
                Item::Group(h) => {
                    let (f, _) = self.first(file, h);
                    if !next.as_ref().is_some_and(|n| f.contains(n)) {
                        continue;
                    }
                    let occ = if h.occ.is_vec() { Occ { min: h.occ.min.max(1), max: h.occ.max } } else { ONE };
                    let v = self.group(file, &format!("{key}#{i}"), h, occ, cur, out, st)?;
                    return Some(Val::Alt { key: key.to_string(), alt: i, name: None, inner: Box::new(v) });
                }
            }
        }
        if nullable {
            st.unspec = true;
        } else {
            st.reasons.insert(Reason::MissingVariant);
        }
        None
    }

    /// Overlapping alternatives or ambiguous repetition anywhere: such schemas are not explored.
    pub fn ambiguous(&self) -> bool {
        fn seq_conflict<'a>(env: &Env<'a>, file: usize, g: &'a Group) -> bool {
            // parts in order, each with (first, nullable, repeatable)
            let mut parts = vec![];
            for i in &g.items {
                match i {
                    Item::El(e) => parts.push((BTreeSet::from([env.el(file, e, "").0]), e.occ.min == 0, e.occ.is_vec())),
                    Item::Group(h) => {
                        if seq_conflict(env, file, h) {
                            return true;
                        }
                        let (f, n) = env.first(file, h);
                        parts.push((f, n, h.occ.is_vec()));
                    }
                }
            }
            match g.kind {
                Kind::Choice | Kind::All => {
                    for a in 0..parts.len() {
                        for b in a + 1..parts.len() {
                            if !parts[a].0.is_disjoint(&parts[b].0) {
                                return true;
                            }
                        }
                    }
                    false
                }
                Kind::Seq => {
                    // conservative: every element name may occur in one part only
                    let mut seen = BTreeSet::new();
                    for i in &g.items {
                        let mut names = BTreeSet::new();
                        env.names(file, i, &mut names);
                        if !seen.is_disjoint(&names) {
                            return true;
                        }
                        seen.extend(names);
                    }
                    false
                }
            }
        }
        fn cx<'a>(env: &Env<'a>, file: usize, c: &'a Complex) -> bool {
            match &c.content {
                Content::Group(g) => seq_conflict(env, file, g) || items(env, file, g),
                Content::ComplexExt { seq: Some(g), .. } => seq_conflict(env, file, g) || items(env, file, g),
                _ => false,
            }
        }
        fn items<'a>(env: &Env<'a>, file: usize, g: &'a Group) -> bool {
            g.items.iter().any(|i| match i {
                Item::Group(h) => items(env, file, h),
                Item::El(e) => match &e.ty {
                    Ty::Complex(c) => cx(env, file, c),
                    _ => false,
                },
            })
        }
        for (f, file) in self.suite.files.iter().enumerate() {
            for d in &file.decls {
                let bad = match d {
                    Decl::El { ty: Ty::Complex(c), .. } => cx(self, f, c),
                    Decl::Complex { c, .. } => cx(self, f, c),
                    _ => false,
                };
                if bad {
                    return true;
                }
            }
        }
        false
    }

    /// Unique particle attribution: whether the next element of a document can always be assigned
    /// to one particle without looking further (Glushkov automaton of the group).
    pub fn attributable(&self, file: usize, g: &'a Group) -> bool {
        struct A {
            names: Vec<QName>,
            follow: Vec<BTreeSet<usize>>,
        }
        type R = (bool, BTreeSet<usize>, BTreeSet<usize>);
        fn repeat(a: &mut A, r: R, occ: Occ) -> R {
            if occ.is_vec() {
                for l in &r.2 {
                    a.follow[*l].extend(r.1.iter().copied());
                }
            }
            (r.0 || occ.min == 0, r.1, r.2)
        }
        fn go<'a>(env: &Env<'a>, file: usize, g: &'a Group, a: &mut A) -> R {
            let mut acc: R = (g.kind != Kind::Choice, BTreeSet::new(), BTreeSet::new());
            for i in &g.items {
                let r = match i {
                    Item::El(e) => {
                        a.names.push(env.el(file, e, "").0);
                        a.follow.push(BTreeSet::new());
                        let p = BTreeSet::from([a.names.len() - 1]);
                        repeat(a, (false, p.clone(), p), e.occ)
                    }
                    Item::Group(h) => go(env, file, h, a),
                };
                if g.kind == Kind::Choice {
                    acc = (acc.0 || r.0, &acc.1 | &r.1, &acc.2 | &r.2);
                } else {
                    for l in &acc.2 {
                        a.follow[*l].extend(r.1.iter().copied());
                    }
                    let first = if acc.0 { &acc.1 | &r.1 } else { acc.1 };
                    let last = if r.0 { &acc.2 | &r.2 } else { r.2 };
                    acc = (acc.0 && r.0, first, last);
                }
            }
            repeat(a, acc, g.occ)
        }
        let mut a = A { names: vec![], follow: vec![] };
        let r = go(self, file, g, &mut a);
        let unique = |s: &BTreeSet<usize>| {
            let names: BTreeSet<_> = s.iter().map(|p| &a.names[*p]).collect();
            names.len() == s.len()
        };
        unique(&r.1) && a.follow.iter().all(unique)
    }

    pub fn names(&self, file: usize, i: &'a Item, out: &mut BTreeSet<QName>) {
        match i {
            Item::El(e) => {
                out.insert(self.el(file, e, "").0);
            }
            Item::Group(g) => g.items.iter().for_each(|i| self.names(file, i, out)),
        }
    }
}

pub struct Cursor<'n> {
    pub kids: std::collections::VecDeque<&'n XNode>,
}

impl<'n> Cursor<'n> {
    fn peek(&self) -> Option<QName> {
        self.kids.front().map(|k| k.qname())
    }
    fn take(&mut self, q: &QName) -> Option<&'n XNode> {
        if self.kids.front().is_some_and(|k| k.ns == q.0 && k.name == q.1) {
            return self.kids.pop_front();
        }
        None
    }
    fn take_any(&mut self, q: &QName) -> Option<&'n XNode> {
        let i = self.kids.iter().position(|k| k.ns == q.0 && k.name == q.1)?;
        self.kids.remove(i)
    }
}
