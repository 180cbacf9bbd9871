//! Exhaustive generation of documents of a schema: choice-sequence exploration bounded by the
//! number of deviations from the default, single-edit corruptions, child-name words, spellings.

use crate::model::*;
use crate::refdec::*;
use std::collections::{BTreeSet, HashSet};

pub struct Ch {
    prefix: Vec<usize>,
    pub log: Vec<(usize, usize)>,
}

impl Ch {
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.log.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!(c < n, "replay diverged");
        self.log.push((c, n));
        c
    }
}

/// Runs `f` on every choice sequence, level by level (level = number of non-default choices);
/// stops before the level that would exceed `cap`. Returns the results per level and whether the
/// space was exhausted.
pub fn explore<T>(cap: usize, max_level: usize, mut f: impl FnMut(&mut Ch) -> T) -> (Vec<Vec<T>>, bool) {
    let mut levels: Vec<Vec<T>> = vec![];
    let mut frontier: Vec<Vec<usize>> = vec![vec![]];
    let mut total = 0;
    for level in 0.. {
        if frontier.is_empty() {
            return (levels, true);
        }
        if level > max_level || (level > 1 && total + frontier.len() > cap) {
            return (levels, false);
        }
        let mut next = vec![];
        let mut out = vec![];
        for prefix in frontier {
            let plen = prefix.len();
            let mut ch = Ch { prefix, log: vec![] };
            out.push(f(&mut ch));
            for i in plen..ch.log.len() {
                for alt in 1..ch.log[i].1 {
                    let mut p: Vec<usize> = ch.log[..i].iter().map(|x| x.0).collect();
                    p.push(alt);
                    next.push(p);
                }
            }
            if next.len() > 200_000 {
                break;
            }
        }
        total += out.len();
        levels.push(out);
        frontier = next;
    }
    unreachable!()
}

pub struct Gen<'a, 'e> {
    pub env: &'e Env<'a>,
    pub n: usize,
    pub depth: usize,
}

fn counts(occ: Occ, deep: bool, more: &[usize]) -> Vec<usize> {
    let (min, max) = (occ.min as usize, occ.max.map_or(usize::MAX, |m| m as usize));
    let mut v = vec![];
    let def = if deep { min } else { min.max(1).min(max) };
    v.push(def);
    for c in [0, 1, 2, 3, min, min + 1, max] {
        if c >= min && c <= max && !v.contains(&c) && c <= 12 && (!deep || c == min) && c <= min + 3 {
            v.push(c);
        }
    }
    if !deep {
        for c in more {
            if *c >= min && *c <= max && !v.contains(c) {
                v.push(*c);
            }
        }
    }
    v
}

impl<'a> Gen<'a, '_> {
    pub fn root(&mut self, ch: &mut Ch) -> XNode {
        let (q, res, _) = self.env.root();
        let mut x = XNode::new(&q);
        self.value(&res, &mut x, ch);
        x
    }

    fn text(&mut self, lit: Lit, ch: &mut Ch) -> String {
        let t = &self.env.suite.opt.texts;
        let k = ch.choose(1 + t.len());
        if k > 0 {
            return t[k - 1].clone();
        }
        self.n += 1;
        lit.label(self.n - 1)
    }

    pub fn value(&mut self, res: &RRes<'a>, x: &mut XNode, ch: &mut Ch) {
        match &res.ty {
            RTy::Lit(l) => {
                x.text = match res.fixed {
                    Some(f) => f.to_string(),
                    None => self.text(*l, ch),
                }
            }
            RTy::Enum { s, .. } => x.text = s.values[ch.choose(s.values.len())].clone(),
            RTy::Complex { file, key, c, .. } => {
                self.depth += 1;
                self.complex(*file, key, c, x, ch);
                self.depth -= 1;
            }
        }
    }

    fn complex(&mut self, file: usize, key: &str, c: &'a Complex, x: &mut XNode, ch: &mut Ch) {
        match &c.content {
            Content::Empty => {}
            Content::Group(g) => self.group(file, key, g, g.occ, x, ch),
            Content::SimpleExt(t) => {
                let res = self.env.resolve(file, t, key, false);
                self.value(&res, x, ch);
            }
            Content::ComplexExt { base, seq } => {
                let t = self.env.base(base);
                self.value(&t, x, ch);
                if let Some(g) = seq {
                    self.group(file, key, g, g.occ, x, ch);
                }
            }
        }
        for a in &c.attrs {
            if a.use_ == Use::Prohibited {
                continue;
            }
            if a.use_ != Use::Required && ch.choose(2) == 1 {
                continue;
            }
            let res = self.env.resolve(file, &a.ty, key, false);
            let text = match (&res.ty, &a.fixed) {
                (_, Some(f)) => f.clone(),
                (RTy::Lit(l), None) => self.text(*l, ch),
                (RTy::Enum { s, .. }, None) => s.values[ch.choose(s.values.len())].clone(),
                _ => panic!("attribute type"),
            };
            x.attrs.push((None, a.name.clone(), text));
        }
    }

    fn group(&mut self, file: usize, key: &str, g: &'a Group, occ: Occ, x: &mut XNode, ch: &mut Ch) {
        let deep = self.depth > 4;
        let cs = counts(occ, deep, &self.env.suite.opt.counts);
        let n = cs[ch.choose(cs.len())];
        for _ in 0..n {
            match g.kind {
                Kind::Choice => {
                    let i = ch.choose(g.items.len());
                    let some = |o: Occ| Occ { min: o.min.max(1), max: o.max };
                    match &g.items[i] {
                        Item::El(e) => self.el(file, key, e, some(e.occ), x, ch),
                        Item::Group(h) => self.group(file, key, h, some(h.occ), x, ch),
                    }
                }
                _ => {
                    for i in &g.items {
                        match i {
                            Item::El(e) => self.el(file, key, e, e.occ, x, ch),
                            Item::Group(h) => self.group(file, key, h, h.occ, x, ch),
                        }
                    }
                }
            }
        }
    }

    fn el(&mut self, file: usize, key: &str, e: &'a El, occ: Occ, x: &mut XNode, ch: &mut Ch) {
        let deep = self.depth > 4;
        let cs = counts(occ, deep, &self.env.suite.opt.counts);
        let n = cs[ch.choose(cs.len())];
        for _ in 0..n {
            let (q, _, res) = self.env.el(file, e, key);
            let mut k = XNode::new(&q);
            self.value(&res, &mut k, ch);
            x.kids.push(k);
        }
    }
}

// ---------------------------------------------------------------- spelling

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NsStyle {
    /// one prefix per namespace, declared at the root
    Prefix,
    /// default namespace declarations, switched where needed
    Default,
    /// a fresh prefix declared on every element
    Local,
    /// the same prefix redeclared on every element
    Shadow,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TextStyle {
    Plain,
    Cdata,
    /// every character as a character reference
    CharRef,
    /// a comment in the middle of the text
    Comment,
    /// a comment before and a processing instruction after the text
    Around,
    /// half text, half CDATA
    Half,
    /// every character a piece of its own: text, CDATA, reference, with comments and instructions between
    Shatter,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Style {
    pub ns: NsStyle,
    pub text: TextStyle,
    /// comments, processing instructions and white space between elements
    pub noise: bool,
    pub decl: bool,
    pub single_quote: bool,
    pub expand_empty: bool,
}

pub const PLAIN: Style = Style { ns: NsStyle::Prefix, text: TextStyle::Plain, noise: false, decl: false, single_quote: false, expand_empty: false };

pub fn styles() -> Vec<Style> {
    let mut v = vec![PLAIN];
    for ns in [NsStyle::Default, NsStyle::Local, NsStyle::Shadow] {
        v.push(Style { ns, ..PLAIN });
    }
    for text in [TextStyle::Cdata, TextStyle::CharRef, TextStyle::Comment, TextStyle::Around, TextStyle::Half, TextStyle::Shatter] {
        v.push(Style { text, ..PLAIN });
    }
    v.push(Style { noise: true, decl: true, ..PLAIN });
    v.push(Style { single_quote: true, expand_empty: true, decl: true, ..PLAIN });
    v.push(Style { noise: true, ns: NsStyle::Default, text: TextStyle::Half, decl: true, single_quote: true, expand_empty: true });
    v
}

fn esc_text(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '&' => r.push_str("&amp;"),
            '<' => r.push_str("&lt;"),
            '>' => r.push_str("&gt;"),
            '\r' => r.push_str("&#13;"),
            c => r.push(c),
        }
    }
    r
}

fn text_as(s: &str, t: TextStyle) -> String {
    let cdata = |s: &str| format!("<![CDATA[{}]]>", s.replace("]]>", "]]]]><![CDATA[>").replace('\r', "]]>&#13;<![CDATA["));
    let mid = s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0);
    match t {
        TextStyle::Plain => esc_text(s),
        TextStyle::Cdata => cdata(s),
        TextStyle::CharRef => s.chars().map(|c| if (c as u32) % 2 == 0 { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) }).collect(),
        TextStyle::Comment => format!("{}<!-- c -->{}", esc_text(&s[..mid]), esc_text(&s[mid..])),
        TextStyle::Around => format!("<!--x-->{}<?pi y?>", esc_text(s)),
        TextStyle::Half => format!("{}{}", esc_text(&s[..mid]), cdata(&s[mid..])),
        TextStyle::Shatter => s
            .chars()
            .enumerate()
            .map(|(i, c)| {
                let piece = match i % 3 {
                    0 => esc_text(&c.to_string()),
                    1 => format!("&#{};", c as u32),
                    _ => cdata(&c.to_string()),
                };
                piece + ["<!-- c -->", "<?p i?>", "", "<!-- c --><!---->"][i % 4]
            })
            .collect(),
    }
}

pub fn render(root: &XNode, st: Style) -> String {
    let mut uris = vec![];
    fn collect(x: &XNode, u: &mut Vec<String>) {
        for n in x.ns.iter().chain(x.attrs.iter().filter_map(|a| a.0.as_ref())) {
            if !u.contains(n) {
                u.push(n.clone());
            }
        }
        x.kids.iter().for_each(|k| collect(k, u));
    }
    collect(root, &mut uris);
    let mut out = String::new();
    if st.decl {
        out += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
    }
    if st.noise {
        out += "<!-- head -->\n<?pi data?>\n";
    }
    fn go(x: &XNode, st: Style, uris: &[String], top: bool, def: &Option<String>, n: &mut usize, out: &mut String) {
        let mut decl = String::new();
        let mut def = def.clone();
        let qt = if st.single_quote { '\'' } else { '"' };
        let e = |s: &str| {
            let s = esc(s);
            if st.single_quote { s.replace("&quot;", "\"").replace('\'', "&apos;") } else { s }
        };
        let tag = match st.ns {
            NsStyle::Prefix => {
                if top {
                    for (i, u) in uris.iter().enumerate() {
                        decl += &format!(" xmlns:q{i}={qt}{}{qt}", e(u));
                    }
                }
                match &x.ns {
                    None => x.name.clone(),
                    Some(u) => format!("q{}:{}", uris.iter().position(|v| v == u).unwrap(), x.name),
                }
            }
            NsStyle::Default => {
                if def != x.ns {
                    decl += &format!(" xmlns={qt}{}{qt}", e(x.ns.as_deref().unwrap_or("")));
                    def = x.ns.clone();
                }
                x.name.clone()
            }
            NsStyle::Local | NsStyle::Shadow => match &x.ns {
                None => x.name.clone(),
                Some(u) => {
                    let p = if st.ns == NsStyle::Shadow { "ns1".to_string() } else { *n += 1; format!("l{n}") };
                    decl += &format!(" xmlns:{p}={qt}{}{qt}", e(u));
                    format!("{p}:{}", x.name)
                }
            },
        };
        out.push('<');
        out.push_str(&tag);
        out.push_str(&decl);
        for (i, (ns, name, val)) in x.attrs.iter().enumerate() {
            let pre = match ns {
                None => String::new(),
                Some(u) => {
                    out.push_str(&format!(" xmlns:at{i}={qt}{}{qt}", e(u)));
                    format!("at{i}:")
                }
            };
            let v = if st.text == TextStyle::CharRef { text_as(val, TextStyle::CharRef) } else { e(val) };
            out.push_str(&format!("{}{pre}{name}={qt}{v}{qt}", if st.noise { "\n  " } else { " " }));
        }
        if x.text.is_empty() && x.kids.is_empty() && !st.expand_empty {
            out.push_str("/>");
            return;
        }
        out.push('>');
        if x.kids.is_empty() {
            out.push_str(&text_as_opt(&x.text, st));
        } else {
            out.push_str(&esc_text(&x.text));
        }
        for k in &x.kids {
            if st.noise {
                out.push_str("\n  <!-- k --><?p k?>\n  ");
            }
            go(k, st, uris, false, &def, n, out);
        }
        if st.noise && !x.kids.is_empty() {
            out.push_str("\n<!-- e -->");
        }
        out.push_str("</");
        out.push_str(&tag);
        out.push('>');
    }
    fn text_as_opt(s: &str, st: Style) -> String {
        if s.is_empty() && !matches!(st.text, TextStyle::Around | TextStyle::Comment | TextStyle::Cdata) { String::new() } else { text_as(s, st.text) }
    }
    let mut n = 0;
    go(root, st, &uris, true, &None, &mut n, &mut out);
    if st.noise {
        out += "\n<!-- tail --><?pi end?>\n";
    }
    out
}

pub fn parse_xml(xml: &str) -> Option<(XNode, bool)> {
    let opt = roxmltree::ParsingOptions { allow_dtd: false, ..Default::default() };
    let doc = roxmltree::Document::parse_with_options(xml, opt).ok()?;
    fn conv(n: roxmltree::Node, mixed: &mut bool) -> XNode {
        let mut x = XNode::new(&(n.tag_name().namespace().map(String::from), n.tag_name().name().to_string()));
        for a in n.attributes() {
            x.attrs.push((a.namespace().map(String::from), a.name().to_string(), a.value().to_string()));
        }
        for c in n.children() {
            if c.is_element() {
                x.kids.push(conv(c, mixed));
            } else if c.is_text() {
                x.text += c.text().unwrap_or("");
            }
        }
        if !x.kids.is_empty() {
            if !x.text.trim().is_empty() {
                *mixed = true;
            } else {
                x.text.clear();
            }
        }
        x
    }
    let mut mixed = false;
    let x = conv(doc.root_element(), &mut mixed);
    Some((x, mixed))
}

// ---------------------------------------------------------------- documents of a suite

pub struct Doc {
    pub xml: String,
    pub tree: Option<XNode>,
    pub origin: String,
    pub force: Option<ExtraExpect>,
}

#[derive(Default, Debug, Clone)]
pub struct Space {
    pub valid: usize,
    pub levels: usize,
    pub exhausted: bool,
    pub truncated: bool,
}

fn paths(x: &XNode, at: Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    for (i, k) in x.kids.iter().enumerate() {
        let mut p = at.clone();
        p.push(i);
        paths(k, p, out);
    }
}

fn at<'x>(x: &'x mut XNode, p: &[usize]) -> &'x mut XNode {
    p.iter().fold(x, |x, i| &mut x.kids[*i])
}

pub const FOREIGN_NS: &str = "urn:other";

pub fn mutations(x: &XNode, tns: &[String]) -> Vec<(String, XNode)> {
    let mut out = vec![];
    let mut ps = vec![];
    paths(x, vec![], &mut ps);
    let edit = |p: &[usize], f: &dyn Fn(&mut XNode)| {
        let mut y = x.clone();
        f(at(&mut y, p));
        y
    };
    for p in &ps {
        let node = p.iter().fold(x, |x, i| &x.kids[*i]);
        let d = format!("{}@{:?}", node.name, p);
        out.push((format!("rename {d}"), edit(p, &|n| n.name = "zzz".into())));
        // names and namespaces that differ in case or length only
        let similar = |n: &str| {
            let mut c = n.chars();
            let f = c.next().unwrap();
            let flip: String = if f.is_uppercase() { f.to_lowercase().collect() } else { f.to_uppercase().collect() };
            [format!("{flip}{}", c.as_str()), format!("{n}x"), n[..n.len() - n.chars().last().unwrap().len_utf8()].to_string()]
        };
        for n in similar(&node.name) {
            if n != node.name && n.chars().next().is_some_and(|c| c.is_alphabetic()) && p.len() <= 1 {
                out.push((format!("rename to {n} {d}"), edit(p, &|x| x.name = n.clone())));
            }
        }
        let mut nss: Vec<Option<String>> = vec![None, Some(FOREIGN_NS.into())];
        nss.extend(tns.iter().cloned().map(Some));
        if let (Some(ns), true) = (&node.ns, p.len() <= 1) {
            nss.extend([Some(ns.to_uppercase()), Some(format!("{ns}/")), Some(format!("{ns} "))]);
        }
        for ns in nss {
            if ns != node.ns {
                out.push((format!("namespace {ns:?} {d}"), edit(p, &|n| n.ns = ns.clone())));
            }
        }
        for (i, a) in node.attrs.iter().enumerate() {
            out.push((format!("delete attribute {} of {d}", a.1), edit(p, &|n| {
                n.attrs.remove(i);
            })));
            if p.len() <= 1 {
                for n in similar(&a.1) {
                    if n != a.1 && n.chars().next().is_some_and(|c| c.is_alphabetic()) && !node.attrs.iter().any(|b| b.1 == n) {
                        out.push((format!("attribute {} of {d} renamed to {n}", a.1), edit(p, &|x| x.attrs[i].1 = n.clone())));
                    }
                }
            }
            out.push((format!("attribute {} of {d} moved to another namespace", a.1), edit(p, &|n| n.attrs[i].0 = Some(FOREIGN_NS.into()))));
            out.push((format!("attribute {} of {d} also in another namespace", a.1), edit(p, &|n| {
                n.attrs.insert(0, (Some(FOREIGN_NS.into()), a.1.clone(), "other".into()));
            })));
            for t in ["", "?", &format!("{}x", a.2), &a.2.to_uppercase()] {
                if *t != a.2 {
                    out.push((format!("attribute {}={t:?} of {d}", a.1), edit(p, &|n| n.attrs[i].2 = t.to_string())));
                }
            }
        }
        if node.kids.is_empty() {
            for t in ["", "?", &format!("{}x", node.text), &format!(" {}", node.text), &node.text.to_uppercase()] {
                if *t != node.text {
                    out.push((format!("text {t:?} in {d}"), edit(p, &|n| n.text = t.to_string())));
                }
            }
            if !node.text.is_empty() {
                let foreign = XNode { ns: node.ns.clone(), name: "zzz".into(), attrs: vec![], text: String::new(), kids: vec![] };
                out.push((format!("element instead of the text in {d}"), edit(p, &|n| {
                    n.text = String::new();
                    n.kids = vec![foreign.clone()];
                })));
            }
        }
        for i in 0..node.kids.len() {
            let kd = format!("{} in {d}", node.kids[i].name);
            out.push((format!("delete child {i} {kd}"), edit(p, &|n| {
                n.kids.remove(i);
            })));
            out.push((format!("double child {i} {kd}"), edit(p, &|n| {
                let k = n.kids[i].clone();
                n.kids.insert(i, k);
            })));
            if i + 1 < node.kids.len() {
                out.push((format!("swap children {i},{} {kd}", i + 1), edit(p, &|n| n.kids.swap(i, i + 1))));
            }
            let foreign = XNode { ns: node.kids[i].ns.clone(), name: "zzz".into(), attrs: vec![], text: String::new(), kids: vec![] };
            out.push((format!("foreign before child {i} {kd}"), edit(p, &|n| n.kids.insert(i, foreign.clone()))));
        }
        if node.kids.len() > 1 {
            out.push((format!("first child last in {d}"), edit(p, &|n| {
                let k = n.kids.remove(0);
                n.kids.push(k);
            })));
            out.push((format!("no children in {d}"), edit(p, &|n| n.kids.clear())));
        }
    }
    out
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

/// All permutations of up to six children; of more all rotations, transpositions and reversals.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 6 {
        return permutations(n);
    }
    let id: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in 0..n {
        let mut p = id.clone();
        p.rotate_left(i);
        out.push(p.clone());
        p.reverse();
        out.push(p);
        for j in 0..i {
            let mut p = id.clone();
            p.swap(i, j);
            out.push(p);
            let mut p = id.clone();
            let x = p.remove(i);
            p.insert(j, x);
            out.push(p);
        }
    }
    out
}

/// Which of the optional explorations to run.
#[derive(Clone, Copy, Debug)]
pub struct Part {
    pub valid: bool,
    pub invalid: bool,
    pub scale: usize,
}

pub fn docs(env: &Env<'_>, part: Part) -> (Vec<Doc>, Space) {
    let s = env.suite;
    let opt = &s.opt;
    let mut out: Vec<Doc> = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    let mut space = Space::default();
    let mut push = |out: &mut Vec<Doc>, tree: XNode, style: Style, origin: String| {
        let xml = render(&tree, style);
        if seen.insert(xml.clone()) {
            out.push(Doc { xml, tree: Some(tree), origin, force: None });
        }
    };
    let (levels, exhausted) = explore(opt.valid_cap * part.scale, if part.scale > 1 { 9 } else { 4 }, |ch| {
        let mut g = Gen { env, n: 0, depth: 0 };
        g.root(ch)
    });
    space.levels = levels.len();
    space.exhausted = exhausted;
    let mut tns: Vec<String> = s.files.iter().filter_map(|f| f.tns.clone()).collect();
    tns.dedup();
    for (l, docs) in levels.iter().enumerate() {
        for (i, d) in docs.iter().enumerate() {
            push(&mut out, d.clone(), PLAIN, format!("valid level {l} #{i}"));
            space.valid += 1;
        }
    }
    for (l, docs) in levels.iter().enumerate() {
        for (i, d) in docs.iter().enumerate() {
            if l == 0 && i == 0 || opt.styles && l <= 1 {
                for st in styles() {
                    push(&mut out, d.clone(), st, format!("valid level {l} #{i} style {st:?}"));
                }
            }
            if opt.permute && l <= 1 + (part.scale > 1) as usize && d.kids.len() > 1 && (d.kids.len() <= 5 || l == 0) {
                for p in orders(d.kids.len()) {
                    let mut y = d.clone();
                    y.kids = p.iter().map(|i| d.kids[*i].clone()).collect();
                    push(&mut out, y, PLAIN, format!("valid level {l} #{i} permuted {p:?}"));
                }
            }
        }
    }
    if part.invalid {
        let mut count = 0;
        let cap = opt.mutate_cap * part.scale;
        'm: for (l, docs) in levels.iter().enumerate() {
            if l > opt.mutate_dev + (part.scale > 1) as usize {
                break;
            }
            for (i, d) in docs.iter().enumerate() {
                for (what, y) in mutations(d, &tns) {
                    if count >= cap {
                        space.truncated = true;
                        break 'm;
                    }
                    count += 1;
                    push(&mut out, y, PLAIN, format!("level {l} #{i} with {what}"));
                }
            }
        }
    }
    if opt.word_len > 0 {
        // child-name words: names seen below the root in any valid document
        let mut alphabet: Vec<XNode> = vec![];
        let mut names = BTreeSet::new();
        for d in levels.iter().flatten() {
            for k in &d.kids {
                if names.insert(k.qname()) {
                    alphabet.push(k.clone());
                }
            }
        }
        let base = levels[0][0].clone();
        let mut words: Vec<Vec<usize>> = vec![vec![]];
        let mut layer = words.clone();
        let (wl, wc) = (opt.word_len + (part.scale > 1) as usize, opt.word_cap * part.scale);
        for _ in 0..wl {
            let mut next = vec![];
            for w in &layer {
                for i in 0..alphabet.len() {
                    let mut v = w.clone();
                    v.push(i);
                    next.push(v);
                }
            }
            if words.len() + next.len() > wc {
                space.truncated = true;
                break;
            }
            words.extend(next.iter().cloned());
            layer = next;
        }
        for w in words {
            let mut y = base.clone();
            y.kids = w
                .iter()
                .enumerate()
                .map(|(n, i)| {
                    let mut k = alphabet[*i].clone();
                    // running labels for untyped text, so that order is visible
                    if k.kids.is_empty() && k.text.starts_with('s') {
                        k.text = format!("s{n}");
                    }
                    k
                })
                .collect();
            push(&mut out, y, PLAIN, format!("word {w:?}"));
        }
    }
    for e in &opt.extra {
        let tree = parse_xml(&e.xml);
        let (tree, mixed) = match tree {
            Some((t, m)) => (Some(t), m),
            None => (None, false),
        };
        let force = match (&e.expect, &tree) {
            (ExtraExpect::Model, None) => Some(ExtraExpect::Reject),
            (ExtraExpect::Model, Some(_)) if mixed => Some(ExtraExpect::NoPanic),
            (ExtraExpect::Model, Some(_)) => None,
            (f, _) => Some(f.clone()),
        };
        if seen_extra(&mut out, &e.xml) {
            out.push(Doc { xml: e.xml.clone(), tree, origin: "extra".into(), force });
        }
    }
    (out, space)
}

fn seen_extra(out: &mut [Doc], xml: &str) -> bool {
    !out.iter().rev().take(64).any(|d| d.xml == xml)
}
