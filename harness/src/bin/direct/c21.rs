//! Dependency closure: every digraph over a few types, every kind of dependency, every sequence of
//! requests with a shared record.

use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use xsd_internal::ast::Name;
use xsd_internal::xsd::schema::{Schema, SchemaError};

const XS: &str = "http://www.w3.org/2001/XMLSchema";

/// How one type refers to another.
const KINDS: [&str; 14] = [
    "element type", "element ref", "nested group", "choice alternative", "anonymous type", "extension", "simple content", "attribute", "repeated element",
    "all group", "sequence in choice", "alias", "enumeration", "restricted literal",
];
const ALIAS: usize = 11;

type Edges = u128;

fn has(edges: Edges, n: usize, i: usize, j: usize) -> bool {
    edges >> (i * n + j) & 1 == 1
}

/// Where the types are declared.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// one file without target namespace
    Plain,
    /// one file with a target namespace
    Tns,
    /// every other type in an included file
    Include,
    /// every other type in an imported file
    Import,
}

fn files(n: usize, edges: Edges, kind: usize, mode: Mode) -> Vec<String> {
    if mode == Mode::Plain || mode == Mode::Tns {
        return vec![schema(n, edges, kind, mode, None)];
    }
    (0..2).map(|f| schema(n, edges, kind, mode, Some(f))).collect()
}

fn schema(n: usize, edges: Edges, kind: usize, mode: Mode, part: Option<usize>) -> String {
    let p = |j: &usize| match mode {
        Mode::Plain => "",
        Mode::Import if j % 2 == 1 => "u:",
        _ => "t:",
    };
    let t = |j: &usize| format!("{}Type{j}", p(j));
    let own = if mode == Mode::Import && part == Some(1) { "u" } else { "t" };
    let mut x = format!(
        "<xs:schema xmlns:xs=\"{XS}\"{}>\n",
        match mode {
            Mode::Plain => String::new(),
            _ => format!(" targetNamespace=\"urn:{own}\" xmlns:t=\"urn:t\" xmlns:u=\"urn:u\" elementFormDefault=\"qualified\""),
        }
    );
    let other = ["other.xsd", "main.xsd"];
    match (mode, part) {
        (Mode::Include, Some(f)) => x.push_str(&format!("  <xs:include schemaLocation=\"{}\"/>\n", other[f])),
        (Mode::Import, Some(f)) => x.push_str(&format!("  <xs:import namespace=\"urn:{}\" schemaLocation=\"{}\"/>\n", ["u", "t"][f], other[f])),
        _ => {}
    }
    for i in (0..n).filter(|i| part.is_none_or(|f| i % 2 == f)) {
        let deps: Vec<usize> = (0..n).filter(|j| has(edges, n, i, *j)).collect();
        let el = |j: &usize| format!("<xs:element name=\"kid{j}\" type=\"{}\" minOccurs=\"0\"/>", t(j));
        let body = match kind {
            0 => format!("<xs:sequence>{}</xs:sequence>", deps.iter().map(el).collect::<String>()),
            1 => format!("<xs:sequence>{}</xs:sequence>", deps.iter().map(|j| format!("<xs:element ref=\"{}\" minOccurs=\"0\"/>", t(j))).collect::<String>()),
            2 => format!(
                "<xs:sequence>{}</xs:sequence>",
                deps.iter().map(|j| format!("<xs:sequence minOccurs=\"0\"><xs:element name=\"in{j}\" type=\"xs:int\"/>{}</xs:sequence>", el(j))).collect::<String>()
            ),
            3 => format!(
                "<xs:choice><xs:element name=\"none\" type=\"xs:int\"/>{}</xs:choice>",
                deps.iter().map(|j| format!("<xs:element name=\"kid{j}\" type=\"{}\"/>", t(j))).collect::<String>()
            ),
            4 => format!(
                "<xs:sequence>{}</xs:sequence>",
                deps.iter()
                    .map(|j| format!("<xs:element name=\"wrap{j}\"><xs:complexType><xs:sequence><xs:choice>{}<xs:element name=\"alt\" type=\"xs:int\"/></xs:choice></xs:sequence></xs:complexType></xs:element>", el(j)))
                    .collect::<String>()
            ),
            // only one base is possible: the other dependencies are elements
            5 if !deps.is_empty() => format!(
                "<xs:complexContent><xs:extension base=\"{}\"><xs:sequence>{}</xs:sequence></xs:extension></xs:complexContent>",
                t(&deps[0]),
                deps[1..].iter().map(el).collect::<String>()
            ),
            6 if !deps.is_empty() => format!(
                "<xs:simpleContent><xs:extension base=\"{}\">{}</xs:extension></xs:simpleContent>",
                t(&deps[0]),
                deps[1..].iter().map(|j| format!("<xs:attribute name=\"at{j}\" type=\"{}\"/>", t(j))).collect::<String>()
            ),
            7 => deps.iter().map(|j| format!("<xs:attribute name=\"at{j}\" type=\"{}\"/>", t(j))).collect::<String>(),
            9 => format!("<xs:all>{}</xs:all>", deps.iter().map(el).collect::<String>()),
            10 => format!(
                "<xs:sequence><xs:choice minOccurs=\"0\"><xs:element name=\"none\" type=\"xs:int\"/>{}</xs:choice></xs:sequence>",
                deps.iter().map(|j| format!("<xs:sequence><xs:element name=\"in{j}\" type=\"xs:int\"/>{}</xs:sequence>", el(j))).collect::<String>()
            ),
            11 => format!("<xs:sequence>{}</xs:sequence>", deps.iter().map(el).collect::<String>()),
            12 | 13 => format!(
                "<xs:sequence>{}</xs:sequence>{}",
                deps.iter().step_by(2).map(el).collect::<String>(),
                deps.iter().skip(1).step_by(2).map(|j| format!("<xs:attribute name=\"at{j}\" type=\"{}\"/>", t(j))).collect::<String>()
            ),
            8 => format!(
                "<xs:sequence minOccurs=\"0\" maxOccurs=\"unbounded\">{}<xs:element name=\"own\" type=\"xs:int\" minOccurs=\"0\"/></xs:sequence>",
                deps.iter().map(|j| format!("<xs:element name=\"kid{j}\" type=\"{}\" maxOccurs=\"3\"/>", t(j))).collect::<String>()
            ),
            _ => "<xs:sequence/>".into(),
        };
        if kind == ALIAS && deps.len() == 1 {
            x.push_str(&format!("  <xs:element name=\"Type{i}\" type=\"{}\"/>\n", t(&deps[0])));
        } else if kind == 12 && deps.is_empty() {
            x.push_str(&format!("  <xs:simpleType name=\"Type{i}\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"v\"/></xs:restriction></xs:simpleType>\n"));
        } else if kind == 13 && deps.is_empty() {
            x.push_str(&format!("  <xs:simpleType name=\"Type{i}\"><xs:restriction base=\"xs:string\"/></xs:simpleType>\n"));
        } else if kind == 1 {
            x.push_str(&format!("  <xs:element name=\"Type{i}\"><xs:complexType>{body}</xs:complexType></xs:element>\n"));
        } else {
            x.push_str(&format!("  <xs:complexType name=\"Type{i}\">{body}</xs:complexType>\n"));
        }
    }
    x.push_str("</xs:schema>\n");
    x
}

/// Names of the types a token stream declares, with how often, and the types each one mentions.
fn declared(ts: &proc_macro2::TokenStream) -> Result<(BTreeMap<String, usize>, BTreeMap<String, BTreeSet<String>>), String> {
    let f: syn::File = syn::parse2(ts.clone()).map_err(|e| format!("generated code is not Rust: {e}"))?;
    let mut n = BTreeMap::new();
    let mut uses: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    struct V<'a>(&'a mut BTreeSet<String>);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_path(&mut self, p: &'ast syn::Path) {
            if p.leading_colon.is_none() {
                if let Some(s) = p.segments.first() {
                    self.0.insert(s.ident.to_string());
                }
            }
            syn::visit::visit_path(self, p);
        }
    }
    for i in &f.items {
        match i {
            syn::Item::Struct(s) => {
                *n.entry(s.ident.to_string()).or_insert(0) += 1;
                syn::visit::visit_item_struct(&mut V(uses.entry(s.ident.to_string()).or_default()), s);
            }
            syn::Item::Enum(s) => {
                *n.entry(s.ident.to_string()).or_insert(0) += 1;
                syn::visit::visit_item_enum(&mut V(uses.entry(s.ident.to_string()).or_default()), s);
            }
            _ => {}
        }
    }
    Ok((n, uses))
}

fn check(o: &Out, lane: usize, n: usize, edges: Edges, kind: usize, mode: Mode, reqs: usize) {
    let fs = files(n, edges, kind, mode);
    let x = fs.join("\n");
    let r = guarded(|| -> Result<(u64, u64), String> {
        let s = if fs.len() == 1 {
            Schema::parse(&x, "schema.xsd")
        } else {
            let dir = o.dir.join(format!("lane{lane}"));
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("main.xsd"), &fs[0]).unwrap();
            std::fs::write(dir.join("other.xsd"), &fs[1]).unwrap();
            Schema::parse_file(dir.join("main.xsd"))
        }
        .map_err(|e| format!("refused: {e}"))?;
        // everything there is, and who mentions whom, from the code generated for all of it
        let (all, uses) = declared(&s.generate_all().map_err(|e| e.to_string())?)?;
        if let Some((t, c)) = all.iter().find(|(_, c)| **c != 1) {
            return Err(format!("generating everything declares {t} {c} times"));
        }
        for i in 0..n {
            if !all.contains_key(&format!("Type{i}")) {
                return Err(format!("generating everything leaves out Type{i}"));
            }
        }
        let names: Vec<&Name> = (0..n).map(|i| s.elements().map(|e| e.0).find(|e| e.name == format!("Type{i}")).unwrap()).collect();
        // literals and aliases are used in place: what the schema refers to need not be mentioned
        let flattened = kind == ALIAS || kind == 13;
        let close = |i: usize, with_schema: bool| {
            let mut set = BTreeSet::new();
            let mut todo = vec![format!("Type{i}")];
            while let Some(t) = todo.pop() {
                if set.insert(t.clone()) {
                    todo.extend(uses[&t].iter().filter(|u| all.contains_key(*u)).cloned());
                    if let (true, Ok(i)) = (with_schema, t.trim_start_matches("Type").parse::<usize>()) {
                        if i >= n {
                            continue;
                        }
                        todo.extend((0..n).filter(|j| has(edges, n, i, *j)).map(|j| format!("Type{j}")));
                    }
                }
            }
            set
        };
        let closures: Vec<BTreeSet<String>> = (0..n).map(|i| close(i, true)).collect();
        // the mentions must be those of the schema
        for i in 0..n {
            let mentioned = close(i, false);
            let mut want = vec![false; n];
            let mut todo = vec![i];
            while let Some(k) = todo.pop() {
                if !std::mem::replace(&mut want[k], true) {
                    todo.extend((0..n).filter(|j| has(edges, n, k, *j)));
                }
            }
            for j in 0..n {
                if mentioned.contains(&format!("Type{j}")) != want[j] && !(flattened && want[j]) {
                    return Err(format!("generated Type{i} depends on Type{j}: {}, the schema says {}", !want[j], want[j]));
                }
            }
        }
        let (mut count, mut sequences) = (0, 0);
        for len in 1..=reqs {
            for seq in tuples(n, len) {
                // many types: pairs that start or end with the first or the last type
                if n > 4 && len > 1 && !seq.contains(&0) && !seq.contains(&(n - 1)) {
                    continue;
                }
                sequences += 1;
                let mut done: HashSet<&Name> = HashSet::new();
                let mut have: BTreeSet<String> = BTreeSet::new();
                for (k, i) in seq.iter().enumerate() {
                    count += 1;
                    let ts = s.generate_element_and_dependencies(names[*i], &mut done).map_err(|e| format!("requests {:?}: {e}", &seq[..=k]))?;
                    if k + 1 < len {
                        // already compared as a shorter sequence
                        have.extend(closures[*i].iter().cloned());
                        continue;
                    }
                    let (got, _) = declared(&ts)?;
                    let want: BTreeMap<String, usize> = closures[*i].difference(&have).map(|t| (t.clone(), 1)).collect();
                    if got != want {
                        return Err(format!("requests {:?}: the last one emits {got:?} instead of {want:?}", &seq[..=k]));
                    }
                    have.extend(closures[*i].iter().cloned());
                    let rec: BTreeSet<String> = done.iter().map(|d| d.name.clone()).collect();
                    if rec.len() != have.len() {
                        return Err(format!("requests {:?}: the record holds {rec:?}, emitted was {have:?}", &seq[..=k]));
                    }
                }
            }
        }
        // a name that is not declared
        let other = Name::new("Nowhere", names[0].namespace);
        match s.generate_element_and_dependencies(&other, &mut HashSet::new()) {
            Err(SchemaError::NotFound { name }) if name == "Nowhere" => {}
            r => return Err(format!("a request for an undeclared name gives {:?}", r.map(|t| t.to_string()))),
        }
        Ok((count, sequences))
    });
    match r {
        Ok(Ok((c, n))) => {
            o.add("states", 1);
            o.add("transitions", c);
            o.add("traces", n);
        }
        Ok(Err(m)) => o.finding("closure", x, m),
        Err(p) => o.finding("panic", x, format!("panic: {p}")),
    }
}

/// Chains, rings, stars, trees, complete orders and combinations of them.
fn shapes(n: usize) -> Vec<Edges> {
    let g = |f: &dyn Fn(usize, usize) -> bool| -> Edges {
        let mut e = 0;
        for i in 0..n {
            for j in 0..n {
                if f(i, j) {
                    e |= 1 << (i * n + j);
                }
            }
        }
        e
    };
    let h = n / 2;
    vec![
        g(&|i, j| j == i + 1),
        g(&|i, j| i == j + 1),
        g(&|i, j| j == (i + 1) % n),
        g(&|i, j| i == 0 && j > 0),
        g(&|i, j| j == n - 1 && i < n - 1),
        g(&|i, j| j == 2 * i + 1 || j == 2 * i + 2),
        g(&|i, j| i < j),
        g(&|i, j| j > i && j <= i + 2),
        // two rings, the first leading to the second
        g(&|i, j| i < h && j == (i + 1) % h || i >= h && j == h + (i + 1 - h) % (n - h) || i == 0 && j == h),
        // a ring with a tail before and behind it
        g(&|i, j| j == i + 1 || i == n - 2 && j == 1),
        // chain with everything also referring to itself and to the first
        g(&|i, j| j == i + 1 || i == j || j == 0),
    ]
}

pub fn run(o: &Out, thorough: bool) {
    let mut cases = vec![];
    for kind in 0..KINDS.len() {
        for n in 1..=3 {
            for edges in 0..1 << (n * n) {
                let reqs = if thorough { 4 } else if n == 3 { 2 } else { 3 };
                // an alias of itself has no content at all
                let backward = (0..n).any(|i| (0..=i).any(|j| has(edges, n, i, j)));
                if kind == ALIAS && backward {
                    continue;
                }
                for (m, mode) in [Mode::Plain, Mode::Tns, Mode::Include, Mode::Import].into_iter().enumerate() {
                    if n == 3 && !thorough && m % 2 != edges.count_ones() as usize % 2 || n == 1 && m > 1 {
                        continue;
                    }
                    cases.push((n, edges, kind, mode, reqs));
                }
            }
        }
    }
    // larger graphs of every shape
    for n in if thorough { 4..=11 } else { 7..=7 }.chain([11]) {
        for (k, edges) in shapes(n).into_iter().enumerate() {
            for kind in 0..KINDS.len() {
                let backward = (0..n).any(|i| (0..=i).any(|j| has(edges, n, i, j)));
                if kind == ALIAS && backward {
                    continue;
                }
                let modes = [Mode::Plain, Mode::Tns, Mode::Include, Mode::Import];
                for (m, mode) in modes.into_iter().enumerate() {
                    if thorough || m == (k + kind + n) % 4 {
                        cases.push((n, edges, kind, mode, 2));
                    }
                }
            }
        }
    }
    if thorough {
        for edges in 0..1 << 16 {
            cases.push((4, edges, [0, 2, 4, 8][edges as usize % 4], [Mode::Plain, Mode::Tns, Mode::Include, Mode::Import][edges.count_ones() as usize % 4], 2));
        }
    }
    o.sample(files(3, 0b010_100_001, 4, Mode::Import).join("\n"));
    lanes(&cases, |k, (n, e, kind, mode, reqs)| {
        o.progress(k, &format!("digraph of {n} types, edges {e:b}, {}, {mode:?}", KINDS[*kind]));
        check(o, k, *n, *e, *kind, *mode, *reqs)
    });
}
