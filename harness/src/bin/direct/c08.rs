//! Loading: every include/import graph over a few files, every directory layout of a small set, every
//! single defect of every file.

use crate::util::*;
use std::fs;
use xsd_internal::xsd::schema::{Schema, SchemaError};

const XS: &str = "http://www.w3.org/2001/XMLSchema";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    No,
    Missing,
    Directory,
    NotUtf8,
    Malformed,
    OtherRoot,
    Unsupported,
    NoLocation,
}
const BADS: [Bad; 8] = [Bad::No, Bad::Missing, Bad::Directory, Bad::NotUtf8, Bad::Malformed, Bad::OtherRoot, Bad::Unsupported, Bad::NoLocation];

/// paths of the files, per layout; the first one is the main file
const LAYOUTS: [[&str; 4]; 6] = [
    ["f0.xsd", "f1.xsd", "f2.xsd", "f3.xsd"],
    ["f0.xsd", "sub/f1.xsd", "sub/deep/f2.xsd", "f3.xsd"],
    ["a/f0.xsd", "b/f1.xsd", "f2.xsd", "a/f3.xsd"],
    // the same name everywhere
    ["f.xsd", "a/f.xsd", "b/f.xsd", "a/b/f.xsd"],
    ["a/b/f.xsd", "a/f.xsd", "b/a/f.xsd", "f.xsd"],
    // names that differ little, and unusual ones
    ["main schema.xsd", "d\u{e9}j\u{e0} vu/F.xsd", "d\u{e9}j\u{e0} vu/f.xsd", "f.xsd.xsd"],
];
/// The path without `.` and `..`.
fn plain(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    out.join("/")
}

const SPELLS: [&[&str]; 4] = [&[""], &["./"], &["", ""], &["./", "", "././"]];

fn relative(from: &str, to: &str) -> String {
    let dir: Vec<&str> = from.split('/').collect();
    let mut r = "../".repeat(dir.len() - 1);
    r.push_str(to);
    // shortest spelling if both are in the same directory
    match (from.rsplit_once('/'), to.rsplit_once('/')) {
        (Some((a, _)), Some((b, f))) if a == b => f.to_string(),
        _ => r,
    }
}

/// How the files refer to each other: all in one namespace, each in its own, or the even and the odd ones.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Links {
    Include,
    Import,
    Both,
}
impl Links {
    fn space(self, i: usize) -> usize {
        match self {
            Links::Include => 0,
            Links::Import => i,
            Links::Both => i % 2,
        }
    }
}

struct Case {
    n: usize,
    edges: u32,
    layout: usize,
    links: Links,
    bad: Bad,
    at: usize,
    /// spellings of a path, each written as a link of its own: detours, or the same link twice
    spell: &'static [&'static str],
}

fn has(edges: u32, n: usize, i: usize, j: usize) -> bool {
    edges >> (i * n + j) & 1 == 1
}

fn files(c: &Case) -> Vec<(String, Option<Vec<u8>>)> {
    let l = LAYOUTS[c.layout];
    (0..c.n)
        .map(|i| {
            let tns = |k: usize| format!("urn:f{}", c.links.space(k));
            let mut x = format!("<xs:schema xmlns:xs=\"{XS}\" targetNamespace=\"{}\"", tns(i));
            for j in 0..=c.links.space(c.n - 1).max(c.links.space(c.n.max(2) - 2)) {
                x.push_str(&format!(" xmlns:n{j}=\"urn:f{j}\""));
            }
            x.push_str(">\n");
            for j in 0..c.n {
                if has(c.edges, c.n, i, j) {
                    let p = relative(l[i], l[j]);
                    let what = if c.links.space(i) != c.links.space(j) { format!("import namespace=\"{}\"", tns(j)) } else { "include".into() };
                    for pre in c.spell {
                        x.push_str(&format!("  <xs:{what} schemaLocation=\"{pre}{p}\"/>\n"));
                    }
                }
            }
            x.push_str(&format!("  <xs:complexType name=\"Type{i}\"><xs:sequence>"));
            for j in 0..c.n {
                if has(c.edges, c.n, i, j) && i != j {
                    let p = format!("n{}", c.links.space(j));
                    x.push_str(&format!("<xs:element name=\"kid{j}\" type=\"{p}:Type{j}\" minOccurs=\"0\" maxOccurs=\"unbounded\"/>"));
                }
            }
            x.push_str("</xs:sequence></xs:complexType>\n");
            let bad = c.at == i;
            let data = match c.bad {
                Bad::Missing if bad => return (l[i].to_string(), None),
                Bad::Directory if bad => return (l[i].to_string(), Some(vec![0])),
                Bad::NotUtf8 if bad => {
                    let mut b = x.into_bytes();
                    b.extend(b"<!-- \xff\xfe --></xs:schema>\n");
                    return (l[i].to_string(), Some(b));
                }
                Bad::Malformed if bad => x + "  <xs:oops>\n</xs:schema>\n",
                Bad::OtherRoot if bad => "<html/>\n".to_string(),
                Bad::Unsupported if bad => x + "  <xs:group name=\"g\"/>\n</xs:schema>\n",
                Bad::NoLocation if bad => x + "  <xs:include/>\n</xs:schema>\n",
                _ => x + "</xs:schema>\n",
            };
            (l[i].to_string(), Some(data.into_bytes()))
        })
        .collect()
}

fn show(c: &Case) -> String {
    let e: Vec<String> = (0..c.n * c.n).filter(|b| c.edges >> b & 1 == 1).map(|b| format!("{}->{}", b / c.n, b % c.n)).collect();
    format!(
        "{} {} layout {:?}, {}{}",
        format!("{:?}", c.links),
        e.join(" "),
        &LAYOUTS[c.layout][..c.n],
        if c.bad == Bad::No { "all files fine".to_string() } else { format!("file {} {:?}", c.at, c.bad) },
        if c.spell == [""] { String::new() } else { format!(", paths spelled {:?}", c.spell) }
    )
}

fn check(o: &Out, k: usize, c: &Case) {
    let dir = o.dir.join(format!("lane{k}"));
    let _ = fs::remove_dir_all(&dir);
    let fs_ = files(c);
    for (p, data) in &fs_ {
        let p = dir.join(p);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        match data {
            None => {}
            Some(d) if d == &[0] => fs::create_dir_all(&p).unwrap(),
            Some(d) => fs::write(&p, d).unwrap(),
        }
    }
    // files reachable from the main file, not through the bad one (which is not read to its end)
    let mut reach = vec![false; c.n];
    let mut todo = vec![0];
    while let Some(i) = todo.pop() {
        if !std::mem::replace(&mut reach[i], true) && !(c.bad != Bad::No && c.at == i) {
            todo.extend((0..c.n).filter(|j| has(c.edges, c.n, i, *j)));
        }
    }
    let desc = show(c);
    o.progress(k, &desc);
    let main = dir.join(&fs_[0].0);
    let r = guarded(|| Schema::parse_file(&main).map(|s| (s.elements().map(|e| e.0.name.clone()).collect::<Vec<_>>(), s.generate_all().map(|t| t.to_string()))));
    let fail = |m: String| o.finding("load", desc.clone(), m);
    o.add("states", 1);
    o.add("traces", 1);
    o.add("transitions", 1);
    let broken = c.bad != Bad::No && reach[c.at];
    match r {
        Err(p) => fail(format!("panic: {p}")),
        Ok(Ok((mut names, code))) => {
            if broken {
                return fail("loaded without an error".into());
            }
            names.sort();
            names.retain(|n| n.starts_with("Type") && n.len() == 5);
            let want: Vec<String> = (0..c.n).filter(|i| reach[*i]).map(|i| format!("Type{i}")).collect();
            if names != want {
                fail(format!("types {names:?} instead of {want:?}"));
            }
            match code {
                Err(e) => fail(format!("nothing is generated: {e}")),
                Ok(t) => {
                    for i in 0..c.n {
                        let count = t.matches(&format!("pub struct Type{i} ")).count();
                        if count != reach[i] as usize {
                            fail(format!("Type{i} is defined {count} times"));
                        }
                    }
                }
            }
            o.add("loaded", 1);
        }
        Ok(Err(e)) => {
            if !broken {
                return fail(format!("refused: {e}"));
            }
            let file = match &e {
                SchemaError::Open { file, .. } => file.clone(),
                SchemaError::Xsd { file, .. } => file.clone(),
                e => return fail(format!("error that names no file: {e}")),
            };
            let name = fs_[c.at].0.rsplit('/').next().unwrap();
            if !plain(&file).ends_with(&format!("/{}", fs_[c.at].0)) || !e.to_string().contains(name) {
                return fail(format!("the error names {file} instead of {name}: {e}"));
            }
            let open = matches!(c.bad, Bad::Missing | Bad::Directory | Bad::NotUtf8);
            if open != matches!(e, SchemaError::Open { .. }) {
                return fail(format!("unfitting error {e:?}"));
            }
            o.add("refused", 1);
        }
    }
    if c.edges == 3 {
        o.sample(desc.clone());
    }
}

pub fn run(o: &Out, thorough: bool) {
    let mut cases = vec![];
    for n in 1..=if thorough { 4 } else { 3 } {
        for edges in 0..1u32 << (n * n) {
            // for four files: no self links, and at most one defect kind of each sort
            if n == 4 && (0..4).any(|i| has(edges, 4, i, i)) {
                continue;
            }
            for layout in 0..LAYOUTS.len() {
                if n == 4 && layout != edges as usize % LAYOUTS.len() {
                    continue;
                }
                for links in [Links::Include, Links::Import, Links::Both] {
                    if links == Links::Import && (0..n).any(|i| has(edges, n, i, i)) || links == Links::Both && n < 3 {
                        continue;
                    }
                    for (k, spell) in SPELLS.iter().enumerate() {
                        if n == 4 && k > 0 || n == 3 && k > 0 && !thorough && layout != edges as usize % LAYOUTS.len() {
                            continue;
                        }
                        cases.push(Case { n, edges, layout, links, bad: Bad::No, at: 0, spell });
                    }
                    for bad in &BADS[1..] {
                        if n == 4 && !matches!(bad, Bad::Missing | Bad::Unsupported) || n == 3 && !thorough && layout != edges as usize % LAYOUTS.len() {
                            continue;
                        }
                        for at in 0..n {
                            cases.push(Case { n, edges, layout, links, bad: *bad, at, spell: SPELLS[0] });
                        }
                    }
                }
            }
        }
    }
    lanes(&cases, |k, c| check(o, k, c));
}
