//! Independence of the order of declarations and of hashing: every schema of the corpus, every order
//! of its global declarations, and generation repeated until every iteration order of the map of
//! definitions has been seen. The generated code has to be the same up to the order of its items,
//! variants and match arms (which carry no behaviour).

use crate::util::*;
use engine::corpus::Tier;
use engine::model::{Render, Suite};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use syn::visit_mut::VisitMut;
use xsd_internal::xsd::schema::Schema;

struct Sort;
impl VisitMut for Sort {
    fn visit_item_enum_mut(&mut self, e: &mut syn::ItemEnum) {
        let mut v: Vec<syn::Variant> = e.variants.iter().cloned().collect();
        v.sort_by_key(|v| v.ident.to_string());
        e.variants = v.into_iter().collect();
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        syn::visit_mut::visit_expr_match_mut(self, m);
        for a in &mut m.arms {
            a.comma = Some(Default::default());
        }
        m.arms.sort_by_cached_key(|a| a.to_token_stream().to_string());
    }
}

/// Sorted items of the generated code; declarations and implementations apart.
type Code = (BTreeSet<String>, BTreeSet<String>);

/// The order of namespace declarations carries no meaning: they are put in a fixed one.
fn sort_namespaces(t: String) -> String {
    let parts: Vec<&str> = t.split(". set_ns (").collect();
    if parts.len() < 3 {
        return t;
    }
    let cut = |p: &&str| p.find(')').map_or(p.len(), |i| i + 1);
    let mut args: Vec<&str> = parts[1..].iter().map(|p| &p[..cut(p)]).collect();
    args.sort();
    let mut out = parts[0].to_string();
    for (p, a) in parts[1..].iter().zip(args) {
        out.push_str(". set_ns (");
        out.push_str(a);
        out.push_str(&p[cut(p)..]);
    }
    out
}

fn normal(ts: proc_macro2::TokenStream) -> Result<Code, String> {
    let mut f: syn::File = syn::parse2(ts).map_err(|e| format!("generated code is not Rust: {e}"))?;
    Sort.visit_file_mut(&mut f);
    let mut c: Code = Default::default();
    for i in &f.items {
        let t = sort_namespaces(i.to_token_stream().to_string());
        let set = if matches!(i, syn::Item::Struct(_) | syn::Item::Enum(_)) { &mut c.0 } else { &mut c.1 };
        if !set.insert(t.clone()) {
            return Err(format!("generated twice: {t}"));
        }
    }
    Ok(c)
}

/// The code and the order in which the definitions were iterated.
fn generate(p: &std::path::Path) -> Result<(Code, Vec<String>), String> {
    let r = guarded(|| -> Result<_, String> {
        let s = Schema::parse_file(p).map_err(|e| e.to_string())?;
        let order = s.elements().map(|e| format!("{:?}", e.0)).collect();
        Ok((s.generate_all().map_err(|e| e.to_string())?, order))
    });
    match r {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(e)) => Err(e),
        Ok(Ok((ts, order))) => Ok((normal(ts)?, order)),
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut ps: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        ps = ps.into_iter().flat_map(|p| (0..n).filter(|i| !p.contains(i)).map(|i| [p.clone(), vec![i]].concat()).collect::<Vec<_>>()).collect();
    }
    ps
}

fn write(dir: &std::path::Path, s: &Suite) -> std::path::PathBuf {
    for f in &s.files {
        let p = dir.join(&f.path);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(&p, Render::render(f, &s.files)).unwrap();
    }
    dir.join(&s.files[0].path)
}

fn differ(a: &Code, b: &Code, only_types: bool) -> Option<String> {
    let pick = |x: &BTreeSet<String>, y: &BTreeSet<String>| x.difference(y).next().cloned().unwrap_or_default();
    if a.0 != b.0 {
        return Some(format!("declarations differ:\n  {}\n  {}", pick(&a.0, &b.0), pick(&b.0, &a.0)));
    }
    if !only_types && a.1 != b.1 {
        return Some(format!("implementations differ:\n  {}\n  {}", pick(&a.1, &b.1), pick(&b.1, &a.1)));
    }
    None
}

pub fn run(o: &Out, thorough: bool) {
    let t = if thorough { Tier::Thorough } else { Tier::Quick };
    let mut suites: Vec<Suite> = vec![];
    let mut seen = BTreeMap::new();
    let mut families = vec!["cross", "choice", "all", "ext", "attr", "enum", "ns", "files", "alias", "order", "coll"];
    if thorough {
        families.extend(["ident", "pairs", "tree"]);
    }
    for f in families {
        for s in engine::plan::family(f, if matches!(f, "pairs" | "tree") { Tier::Quick } else { t }) {
            // several suites only differ in their documents
            let text: String = s.files.iter().map(|f| Render::render(f, &s.files)).collect();
            if seen.insert(text, ()).is_none() {
                suites.push(s);
            }
        }
    }
    lanes(&suites, |k, s| {
        let small = matches!(s.family, "order" | "coll" | "choice" | "enum");
        let (max_orders, max_runs, max_decls) = match (thorough, small) {
            (true, true) => (24, 600, 5),
            (true, false) => (12, 200, 5),
            (false, true) => (6, 40, 4),
            (false, false) => (3, 20, 3),
        };
        let dir = o.dir.join(format!("lane{k}"));
        let show = |s: &Suite| s.files.iter().map(|f| format!("{}:\n{}", f.path, Render::render(f, &s.files))).collect::<Vec<_>>().join("\n");
        o.progress(k, &show(s));
        let _ = fs::remove_dir_all(&dir);
        let main = write(&dir, s);
        let (first, order) = match generate(&main) {
            Ok(x) => x,
            // whether the schema is accepted at all belongs to the other properties, but it must not
            // depend on chance either
            Err(e) => {
                for _ in 0..20 {
                    o.add("transitions", 1);
                    if generate(&main).is_ok() {
                        o.finding("hash", show(s), format!("sometimes accepted, sometimes refused: {e}"));
                        return;
                    }
                }
                return;
            }
        };
        o.add("states", 1);
        // repeat until all iteration orders were seen
        let n = order.len();
        let all = (1..=n).product::<usize>();
        let mut orders = BTreeSet::from([order]);
        let want = all.min(max_orders);
        let mut runs = 0;
        while orders.len() < want && runs < max_runs {
            runs += 1;
            o.add("transitions", (first.0.len() + first.1.len()) as u64);
            o.add("traces", 1);
            match generate(&main) {
                Err(e) => return o.finding("hash", show(s), format!("sometimes accepted, sometimes refused: {e}")),
                Ok((c, order)) => {
                    if let Some(m) = differ(&first, &c, false) {
                        return o.finding("hash", show(s), format!("two runs of the generator give different code: {m}"));
                    }
                    orders.insert(order);
                }
            }
        }
        o.add("iteration_orders", orders.len() as u64);
        if orders.len() == all {
            o.add("schemas_with_all_iteration_orders", 1);
        }
        // all orders of the declarations of every file (one file at a time)
        let spaces: BTreeSet<&Option<String>> = s.files.iter().map(|f| &f.tns).collect();
        // (derived names that coincide are told apart by numbers in order of appearance)
        if s.family == "coll" {
            return;
        }
        for f in 0..s.files.len() {
            let n = s.files[f].decls.len();
            let ps: Vec<Vec<usize>> = if n <= max_decls {
                perms(n)
            } else {
                let mut v: Vec<Vec<usize>> = (0..n).map(|r| (0..n).map(|i| (i + r) % n).collect()).collect();
                v.push((0..n).rev().collect());
                v
            };
            for p in ps.iter().skip(1) {
                let mut t = s.clone();
                t.files[f].decls = p.iter().map(|i| s.files[f].decls[*i].clone()).collect();
                let main = write(&dir, &t);
                o.add("states", 1);
                o.add("transitions", (first.0.len() + first.1.len()) as u64);
                o.add("traces", 1);
                match generate(&main) {
                    Err(e) => return o.finding("order", show(&t), format!("refused in this order of declarations: {e}")),
                    Ok((c, _)) => {
                        // (prefixes are numbered in order of appearance)
                        if let Some(m) = differ(&first, &c, spaces.len() > 1) {
                            return o.finding("order", show(&t), format!("order {p:?} of the declarations of {} changes the code: {m}", t.files[f].path));
                        }
                    }
                }
            }
            write(&dir, s);
        }
    });
    o.sample(format!("{} schemas, e.g. {}", suites.len(), suites[suites.len() / 2].desc));
}
