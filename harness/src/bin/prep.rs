//! `prep write PROP TIER DIR`: enumerate the suites of a property, write their schema files and a
//! JSON line per suite. `prep gen PROP TIER DIR OUT PROGRESS FROM`: run the generator on each.

use harness::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The first global definition whose Rust name is beyond doubt and for which there is no Rust type.
fn missing(s: &engine::model::Suite, code: &str) -> Option<String> {
    let tokens: Vec<&str> = code.split_whitespace().collect();
    let items: std::collections::HashSet<&str> = tokens
        .windows(2)
        .filter(|w| matches!(w[0], "struct" | "enum" | "type"))
        .map(|w| w[1].split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap())
        .collect();
    let plain = |n: &str| {
        let b = n.as_bytes();
        n.len() > 2 && b.iter().all(|c| c.is_ascii_alphabetic()) && !b[1..].iter().zip(b).any(|(x, y)| x.is_ascii_uppercase() && y.is_ascii_uppercase())
    };
    s.files.iter().flat_map(|f| &f.decls).map(|d| d.name()).filter(|n| plain(n)).map(engine::refdec::type_name).find(|n| !items.contains(n.as_str()))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tr, dir) = (&a[2], tier(&a[3]), std::path::Path::new(&a[4]));
    let suites = engine::plan::suites(prop, tr);
    match a[1].as_str() {
        "write" => {
            let mut o = String::new();
            for (i, s) in suites.iter().enumerate() {
                let d = dir.join(format!("s{i}"));
                for f in &s.files {
                    let p = d.join(&f.path);
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(&p, engine::model::Render::render(f, &s.files)).unwrap();
                }
                o.push_str(&format!(
                    "{{\"suite\":{i},\"family\":{},\"desc\":{},\"main\":{},\"root_ty\":{}}}\n",
                    js(s.family), js(&s.desc), js(&s.files[0].path), js(&s.root_ty)
                ));
            }
            std::fs::write(dir.join("suites.jsonl"), o).unwrap();
        }
        "gen" => {
            std::panic::set_hook(Box::new(|_| {}));
            watchdog();
            let from: usize = a[7].parse().unwrap();
            let step: usize = a[8].parse().unwrap();
            let mut out = std::fs::OpenOptions::new().append(true).create(true).open(&a[5]).unwrap();
            for i in (from..suites.len()).step_by(step) {
                std::fs::write(&a[6], i.to_string()).unwrap();
                let p = dir.join(format!("s{i}")).join(&suites[i].files[0].path);
                let r = watched(|| catch_unwind(AssertUnwindSafe(|| {
                    let s = xsd_internal::xsd::schema::Schema::parse_file(&p).map_err(|e| e.to_string())?;
                    s.generate_all().map(|t| t.to_string()).map_err(|e| e.to_string())
                })));
                let (kind, msg, size) = match r {
                    Ok(Ok(t)) => match missing(&suites[i], &t).filter(|_| prop == "C18") {
                        Some(n) => ("missing", format!("no Rust type {n}"), 0),
                        None => ("ok", String::new(), t.len()),
                    },
                    Ok(Err(e)) => ("refused", e, 0),
                    Err(p) => ("panic", panic_text(p), 0),
                };
                writeln!(out, "{{\"suite\":{i},\"kind\":\"{kind}\",\"msg\":{},\"size\":{size}}}", js(&msg)).unwrap();
            }
        }
        x => panic!("{x}"),
    }
}
