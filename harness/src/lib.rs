//! Glue between the engine and the real code: execution of generated types, and the main loop of
//! a shard (a program compiled from many schemas).

use engine::corpus::Tier;
use engine::run::*;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xsd::decode::FromXmlError;

pub fn err(e: &FromXmlError) -> Err_ {
    use FromXmlError as F;
    // what the error is about is in its message too
    let text = e.to_string();
    let about: &[&str] = match e {
        F::MissingElement { name, .. } | F::MissingAttribute { name } | F::InvalidVariant { name } | F::TextExpected { name } => &[name],
        F::ParseType { value, .. } => &[value],
        F::FixedMismatch { expected, received } => &[expected, received],
        _ => &[],
    };
    // (it may be quoted)
    if let Some(a) = about.iter().find(|a| !text.contains(**a) && !text.contains(format!("{a:?}").trim_matches('"'))) {
        return Err_::Other(format!("a message that does not mention {a:?}: {text}"));
    }
    match e {
        F::Xml(_) => Err_::Xml,
        F::MissingElement { name, namespace } => Err_::MissingElement { name: name.to_string(), namespace: namespace.as_ref().map(|n| n.to_string()) },
        F::MissingAttribute { name } => Err_::MissingAttribute { name: name.to_string() },
        F::TextExpected { name } => Err_::TextExpected { name: name.to_string() },
        F::InvalidVariant { name } => Err_::InvalidVariant { name: name.to_string() },
        F::MissingVariant { .. } => Err_::MissingVariant,
        F::ParseType { value, .. } => Err_::ParseType { value: value.to_string() },
        F::FixedMismatch { expected, received } => Err_::FixedMismatch { expected: expected.to_string(), received: received.to_string() },
        #[allow(unreachable_patterns)]
        other => Err_::Other(format!("{other:?}")),
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub fn run<T: Debug + PartialEq>(
    xml: &str,
    from: &dyn Fn(&str) -> Result<T, FromXmlError>,
    to: &dyn Fn(&T) -> Result<Vec<u8>, String>,
) -> Outcome {
    let step = || -> Outcome {
        let v = match from(xml) {
            Ok(v) => v,
            Err(e) => {
                // the error must be printable too
                let _ = format!("{e} {e:?}");
                return Outcome::Err(err(&e));
            }
        };
        let debug = format!("{v:?}");
        let out = to(&v);
        let again = out.as_ref().ok().map(|b| match std::str::from_utf8(b) {
            Err(_) => Ok(false),
            Ok(s) => match from(s) {
                Ok(w) => Ok(v == w || format!("{w:?}") == debug),
                Err(e) => Err(err(&e)),
            },
        });
        Outcome::Ok(Decoded { debug, xml: out, again })
    };
    match watched(|| catch_unwind(AssertUnwindSafe(step))) {
        Ok(o) => o,
        Err(p) => Outcome::Panic(panic_text(p)),
    }
}

/// Exit code of a process in which a single step of the code under test did not end.
pub const HANG: i32 = 77;
const HANG_S: u64 = 30;

mod watch {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
    use std::sync::OnceLock;
    use std::time::Instant;
    const IDLE: AtomicU64 = AtomicU64::new(0);
    static SLOTS: [AtomicU64; 256] = [IDLE; 256];
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    static START: OnceLock<Instant> = OnceLock::new();
    thread_local!(static SLOT: usize = NEXT.fetch_add(1, Relaxed) % 256);

    fn now() -> u64 {
        1 + START.get_or_init(Instant::now).elapsed().as_millis() as u64
    }
    pub fn set(active: bool) {
        SLOT.with(|s| SLOTS[*s].store(if active { now() } else { 0 }, Relaxed));
    }
    pub fn start() {
        now();
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = now();
            for s in &SLOTS {
                let x = s.load(Relaxed);
                if x != 0 && t > x + super::HANG_S * 1000 {
                    eprintln!("no end after {} s", super::HANG_S);
                    std::process::exit(super::HANG);
                }
            }
        });
    }
}
pub use watch::start as watchdog;

/// Runs a step of the code under test; the watchdog ends the process if it does not come back.
pub fn watched<R>(f: impl FnOnce() -> R) -> R {
    watch::set(true);
    let r = f();
    watch::set(false);
    r
}

#[macro_export]
macro_rules! exec {
    ($t:ty) => {{
        fn e(x: &str) -> $crate::Outcome {
            $crate::run::<$t>(x, &|s| <$t>::from_xml(s), &|v| v.to_xml().map_err(|e| e.to_string()))
        }
        e as fn(&str) -> $crate::Outcome
    }};
}

pub use engine::run::Outcome;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f && (c as u32) < 0xa0 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => panic!("tier {s}"),
    }
}

/// Main of a shard: `shard PROP TIER OUT PROGRESS AFTER`.
pub fn shard(entries: &[(usize, fn(&str) -> Outcome)]) {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "one" {
        // replay of a single document
        let xml = std::fs::read_to_string(&a[2]).unwrap();
        match (entries[0].1)(&xml) {
            Outcome::Ok(d) => {
                println!("decoded: {}", d.debug);
                println!("encoded: {:?}", d.xml.map(|b| String::from_utf8_lossy(&b).into_owned()));
                println!("decoded again equal: {:?}", d.again);
            }
            Outcome::Err(e) => println!("refused: {e:?}"),
            Outcome::Panic(p) => println!("PANIC: {p}"),
        }
        return;
    }
    let (prop, tr, out, progress, after) = (&a[1], tier(&a[2]), &a[3], &a[4], a[5].parse::<i64>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    watchdog();
    let suites = engine::plan::suites(prop, tr);
    let aspects = engine::plan::aspects(prop);
    let part = engine::plan::part(prop, tr);
    let mut file = std::fs::OpenOptions::new().append(true).create(true).open(out).unwrap();
    let mut samples = 0;
    for (i, exec) in entries.iter().filter(|e| e.0 as i64 > after) {
        let mut o = String::new();
        std::fs::write(progress, i.to_string()).unwrap();
        let s = &suites[*i];
        let mut st = Stats::default();
        let (fs, sp) = run_suite(s, *exec, part, &mut st, 200);
        let fs: Vec<_> = fs.into_iter().filter(|f| aspects.contains(&f.aspect)).take(20).collect();
        o.push_str(&format!(
            "{{\"suite\":{i},\"docs\":{},\"valid\":{},\"rejected\":{},\"unspec\":{},\"encoded\":{},\"checks\":{},\"levels\":{},\"exhausted\":{},\"truncated\":{},\"hits\":{{{}}},\"findings\":[",
            st.docs, st.valid, st.rejected, st.unspec, st.encoded, st.checks, sp.levels, sp.exhausted, sp.truncated,
            st.outcomes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
        ));
        for (n, f) in fs.iter().enumerate() {
            if n > 0 {
                o.push(',');
            }
            o.push_str(&format!(
                "{{\"aspect\":\"{:?}\",\"xml\":{},\"origin\":{},\"msg\":{}}}",
                f.aspect, js(&f.xml), js(&f.origin), js(&f.msg)
            ));
        }
        o.push_str("]");
        if samples < 2 && !st.sample.is_empty() {
            samples += 1;
            o.push_str(&format!(",\"sample\":{}", js(&st.sample)));
        }
        o.push_str("}\n");
        std::io::Write::write_all(&mut file, o.as_bytes()).unwrap();
    }
}
