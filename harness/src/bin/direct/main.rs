//! `direct PROP TIER DIR OUT`: exhaustive exploration of the parts of the library that can be driven
//! without generated code. Every explorer enumerates a bounded space of histories or inputs, runs each
//! on the real code and compares with a small model.

mod c05;
mod c06;
mod c08;
mod c19;
mod c20;
mod c21;
mod c23;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, dir, out) = (a[1].as_str(), harness::tier(&a[2]), std::path::PathBuf::from(&a[3]), &a[4]);
    std::panic::set_hook(Box::new(|_| {}));
    harness::watchdog();
    let o = util::Out::new(dir);
    let t = tier == engine::corpus::Tier::Thorough;
    let _ = util::END.set(std::time::Instant::now() + std::time::Duration::from_secs(if t { 2400 } else { 400 }));
    match prop {
        "C05" => c05::run(&o, t),
        "C06" => c06::run(&o, t),
        "C08" => c08::run(&o, t),
        "C19" => c19::run(&o, t),
        "C20" => c20::run(&o, t),
        "C21" => c21::run(&o, t),
        "C23" => c23::run(&o, t),
        _ => panic!("no direct part for {prop}"),
    }
    std::fs::write(out, o.json()).unwrap();
}
