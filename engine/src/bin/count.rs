//! Sizes of the families (for tuning the bounds).
use engine::{corpus::Tier, gen, plan, refdec::Env};
fn main() {
    for f in plan::FAMILIES.iter().copied().filter(|f| std::env::args().nth(1).is_none_or(|a| a == *f)) {
        for t in [Tier::Quick, Tier::Thorough] {
            let v = plan::family(f, t);
            let part = plan::part(f, t);
            let t0 = std::time::Instant::now();
            let n: usize = v.iter().map(|s| gen::docs(&Env::new(s), part).0.len()).sum();
            let bytes: usize = v.iter().map(|s| s.files.iter().map(|f| engine::model::Render::render(f, &s.files).len()).sum::<usize>()).sum();
            println!("{f} {t:?}: {} suites, {n} docs, {bytes} schema bytes {:?}", v.len(), t0.elapsed());
        }
    }
}
