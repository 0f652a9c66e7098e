//! Stand-in for num_cpus: counts come from VP_PHYS / VP_LOGICAL, so that a check can say what
//! machine the code runs on.
fn var(n: &str, d: usize) -> usize {
    std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}
pub fn get() -> usize { var("VP_LOGICAL", 7) }
pub fn get_physical() -> usize { var("VP_PHYS", 4) }
