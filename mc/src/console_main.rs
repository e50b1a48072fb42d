//! The console of the repository (`console/src`, its own binary) under the explorer: C27.
#![allow(dead_code)]
include!(concat!(env!("OUT_DIR"), "/console.rs"));

#[path = "explore.rs"]
mod explore;
#[path = "report.rs"]
mod report;
#[path = "c27.rs"]
mod c27;

mod rt {
    pub fn seed() -> u64 {
        std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
    }
}

mod checks {
    use crate::explore::Case;
    pub struct Check {
        pub id: &'static str,
        pub level: &'static str,
        pub rule: &'static str,
        pub assumptions: &'static [&'static str],
        pub cases: fn(thorough: bool) -> Vec<Case>,
    }
    pub fn all() -> Vec<Check> {
        vec![crate::c27::check()]
    }
}

fn main() {
    report::main();
}
