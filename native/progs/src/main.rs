//! Runs the real code (and its real dependencies) on scripted inputs and compares with the
//! reference semantics. usage: progs <command> [args]; prints one JSON object.
mod dispatch;
mod misc;
pub mod programs {
    include!(concat!(env!("HV_GEN"), "/all.rs"));
}

pub struct Report {
    pub evaluations: u64,
    pub distinct: std::collections::BTreeSet<String>,
    pub samples: Vec<String>,
    pub violations: Vec<serde_json::Value>,
}
impl Report {
    pub fn new() -> Self {
        Report { evaluations: 0, distinct: Default::default(), samples: vec![], violations: vec![] }
    }
    pub fn case(&mut self, key: impl FnOnce() -> String) {
        self.evaluations += 1;
        let k = key();
        if self.samples.len() < 5 && self.evaluations % 37 == 1 {
            self.samples.push(k.clone());
        }
        self.distinct.insert(k);
    }
    pub fn print(self) {
        println!(
            "{}",
            serde_json::json!({
                "evaluations": self.evaluations,
                "distinct": self.distinct.len(),
                "samples": self.samples,
                "violations": self.violations,
            })
        );
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if std::env::var("HV_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match args[0].as_str() {
        "dispatch" => dispatch::main(&args[1], seed, thorough).print(),
        "bodies" => misc::bodies(seed, thorough).print(),
        "services" => misc::services(&args[1], seed, thorough).print(),
        "errors" => misc::errors(seed).print(),
        "catching" => misc::catching(seed, thorough).print(),
        "blocking" => misc::blocking(seed, thorough).print(),
        "replay" => dispatch::replay(&args[1]),
        c => panic!("unknown command {}", c),
    }
}
