//! Evidence files and verdicts.
use crate::pool::Tally;
use std::fmt::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}
pub enum J {
    S(String),
    N(f64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn text(&self) -> String {
        match self {
            J::S(s) => esc(s),
            J::N(n) => {
                if n.fract() == 0.0 {
                    format!("{}", *n as i64)
                } else {
                    format!("{n:.3}")
                }
            }
            J::B(b) => b.to_string(),
            J::A(v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")),
            J::O(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{}: {}", esc(k), x.text())).collect::<Vec<_>>().join(",\n ")),
        }
    }
}
pub fn strs(v: &[String]) -> J {
    J::A(v.iter().map(|s| J::S(s.clone())).collect())
}
#[derive(Default)]
pub struct Report {
    pub property: String,
    pub tier: String,
    pub seed: i64,
    /// symbolic states stepped and instructions executed symbolically
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub samples: Vec<String>,
    pub assumptions: Vec<String>,
    pub bounds: Vec<String>,
    pub outside: Vec<String>,
    pub funcs: Vec<String>,
    pub tally: Tally,
    pub aig: u64,
    pub exec_s: f64,
    pub extra: Vec<(String, J)>,
    pub violations: Vec<String>,
    pub undecided: u64,
}
impl Report {
    pub fn write(&self, path: &str, wall: f64) -> Result<(), String> {
        let t = &self.tally;
        let n = |k: &str, v: u64| (k.to_string(), J::N(v as f64));
        let mut cov = vec![
            n("states", self.states),
            n("transitions", self.transitions),
            n("traces_validated_against_impl", self.validated),
            ("samples".to_string(), strs(&self.samples)),
            ("functions_encoded".into(), strs(&self.funcs)),
            ("bounds".into(), strs(&self.bounds)),
            ("outside_bounds".into(), strs(&self.outside)),
            n("solver_queries", t.queries),
            n("queries_settled_by_construction", t.trivial),
            n("assertions_covered_by_queries", t.literals),
            n("solver_conflicts", t.conflicts),
            n("cofactor_cases", t.cofactors),
            n("queries_needing_the_full_assumptions", t.refined),
            n("queries_undecided", self.undecided),
            ("solver_seconds_all_threads".into(), J::N(t.secs)),
            ("symbolic_execution_seconds".into(), J::N(self.exec_s)),
            n("circuit_nodes", self.aig),
            ("slowest_queries".into(), strs(&t.slowest.iter().map(|(d, s)| format!("{d:.1}s {s}")).collect::<Vec<_>>())),
            ("meaning".into(), J::S("states: program states stepped by the symbolic executor (basic blocks under a path condition); transitions: IR instructions executed symbolically; the verdict is the solver's over all inputs within the bounds, concrete samples only validate the encoding".into())),
        ];
        for (k, v) in &self.extra {
            let v = match v {
                J::S(s) => J::S(s.clone()),
                J::N(x) => J::N(*x),
                J::B(b) => J::B(*b),
                J::A(a) => J::A(a.iter().map(|x| J::S(match x { J::S(s) => s.clone(), o => o.text() })).collect()),
                o => J::S(o.text()),
            };
            cov.push((k.clone(), v));
        }
        let j = J::O(vec![
            ("property".into(), J::S(self.property.clone())),
            ("tier".into(), J::S(self.tier.clone())),
            ("seed".into(), J::N(self.seed as f64)),
            ("level".into(), J::S("model_checking".into())),
            ("coverage".into(), J::O(cov)),
            ("assumptions".into(), strs(&self.assumptions)),
            ("wall_s".into(), J::N((wall * 10.0).round() / 10.0)),
            ("violations".into(), J::N(self.violations.len() as f64)),
        ]);
        if let Some(d) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(path, j.text() + "\n").map_err(|e| format!("{path}: {e}"))
    }
}
