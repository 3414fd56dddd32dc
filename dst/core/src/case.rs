//! Serializable description of one simulated run, and its result.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub type Params = BTreeMap<String, i64>;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Case {
    pub scenario: String,
    pub profile: String,
    pub seed: u64,
    /// Scenario parameters (sizes, limits, knobs).
    pub params: Params,
    /// Probability (per million) of a non-default outcome, per kind of choice.
    pub rates: BTreeMap<String, u32>,
    /// The workload and scripted faults, in order; each op is scenario specific.
    pub ops: Vec<Value>,
    /// When present: the exact non-default choices (kind, index, value); nothing is drawn at random.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub devs: Option<Vec<(String, u64, u64)>>,
}

impl Case {
    pub fn p(&self, k: &str, d: i64) -> i64 {
        *self.params.get(k).unwrap_or(&d)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.params.insert(k.to_string(), v);
    }
    pub fn rate(&mut self, k: &str, v: u32) {
        self.rates.insert(k.to_string(), v);
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Violation {
    pub prop: String,
    /// Stable class of the violation, used to compare runs while minimising.
    pub class: String,
    pub msg: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunResult {
    /// ok | crash | hang | harness
    pub end: String,
    pub violations: Vec<Violation>,
    pub devs: Vec<(String, u64, u64)>,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub panics: Vec<String>,
    pub note: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub case: Option<Case>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub log: Vec<String>,
    /// What the process did on the wire, for comparing variants of one case.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub transcript: Vec<String>,
}
