//! Scenarios: the environments the process under test is placed in, and their oracles.
use crate::case::*;
use crate::kernel::*;
use serde_json::{json, Value};

pub mod cache;
pub mod clients;
pub mod conf;
pub mod life;
pub mod ns;
pub mod pool;
pub mod rs;
pub mod trace;
pub mod tree;
pub mod zone;

pub struct Budget {
    pub runs: u64,
}

/// (scenario, profile, weight) of the runs that decide a property.
pub fn plan(prop: &str) -> Vec<(&'static str, &'static str, u64)> {
    match prop {
        "C01" => vec![("ns", "mix", 3), ("ns", "flood", 1), ("rs", "flood", 1), ("ns", "hostile", 1), ("ns", "tcp", 1), ("rs", "clients", 2), ("rs", "mix", 2)],
        "C02" => vec![("ns", "hostile", 3), ("ns", "flood", 1), ("ns", "cap", 2), ("ns", "mix", 1), ("rs", "clients", 3)],
        "C03" => vec![("ns", "big", 3), ("ns", "mix", 1), ("ns", "tcp", 1), ("ns", "hostile", 1), ("rs", "clients", 1), ("rs", "trunc", 2)],
        "C04" => vec![("ns", "hostile", 3), ("ns", "mix", 1), ("rs", "clients", 2)],
        "C05" => vec![("ns", "tcp", 3), ("ns", "cap", 1), ("rs", "clients", 2)],
        "C06" => vec![("nslife", "start", 3), ("rslife", "start", 2)],
        "C07" => vec![("ns", "mix", 2), ("ns", "flood", 1), ("ns", "big", 2), ("ns", "zone", 1)],
        "C08" => vec![("zoneload", "io", 3), ("zoneload", "invalid", 1), ("zoneload", "bytes", 3)],
        "C09" => vec![("rs", "mix", 2), ("rs", "cache", 2), ("rs", "trunc", 2), ("rs", "chaos", 2), ("rs", "hostile", 1), ("rs", "evil", 1), ("rs", "spoof", 1), ("rs", "clients", 1), ("rs", "fail", 1)],
        "C10" => vec![("rs", "cache", 5), ("rs", "mix", 1), ("rs", "chaos", 1)],
        "C11" => vec![("rs", "fail", 4), ("rs", "chaos", 2), ("rs", "mix", 1), ("rs", "cache", 1), ("rs", "trunc", 1)],
        "C12" => vec![("rs", "abyss", 4), ("rs", "chaos", 1), ("rs", "limits", 1)],
        "C13" => vec![("rs", "spoof", 6), ("rs", "fail", 1), ("rsids", "any", 1)],
        "C14" => vec![("rs", "evil", 1)],
        "C15" => vec![("rs", "hostile", 4), ("rs", "chaos", 1), ("rs", "trunc", 1)],
        "C18" => vec![("rsdiff", "any", 3), ("nsdiff", "any", 1)],
        "C19" => vec![("rs", "limits", 4), ("rs", "spoof", 1), ("rs", "fail", 2), ("rs", "clients", 1), ("ns", "cap", 1), ("ns", "tcp", 1)],
        "C22" => vec![("nsconf", "any", 1), ("rsconf", "any", 1)],
        "C23" => vec![("rs", "trace", 1)],
        "C16" => vec![("cache", "conc", 3), ("cache", "seq", 1)],
        "C17" => vec![("pool", "conc", 120), ("pool", "big", 30), ("pool", "huge", 3)],
        _ => vec![],
    }
}

pub fn all_profiles() -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    for i in 1..=23 {
        for (s, p, _) in plan(&format!("C{:02}", i)) {
            if !v.contains(&(s, p)) {
                v.push((s, p));
            }
        }
    }
    v
}

pub fn budget(prop: &str) -> Budget {
    let runs = match prop {
        "C16" | "C17" | "C23" => 30_000,
        "C18" => 16_000,
        "C22" => 120_000,
        "C01" | "C02" | "C03" | "C04" | "C05" | "C07" => 30_000,
        _ => 40_000,
    };
    Budget { runs }
}

pub fn generate(scenario: &str, profile: &str, seed: u64) -> Case {
    match scenario {
        "cache" => cache::generate(profile, seed),
        "ns" => ns::generate(profile, seed),
        "nsconf" | "rsconf" => conf::generate(scenario, seed),
        "nslife" => ns::generate_life(profile, seed),
        "zoneload" => ns::generate_load(profile, seed),
        "rslife" => rs::generate_life(profile, seed),
        "pool" => pool::generate(profile, seed),
        "rs" => rs::generate(profile, seed),
        "rsids" => rs::generate_ids(seed),
        "rsdiff" => rs::generate_diff(seed),
        "nsdiff" | "zonediff" => ns::generate_diff(seed),
        _ => panic!("unknown scenario {}", scenario),
    }
}

pub fn make(case: &Case, _k: &mut Kernel) -> Box<dyn World> {
    match case.scenario.as_str() {
        "cache" => Box::new(cache::CacheWorld::new(case)),
        "ns" | "nslife" | "zoneload" | "nsdiff" | "zonediff" => Box::new(ns::NsWorld::new(case)),
        "nsconf" | "rsconf" => Box::new(conf::ConfWorld::new(case)),
        "pool" => Box::new(pool::PoolWorld::new(case)),
        "rs" | "rslife" | "rsdiff" | "rsids" => Box::new(rs::RsWorld::new(case)),
        s => panic!("unknown scenario {}", s),
    }
}

/// Does the scenario compare variants of one case? Then: the property it decides.
pub fn diff_prop(case: &Case) -> Option<&'static str> {
    (case.p("variants", 1) > 1).then_some("C18")
}
pub fn variant_name(case: &Case, v: i64) -> String {
    let mut c = case.clone();
    c.set("variant", v);
    let o = ns::variant(&c).unwrap_or(0);
    let b = |n: i64| o & n != 0;
    format!("log level {}, trace silent {} verbose {} colour {}", ns::log_level(&c), b(1), b(2), b(4))
}

/// (rule, non-triviality, components, assumptions) for the evidence file.
pub fn describe(prop: &str) -> (String, String, Value, Value) {
    let plan = plan(prop);
    let uses = |s: &str| plan.iter().any(|p| p.0 == s);
    let mut rule = String::from("Run i of a check draws a case from hash(seed, i, property): ");
    let mut non = vec![];
    let mut real = vec![];
    let mut parts = vec![];
    if uses("ns") || uses("nslife") || uses("zoneload") || uses("nsdiff") || uses("nsconf") {
        parts.push("server settings, zone files, client requests with their times, sizes and segmentation, and rates for scheduling and fault choices of a nameserver");
        real.push("the complete nameserver program: main, configuration, zone loading and parsing, UDP and TCP servers, thread pool, message coding, logging");
    }
    if uses("rs") || uses("rslife") || uses("rsdiff") || uses("rsconf") {
        parts.push("resolver settings, an authority tree with several versions of its data, behaviours of every upstream server, client requests, and rates for scheduling and fault choices of a resolver");
        real.push("the complete resolver program: main, configuration, UDP and TCP servers, thread pool, message coding, recursive lookups, cache and its cleaner, tracing, logging");
    }
    if uses("ns") {
        non.push("(nameserver) at least three queries were answered and at least two requests were in progress at once");
    }
    if uses("nslife") || uses("rslife") {
        non.push("(lifecycle) a start-up failure, a failing server or requests in progress at a stop occurred");
    }
    if uses("zoneload") {
        non.push("(zone loading) a fault was injected into reading the files, or a file was corrupted");
    }
    if uses("nsconf") {
        parts.push("changes to a sound configuration file and faults while it is read");
        non.push("(configurations) the configuration is unsound or a fault was injected into reading it");
    }
    if uses("rs") {
        non.push("(resolver) at least two client queries were answered and at least two upstream messages were exchanged");
    }
    if uses("rsids") {
        parts.push("the same case run with two different sequences of random numbers from the system");
        non.push("(other random numbers) at least four upstream queries were sent in both runs");
    }
    if uses("rsdiff") {
        parts.push("the same case run under each of several trace and log settings");
        non.push("(trace and log variants) the process sent something in the first variant");
    }
    if uses("cache") {
        parts.push("operations of up to several threads on the shared cache");
        real.push("the shared cache with its cleaning thread");
        non.push("(cache) operations of two threads overlapped or an entry was found expired");
    }
    if uses("pool") {
        parts.push("jobs given to a thread pool, panicking ones among them");
        real.push("the thread pool");
        non.push("(pool) two jobs ran at once or more jobs than threads were given");
    }
    rule.push_str(&parts.join("; "));
    rule.push_str(". One seeded generator then decides every thread switch, delay and fault of the run.");
    (
        rule,
        non.join(" or "),
        json!({
            "real": real,
            "simulated": ["the libc boundary: thread creation, futexes, sleeping, clocks, sockets, files, random numbers, process exit", "the network", "clients, upstream servers and attackers (written from RFC 1034/1035, sharing no code with the program)"],
        }),
        json!([
            "threads are serialised and switch only at system calls, futex operations, clock readings and (at a drawn rate) memory allocations; weak-memory effects are not explored",
            "the simulated sockets behave as Linux loopback and network sockets do, within the calls the programs use",
            "lock acquisitions that do not contend make no system call; switches around them come from the allocation and clock points",
            "searching by seed shows the presence of violations, not their absence",
        ]),
    )
}
