//! Library-level scenario: concurrent operations on the record cache.
use crate::case::*;
use crate::kernel::*;
use crate::rng::*;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};

pub fn generate(profile: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case { scenario: "cache".into(), profile: profile.into(), seed, ..Default::default() };
    c.set("horizon_ms", 3_600_000);
    c.set("tick_ns", *r.pick(&[0, 100, 1000, 5000]));
    let seq = profile == "seq";
    let threads = if seq { 1 } else { r.range(2, 4) };
    c.set("threads", threads as i64);
    c.set("cleaner", r.below(3).min(1) as i64);
    c.set("clean_ms", *r.pick(&[1, 5, 50, 1000]));
    c.set("max_cleaned", r.below(4) as i64);
    let keys = r.range(1, 3);
    let per = if seq { r.range(10, 40) } else { r.range(2, 9) };
    // Times are drawn from a small lattice, so that operations meet expiry instants.
    let unit = *r.pick(&[20u64, 200, 1000]);
    let mut id = 0;
    for th in 0..threads {
        for _ in 0..per {
            let op = match r.below(100) {
                0..=34 => "set",
                35..=64 => "get",
                65..=74 => "remove",
                75..=86 => "update",
                87..=94 => "clean",
                _ => "dump",
            };
            let ttl = match r.below(10) {
                0 => 0,
                1 => 3_600_000_000,
                _ => unit * r.range(1, 8),
            };
            let sleep = if r.below(2) == 0 { 0 } else { unit * r.range(1, 4) };
            c.ops.push(json!({"th": th, "id": id, "op": op, "key": r.below(keys), "val": id + 100, "ttl_us": ttl, "sleep_us": sleep}));
            id += 1;
            if op == "clean" && r.below(2) == 0 {
                c.ops.push(json!({"th": th, "id": id, "op": "dump", "key": 0, "val": 0, "ttl_us": 0, "sleep_us": 0}));
                id += 1;
            }
        }
    }
    if !seq {
        c.rate("preempt", *r.pick(&[20_000, 120_000, 350_000]));
        c.rate("alloc_preempt", *r.pick(&[0, 20_000, 200_000]));
        c.rate("pick", *r.pick(&[0, 100_000, 500_000]));
        c.rate("wake_order", 300_000);
        c.rate("spurious_wakeup", *r.pick(&[0, 30_000]));
        c.rate("stall", *r.pick(&[0, 0, 10_000]));
        if r.below(3) == 0 {
            c.set("wall_jumps", 1);
            c.rate("clock_jump", 20_000);
        }
    } else {
        c.rate("pick", 200_000);
        c.set("wall_jumps", 1);
        c.rate("clock_jump", 20_000);
    }
    c
}

#[derive(Clone, Debug)]
struct Rec {
    op: String,
    th: u64,
    key: u64,
    val: u64,
    ttl: u64,
    call: u64,
    ret: u64,
    /// Positions of the two events in the run: these order operations at one instant.
    cseq: u64,
    rseq: u64,
    res: Option<(u64, u64)>,
    raw: String,
}

#[derive(Default)]
pub struct CacheWorld {
    open: BTreeMap<u64, Rec>,
    hist: Vec<Rec>,
    seq: u64,
    ended: bool,
    cleaner: bool,
    clean_ns: u64,
    max_conc: usize,
}

impl CacheWorld {
    pub fn new(case: &Case) -> Self {
        CacheWorld { cleaner: case.p("cleaner", 0) != 0, clean_ns: case.p("clean_ms", 1000) as u64 * MS, ..Default::default() }
    }
}

impl World for CacheWorld {
    fn lib_event(&mut self, k: &mut Kernel, e: &LibEvent) {
        self.seq += 1;
        match e.kind {
            "call" => {
                let p: Vec<&str> = e.s.split(' ').collect();
                self.open.insert(e.a, Rec {
                    op: p[0].into(), th: p[1].parse().unwrap_or(0), key: e.b, val: e.c,
                    ttl: p[2].parse::<u64>().unwrap_or(0) * US, call: k.now, ret: 0, cseq: self.seq, rseq: 0, res: None, raw: String::new(),
                });
                self.max_conc = self.max_conc.max(self.open.len());
            }
            "ret" => {
                if let Some(mut r) = self.open.remove(&e.a) {
                    r.ret = k.now;
                    r.rseq = self.seq;
                    r.raw = e.s.clone();
                    let p: Vec<&str> = e.s.split(' ').collect();
                    if p[0] == "some" {
                        r.res = Some((p[1].parse().unwrap_or(0), p[2].parse().unwrap_or(0)));
                    }
                    if e.s == "inconsistent" {
                        k.violation("C16", "update-result", format!("on_found on key {} reported a result that contradicts whether its closure ran", r.key));
                    }
                    self.hist.push(r);
                }
            }
            "end" => {
                self.ended = true;
                if !self.cleaner {
                    k.stop = true;
                }
            }
            "final_dump" => {
                if e.a != e.b {
                    let slack = k.total_stall;
                    if e.a > e.b && slack == 0 {
                        k.violation("C16", "not-cleaned", format!("{} entries are left although all had expired two cleaning periods earlier", e.a - e.b));
                    }
                }
                k.stop = true;
            }
            _ => {}
        }
    }
    fn finish(&mut self, k: &mut Kernel) {
        if !self.ended {
            let o: Vec<String> = self.open.values().map(|r| format!("{} on key {}", r.op, r.key)).collect();
            k.violation("C16", "stuck", format!("operations never returned: {:?}; panics: {:?}", o, k.panics));
            return;
        }
        k.nontrivial = self.max_conc > 1 || self.hist.iter().any(|r| r.op == "get" && r.res.is_none());
        let keys: HashSet<u64> = self.hist.iter().map(|r| r.key).collect();
        let mut keys: Vec<u64> = keys.into_iter().collect();
        keys.sort();
        for key in keys {
            let h: Vec<Rec> = self.hist.iter().filter(|r| r.key == key && ["set", "get", "remove", "update"].contains(&r.op.as_str())).cloned().collect();
            if h.len() > 60 {
                continue;
            }
            k.probe("linearizability checks");
            if !linearizable(&h) {
                let d: Vec<String> = h.iter().map(|r| format!("[{}..{}] thread {} {}({}) ttl {} -> {}", r.call, r.ret, r.th, r.op, r.val, r.ttl, r.raw)).collect();
                k.violation("C16", "not-linearizable", format!("history of key {}: {}", key, d.join("; ")));
            }
        }
        self.check_dumps(k);
    }
}

impl CacheWorld {
    /// Listings of the cache: what a cleaning must have removed is gone, what lives is there.
    fn check_dumps(&self, k: &mut Kernel) {
        let _ = self.clean_ns;
        let sets: Vec<&Rec> = self.hist.iter().filter(|r| r.op == "set").collect();
        let keys: HashSet<u64> = sets.iter().map(|r| r.key).collect();
        for d in self.hist.iter().filter(|r| r.op == "dump") {
            let n: usize = d.raw.split(' ').nth(1).and_then(|v| v.parse().ok()).unwrap_or(0);
            // Cleanings that ended before the listing began.
            let cleans: Vec<&Rec> = self.hist.iter().filter(|r| r.op == "clean" && r.rseq < d.cseq).collect();
            let gone = |s: &Rec| cleans.iter().any(|c| s.rseq < c.cseq && s.ret + s.ttl <= c.call);
            let hi = keys.iter().filter(|k| sets.iter().any(|s| s.key == **k && s.cseq < d.rseq && !gone(s))).count();
            let lives = |s: &Rec| s.rseq < d.cseq && s.call + s.ttl > d.ret;
            // Nothing else may have ended the life of the entry.
            let sure = |s: &Rec| {
                lives(s) && !self.hist.iter().any(|r| r.key == s.key && r.rseq > s.cseq && r.cseq < d.rseq && (r.op == "remove" || r.op == "set" && !lives(r)))
            };
            let lo = keys.iter().filter(|k| sets.iter().any(|s| s.key == **k && sure(s))).count();
            k.probe("listings compared");
            if n > hi {
                k.violation("C16", "not-cleaned", format!("the listing at {} ns has {} entries although all but {} had been removed by cleanings", d.call, n, hi));
            }
            if n < lo {
                k.violation("C16", "live-removed", format!("the listing at {} ns has {} entries although {} were set and live", d.call, n, lo));
            }
        }
    }
}

type Entry = Option<(u64, u64, u64)>;

/// Searches an order of the operations of one key that explains all results.
fn linearizable(h: &[Rec]) -> bool {
    let mut seen: HashSet<(u64, Entry, u64)> = HashSet::new();
    let mut budget = 2_000_000u64;
    let r = go(h, 0, None, 0, &mut seen, &mut budget);
    r || budget == 0
}

fn go(h: &[Rec], done: u64, st: Entry, t: u64, seen: &mut HashSet<(u64, Entry, u64)>, budget: &mut u64) -> bool {
    if done == (1u64 << h.len()) - 1 {
        return true;
    }
    if *budget == 0 || !seen.insert((done, st, t)) {
        return false;
    }
    *budget -= 1;
    let min_ret = (0..h.len()).filter(|i| done >> i & 1 == 0).map(|i| h[i].rseq).min().unwrap();
    for i in 0..h.len() {
        if done >> i & 1 == 1 || h[i].cseq > min_ret {
            continue;
        }
        let o = &h[i];
        let t2 = t.max(o.call);
        // What the operation saw must match the state: (value, exact expiry) or nothing.
        let ok = match (st, o.res) {
            (None, None) => true,
            (None, Some(_)) => false,
            // Nothing seen: the entry must have expired by the end of the operation.
            (Some((_, lo, _)), None) => lo <= o.ret,
            (Some((v, lo, hi)), Some((rv, re))) => v == rv && re >= lo && re <= hi && re > o.call,
        };
        if !ok {
            continue;
        }
        let nst: Entry = match o.op.as_str() {
            "set" => Some((o.val, t2 + o.ttl, o.ret + o.ttl)),
            "remove" => None,
            "update" => o.res.map(|(_, e)| (o.val, e, e)),
            _ => o.res.map(|(v, e)| (v, e, e)),
        };
        if go(h, done | 1 << i, nst, t2, seen, budget) {
            return true;
        }
    }
    false
}
