//! Library-level scenario: the worker thread pool.
use crate::case::*;
use crate::kernel::*;
use crate::rng::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn generate(profile: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case { scenario: "pool".into(), profile: profile.into(), seed, ..Default::default() };
    c.set("tick_ns", 1000);
    let size = match profile {
        "big" | "huge" => *r.pick(&[1, 2, 5, 16, 50, 130]),
        _ => r.range(1, 5),
    };
    c.set("size", size as i64);
    let subs = if profile == "conc" { r.range(1, 3) } else { r.range(1, 12) };
    c.set("submitters", subs as i64);
    let n = match profile {
        "big" => r.range(20, 150),
        "huge" => *r.pick(&[300, 1100, 4200]) + r.below(30),
        _ => r.range(0, 14),
    };
    // Sometimes nothing happens for a long time.
    let long = r.below(4) == 0;
    c.set("horizon_ms", 20_000_000_000);
    for id in 0..n {
        let (mut work, mut sleep) = if profile == "huge" {
            // All of them are submitted before many have run.
            (*r.pick(&[0u64, 10, 1000, 20_000]), 0)
        } else {
            (*r.pick(&[0u64, 0, 10, 1000, 20_000, 300_000]), *r.pick(&[0u64, 0, 0, 5, 500, 25_000]))
        };
        if long && r.below(6) == 0 && profile != "huge" {
            let d = *r.pick(&[1_500_000, 6_000_000, 40_000_000, 700_000_000, 90_000_000_000]);
            if r.below(3) == 0 {
                work = d;
            } else {
                sleep = d;
            }
        }
        c.ops.push(json!({"th": r.below(subs), "id": id, "work_us": work, "sleep_us": sleep}));
    }
    c.rate("preempt", *r.pick(&[0, 20_000, 120_000, 350_000]));
    c.rate("alloc_preempt", *r.pick(&[0, 20_000, 200_000]));
    c.rate("pick", *r.pick(&[0, 100_000, 500_000]));
    c.rate("wake_order", 300_000);
    c.rate("spurious_wakeup", *r.pick(&[0, 20_000, 100_000]));
    c.rate("stall", *r.pick(&[0, 0, 5_000]));
    c
}

#[derive(Default)]
pub struct PoolWorld {
    size: usize,
    submitted: BTreeSet<u64>,
    started: BTreeMap<u64, u64>,
    ended: BTreeSet<u64>,
    running: BTreeSet<u64>,
    by_tid: BTreeMap<Tid, u64>,
    idle_since: Option<u64>,
    drop_started: bool,
    drop_ended: bool,
    done: bool,
    max_running: usize,
    total: usize,
    workers: BTreeSet<Tid>,
    callers: BTreeSet<Tid>,
}

impl PoolWorld {
    pub fn new(case: &Case) -> Self {
        PoolWorld { size: case.p("size", 2) as usize, total: case.ops.len(), ..Default::default() }
    }
    /// Called after every change: is a thread idle while jobs are queued?
    fn idle_check(&mut self, k: &mut Kernel) {
        if let Some(t) = self.idle_since {
            let lost = k.stalled_in(t, k.now);
            if k.now - t > lost + 3 * MS {
                k.violation("C17", "idle-while-queued", format!("{} of {} threads ran jobs while {} jobs were queued for {} us", self.running.len(), self.size, self.submitted.len() - self.started.len(), (k.now - t) / 1000));
            }
        }
        let queued = self.submitted.len() - self.started.len();
        if queued > 0 && self.running.len() < self.size {
            if self.idle_since.is_none() {
                self.idle_since = Some(k.now);
            }
        } else {
            self.idle_since = None;
        }
    }
}

impl World for PoolWorld {
    fn lib_event(&mut self, k: &mut Kernel, e: &LibEvent) {
        // Jobs change state in this event; whether one was left waiting is judged before.
        let id = e.a;
        if !matches!(e.kind, "submit") {
            self.idle_check(k);
        }
        match e.kind {
            "submitted" => {
                self.callers.insert(e.tid);
                self.submitted.insert(id);
            }
            "job_start" => {
                self.submitted.insert(id);
                let n = self.started.entry(id).or_insert(0);
                *n += 1;
                if *n > 1 {
                    k.violation("C17", "ran-twice", format!("job {} was run {} times", id, *n));
                }
                if self.callers.contains(&e.tid) {
                    k.violation("C17", "wrong-thread", format!("job {} ran on the submitting thread", id));
                }
                self.workers.insert(e.tid);
                if self.workers.len() > self.size {
                    k.violation("C17", "too-many-threads", format!("jobs ran on {} different threads of a pool of {}", self.workers.len(), self.size));
                }
                if self.size > 5 || self.total > 80 {
                    // Taking jobs one after another takes time, too, if there are many.
                    self.idle_since = None;
                }
                self.running.insert(id);
                self.by_tid.insert(e.tid, id);
                self.max_running = self.max_running.max(self.running.len());
                if self.running.len() > self.size {
                    k.violation("C17", "too-many-at-once", format!("{} jobs run at once on a pool of {}", self.running.len(), self.size));
                }
                if self.drop_ended {
                    k.violation("C17", "ran-after-drop", format!("job {} started after the pool had been dropped", id));
                }
            }
            "job_end" => {
                self.running.remove(&id);
                self.ended.insert(id);
                if self.drop_ended {
                    k.violation("C17", "ran-after-drop", format!("job {} ended after the pool had been dropped", id));
                }
            }
            "drop_start" => self.drop_started = true,
            "drop_end" => {
                self.drop_ended = true;
                let missing: Vec<u64> = self.submitted.iter().filter(|j| !self.ended.contains(j)).copied().collect();
                if !missing.is_empty() {
                    k.violation("C17", "not-drained", format!("jobs {:?} had not finished when dropping the pool returned", missing));
                }
                let live: Vec<Tid> = (1..k.threads.len()).filter(|t| !self.callers.contains(t) && k.threads[*t].state != TState::Finished).collect();
                if !live.is_empty() {
                    k.violation("C17", "threads-left", format!("threads {:?} of the pool were still alive when dropping it returned", live));
                }
            }
            "end" => {
                self.done = true;
                k.stop = true;
            }
            _ => {}
        }
        self.idle_check(k);
    }
    fn finish(&mut self, k: &mut Kernel) {
        k.nontrivial = self.max_running > 1 || self.total > self.size;
        if !self.done {
            k.violation("C17", "stuck", format!("the scenario never ended: {} jobs submitted, {} started, {} ended, dropping {}; panics {:?}", self.submitted.len(), self.started.len(), self.ended.len(), if self.drop_started { "started" } else { "not started" }, k.panics));
        }
        if !k.panics.is_empty() {
            k.violation("C17", "panic", format!("{:?}", k.panics));
        }
    }
}
