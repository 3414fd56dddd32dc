//! What the first simulated thread runs, per scenario.
use ariadne_dns::resolver::{Cache, CacheConf};
use ariadne_dns::shared::thread_pool::ThreadPool;
use simcore::case::Case;
use simcore::kernel::{lib_event, MONO_BASE};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn body(case: &Case) {
    match case.scenario.as_str() {
        "cache" => cache_body(case),
        "pool" => pool_body(case),
        s if s.starts_with("ns") || s.starts_with("zone") => crate::ns_program::__dst_main(),
        _ => crate::rs_program::__dst_main(),
    }
}

/// Nanoseconds of simulated time of an Instant.
fn ns_of(i: Instant, t0: Instant, t0_ns: u64) -> u64 {
    if i >= t0 {
        t0_ns + (i - t0).as_nanos() as u64
    } else {
        t0_ns.saturating_sub((t0 - i).as_nanos() as u64)
    }
}

fn now_pair() -> (Instant, u64) {
    // Both readings come from the same clock; the kernel's value is read directly.
    let i = Instant::now();
    let n = {
        let _g = simcore::kernel::KGuard::new();
        simcore::kernel::kernel().now
    };
    let _ = MONO_BASE;
    (i, n)
}

fn cache_body(case: &Case) {
    let cache: Arc<Cache<u64, u64>> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_millis(case.p("clean_ms", 1000) as u64), max_cleaned: case.p("max_cleaned", 10) as u64 }));
    let (t0, n0) = now_pair();
    if case.p("cleaner", 0) != 0 {
        cache.start_clean_routine();
    }
    let nthreads = case.p("threads", 2) as u64;
    let mut hs = vec![];
    for th in 0..nthreads {
        let ops: Vec<serde_json::Value> = case.ops.iter().filter(|o| o["th"].as_u64() == Some(th)).cloned().collect();
        let cache = Arc::clone(&cache);
        hs.push(std::thread::spawn(move || {
            for o in ops {
                let g = |n: &str| o[n].as_u64().unwrap_or(0);
                let (key, val, ttl, id) = (g("key"), g("val"), g("ttl_us"), g("id"));
                if g("sleep_us") > 0 {
                    std::thread::sleep(Duration::from_micros(g("sleep_us")));
                }
                let op = o["op"].as_str().unwrap_or("").to_string();
                lib_event("call", id, key, val, format!("{} {} {}", op, th, ttl));
                let exp = |e: Instant| ns_of(e, t0, n0);
                let res = match op.as_str() {
                    "set" => match cache.set(key, Duration::from_micros(ttl), val) {
                        Some((e, v)) => format!("some {} {}", v, exp(e)),
                        None => "none".into(),
                    },
                    "get" => match cache.get_clone(&key) {
                        Some((e, v)) => format!("some {} {}", v, exp(e)),
                        None => "none".into(),
                    },
                    "remove" => match cache.remove(&key) {
                        Some((e, v)) => format!("some {} {}", v, exp(e)),
                        None => "none".into(),
                    },
                    "update" => {
                        let mut seen = None;
                        let r = cache.on_found(&key, |e, v| {
                            seen = Some((*v, ns_of(*e, t0, n0)));
                            *v = val;
                        });
                        match (r, seen) {
                            (true, Some((v, e))) => format!("some {} {}", v, e),
                            (false, None) => "none".into(),
                            _ => "inconsistent".into(),
                        }
                    }
                    "clean" => {
                        cache.clean();
                        "done".into()
                    }
                    "dump" => format!("dump {}", format!("{:?}", cache).lines().count()),
                    _ => "none".into(),
                };
                lib_event("ret", id, 0, 0, res);
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    lib_event("end", 0, 0, 0, String::new());
    if case.p("cleaner", 0) != 0 {
        let longest = case.ops.iter().filter_map(|o| o["ttl_us"].as_u64()).filter(|t| *t < 1_000_000_000).max().unwrap_or(0);
        std::thread::sleep(Duration::from_micros(longest) + Duration::from_millis(2 * case.p("clean_ms", 1000) as u64 + 5));
        let raw = format!("{:?}", cache).lines().count();
        let live = case.ops.iter().filter_map(|o| o["key"].as_u64()).collect::<std::collections::BTreeSet<u64>>().iter().filter(|k| cache.get_clone(*k).is_some()).count();
        lib_event("final_dump", raw as u64, live as u64, 0, String::new());
    }
}

struct Probe(u64);
impl Drop for Probe {
    fn drop(&mut self) {
        lib_event("job_dropped", self.0, 0, 0, String::new());
    }
}

fn pool_body(case: &Case) {
    let size = case.p("size", 2) as usize;
    let pool = Arc::new(ThreadPool::new(size, "test"));
    lib_event("pool_created", size as u64, 0, 0, String::new());
    let nsub = case.p("submitters", 1) as u64;
    let mut hs = vec![];
    for th in 0..nsub {
        let ops: Vec<serde_json::Value> = case.ops.iter().filter(|o| o["th"].as_u64() == Some(th)).cloned().collect();
        let pool = Arc::clone(&pool);
        hs.push(std::thread::spawn(move || submit(&pool, ops)));
    }
    for h in hs {
        let _ = h.join();
    }
    let Ok(pool) = Arc::try_unwrap(pool) else { return };
    lib_event("drop_start", 0, 0, 0, String::new());
    drop(pool);
    lib_event("drop_end", 0, 0, 0, String::new());
    // Give late jobs (there must be none) a chance to show up.
    std::thread::sleep(Duration::from_millis(200));
    lib_event("end", 0, 0, 0, String::new());
}

fn submit(pool: &ThreadPool, ops: Vec<serde_json::Value>) {
    for o in ops {
        let g = |n: &str| o[n].as_u64().unwrap_or(0);
        let (id, work) = (g("id"), g("work_us"));
        if g("sleep_us") > 0 {
            std::thread::sleep(Duration::from_micros(g("sleep_us")));
        }
        lib_event("submit", id, 0, 0, String::new());
        let p = Probe(id);
        pool.execute(move || {
            lib_event("job_start", id, 0, 0, String::new());
            if work > 0 {
                std::thread::sleep(Duration::from_micros(work));
            }
            lib_event("job_end", id, 0, 0, String::new());
            drop(p);
        });
        lib_event("submitted", id, 0, 0, String::new());
    }
}
